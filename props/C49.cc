// @run variant=asan shards=4
#include "gnss.h"
#include <fcntl.h>
#include <unistd.h>
#include <swiftnav/logging.h>
using namespace mon;
RULE("dispatch: every log macro x every compile-time LOG_LEVEL (0..7) x DEBUG on/off x several installed sinks and arguments, the received (level, text, file, line) stream compared with the emitted one; "
     "rate limit: 32-bit tick sequences incl. wrap-around against a model; truncate: generated paths in exact-size buffers; standard sink: captured stderr lines. Non-trivial: every case; identity = configuration and arguments.");
NEED(emitted, 50000);
NEED(suppressed, 50000);
NEED(detailed, 20000);
NEED(sid_messages, 3000);
NEED(sink_switches, 10000);
NEED(rate_ticks, 100000);
NEED(rate_emitted, 5000);
NEED(rate_suppressed, 20000);
NEED(rate_wraps, 500);
NEED(paths, 50000);
NEED(paths_trailing, 5000);
NEED(stderr_lines, 1000);

struct Ev {
  int sink, level, line;
  std::string file, text;
  bool detailed;
};
static std::vector<Ev> *g_got = nullptr;
static void got(int sink, int level, const char *file, int line, bool detailed, const char *fmt, va_list ap) {
  char b[700];
  vsnprintf(b, sizeof b, fmt, ap);
  if (g_got) g_got->push_back({sink, level, line, file ? file : "", b, detailed});
}
template <int N>
static void sink(int level, const char *msg, ...) {
  va_list ap;
  va_start(ap, msg);
  got(N, level, nullptr, 0, false, msg, ap);
  va_end(ap);
}
template <int N>
static void dsink(int level, const char *file, const int line, const char *msg, ...) {
  va_list ap;
  va_start(ap, msg);
  got(N, level, file, line, true, msg, ap);
  va_end(ap);
}
static const pfn_log SINKS[3] = {sink<0>, sink<1>, sink<2>};
static const pfn_detailed_log DSINKS[3] = {dsink<0>, dsink<1>, dsink<2>};
/* RAII: whatever happens, the harness' own sink comes back */
struct Restore {
  pfn_log l = log_;
  pfn_detailed_log d = detailed_log_;
  ~Restore() {
    logging_set_implementation(l, d);
    g_got = nullptr;
  }
};
/* emit statement `which` with arguments; returns the line it was on */
static int g_eval;
static int arg(int v) {
  g_eval++;
  return v;
}
typedef int (*emit_fn)(int which, int iv, const char *sv, double dv, gnss_signal_t sid);
#define EMITTER(NAME)                                                                       \
  static int NAME(int which, int iv, const char *sv, double dv, gnss_signal_t sid) {        \
    switch (which) {                                                                        \
      case 0: log_emerg("e %d %s", arg(iv), sv); break;                                     \
      case 1: log_alert("a %d %s %.3f", arg(iv), sv, dv); break;                            \
      case 2: log_crit("c %d", arg(iv)); break;                                             \
      case 3: log_error("r %s %d", sv, arg(iv)); break;                                     \
      case 4: log_warn("w %.5g %d", dv, arg(iv)); break;                                    \
      case 5: log_notice("n %d%s", arg(iv), sv); break;                                     \
      case 6: log_info("i %d %s %s", arg(iv), sv, sv); break;                               \
      case 7: log_debug("d %d %s", arg(iv), sv); break;                                     \
      case 8: detailed_log_emerg("e %d %s", arg(iv), sv); break;                            \
      case 9: detailed_log_alert("a %d %s %.3f", arg(iv), sv, dv); break;                   \
      case 10: detailed_log_crit("c %d", arg(iv)); break;                                   \
      case 11: detailed_log_error("r %s %d", sv, arg(iv)); break;                           \
      case 12: detailed_log_warn("w %.5g %d", dv, arg(iv)); break;                          \
      case 13: detailed_log_notice("n %d%s", arg(iv), sv); break;                           \
      case 14: detailed_log_info("i %d %s %s", arg(iv), sv, sv); break;                     \
      case 15: detailed_log_debug("d %d %s", arg(iv), sv); break;                           \
      case 16: log_error_sid(sid, "r %d %s", arg(iv), sv); break;                           \
      case 17: log_warn_sid(sid, "w %d", arg(iv)); break;                                   \
      case 18: log_info_sid(sid, "i %d %.5g %s", arg(iv), dv, sv); break;                   \
      case 19: log_debug_sid(sid, "d %d", arg(iv)); break;                                  \
      case 20: detailed_log_error_sid(sid, "r %d %s", arg(iv), sv); break;                  \
      case 21: detailed_log_warn_sid(sid, "w %d", arg(iv)); break;                          \
      case 22: detailed_log_info_sid(sid, "i %d %.5g %s", arg(iv), dv, sv); break;          \
      case 23: detailed_log_debug_sid(sid, "d %d", arg(iv)); break;                         \
    }                                                                                       \
    return __LINE__;                                                                        \
  }
#undef LOG_LEVEL
#undef DEBUG
#define DEBUG false
#define LOG_LEVEL 0
EMITTER(em00)
#undef LOG_LEVEL
#define LOG_LEVEL 1
EMITTER(em01)
#undef LOG_LEVEL
#define LOG_LEVEL 2
EMITTER(em02)
#undef LOG_LEVEL
#define LOG_LEVEL LOG_ERROR
EMITTER(em03)
#undef LOG_LEVEL
#define LOG_LEVEL 4
EMITTER(em04)
#undef LOG_LEVEL
#define LOG_LEVEL LOG_NOTICE
EMITTER(em05)
#undef LOG_LEVEL
#define LOG_LEVEL LOG_INFO
EMITTER(em06)
#undef LOG_LEVEL
#define LOG_LEVEL LOG_DEBUG
EMITTER(em07)
#undef DEBUG
#define DEBUG true
#undef LOG_LEVEL
#define LOG_LEVEL 0
EMITTER(em10)
#undef LOG_LEVEL
#define LOG_LEVEL LOG_INFO
EMITTER(em16)
#undef LOG_LEVEL
#define LOG_LEVEL LOG_DEBUG
EMITTER(em17)
static const struct Cfg {
  emit_fn f;
  int level;
  bool debug;
} CFG[] = {{em00, 0, false}, {em01, 1, false}, {em02, 2, false}, {em03, 3, false}, {em04, 4, false}, {em05, 5, false}, {em06, 6, false}, {em07, 7, false}, {em10, 0, true}, {em16, 6, true}, {em17, 7, true}};

SECTION(dispatch, 20000, 500000) {
  Restore keep;
  std::vector<Ev> log;
  g_got = &log;
  int cur = static_cast<int>(c.r.range(0, 2));
  logging_set_implementation(SINKS[cur], DSINKS[cur]);
  uint64_t h = static_cast<uint64_t>(cur);
  int n = static_cast<int>(c.r.range(4, 30));
  for (int k = 0; k < n; k++) {
    if (c.r.coin(0.15)) {
      cur = static_cast<int>(c.r.range(0, 2));
      logging_set_implementation(SINKS[cur], DSINKS[cur]);
      ev("sink_switches");
    }
    const Cfg &g = CFG[c.r.range(0, 10)];
    int which = static_cast<int>(c.r.range(0, 23)), lvl = which < 16 ? which & 7 : 3 + ((which - 16) & 3), iv = static_cast<int>(c.r.edgy(INT_MIN, INT_MAX));
    if (which >= 16) lvl = std::vector<int>{LOG_ERROR, LOG_WARN, LOG_INFO, LOG_DEBUG}[static_cast<size_t>((which - 16) & 3)];
    bool detailed = (which >= 8 && which < 16) || which >= 20, hassid = which >= 16;
    double dv = c.r.logmag(1e-3, 1e6);
    std::string sv;
    for (int64_t i = c.r.range(0, 40); i > 0; i--) sv += static_cast<char>(c.r.range(32, 126)); /* incl. '%' */
    gnss_signal_t sid = c.r.pick(gnss::all_sids());
    h = hcombine(h, hcombine(static_cast<uint64_t>(which * 16 + g.level), static_cast<uint64_t>(iv)));
    c.describe("statement %d (level %d) under LOG_LEVEL %d DEBUG %d, int %d, string '%s'", which, lvl, g.level, g.debug, iv, sv.c_str());
    log.clear();
    g_eval = 0;
    int line = g.f(which, iv, sv.c_str(), dv, sid);
    if (lvl == LOG_DEBUG && detailed && g.debug && g.level < 7) continue; /* DEBUG with detailed messages: not specified */
    bool on = lvl <= g.level || (lvl == LOG_DEBUG && g.debug);
    CHECK(log.size() == (on ? 1u : 0u), on ? "missed" : "not_suppressed", "the sink was called %zu times", log.size());
    ev(on ? "emitted" : "suppressed");
    CHECK(g_eval == (on ? 1 : 0), "argument", "the argument was evaluated %d times", g_eval);
    if (!on) continue;
    char want[700], s[40] = "", t[700];
    if (hassid) {
      char b[SID_STR_LEN_MAX];
      sid_to_string(b, sizeof b, sid);
      snprintf(s, sizeof s, "%s ", b);
      ev("sid_messages");
    }
    if (which < 16) switch (lvl) {
        case 0: snprintf(t, sizeof t, "e %d %s", iv, sv.c_str()); break;
        case 1: snprintf(t, sizeof t, "a %d %s %.3f", iv, sv.c_str(), dv); break;
        case 2: snprintf(t, sizeof t, "c %d", iv); break;
        case 3: snprintf(t, sizeof t, "r %s %d", sv.c_str(), iv); break;
        case 4: snprintf(t, sizeof t, "w %.5g %d", dv, iv); break;
        case 5: snprintf(t, sizeof t, "n %d%s", iv, sv.c_str()); break;
        case 6: snprintf(t, sizeof t, "i %d %s %s", iv, sv.c_str(), sv.c_str()); break;
        default: snprintf(t, sizeof t, "d %d %s", iv, sv.c_str());
      }
    else switch ((which - 16) & 3) {
        case 0: snprintf(t, sizeof t, "r %d %s", iv, sv.c_str()); break;
        case 1: snprintf(t, sizeof t, "w %d", iv); break;
        case 2: snprintf(t, sizeof t, "i %d %.5g %s", iv, dv, sv.c_str()); break;
        default: snprintf(t, sizeof t, "d %d", iv);
      }
    snprintf(want, sizeof want, "%s%.600s", s, t);
    const Ev &e = log[0];
    CHECK(e.sink == cur, "sink", "sink %d was called, sink %d is installed", e.sink, cur);
    CHECK(e.detailed == detailed, "kind", "detailed %d", e.detailed);
    CHECK(e.level == lvl, "level", "level %d passed on", e.level);
    CHECK(e.text == want, "text", "'%s', expected '%s'", e.text.c_str(), want);
    if (detailed) {
      CHECK(e.file == "C49.cc" && e.line == line, "location", "'%s':%d, expected C49.cc:%d", e.file.c_str(), e.line, line);
      ev("detailed");
    }
  }
  c.nt(h);
}

/* one call site per slot; the model mirrors the last tick that was let through */
static bool g_seen[4];
static u32 g_last[4];
static int g_rate;
template <int N>
static void site(u32 t) {
  if (N & 1) {
#undef LOG_RATE_THRESH
#define LOG_RATE_THRESH (1000u)
    LOG_RATE_LIMIT(t, g_rate++);
  } else {
#undef LOG_RATE_THRESH
#define LOG_RATE_THRESH (60000u)
    LOG_RATE_LIMIT(t, g_rate++);
  }
}
SECTION(rate, 4000, 100000) {
  int k = static_cast<int>(c.r.range(0, 3));
  void (*const sites[4])(u32) = {site<0>, site<1>, site<2>, site<3>};
  u32 thr = k & 1 ? 1000 : 60000, t = g_seen[k] ? g_last[k] + thr * 2 + static_cast<u32>(c.r.range(0, 1000000)) : c.r.u32();
  if (c.r.coin(0.3)) {
    u32 w = 0u - static_cast<u32>(c.r.range(1, 20 * thr)); /* just below wrap-around */
    if (!g_seen[k] || w - g_last[k] >= thr) t = w;
  }
  if (t == 0xffffffffu) t--;
  c.describe("call site %d threshold %u first tick %u", k, thr, t);
  c.nt(hcombine(t, static_cast<uint64_t>(k)));
  u32 before = t;
  for (int i = 0; i < 60; i++) {
    bool any = g_seen[k] && g_last[k] == 0xffffffffu; /* the site's marker for "never": not judged */
    bool on = !g_seen[k] || t - g_last[k] >= thr;
    g_rate = 0;
    sites[k](t);
    ev("rate_ticks");
    if (t < before) ev("rate_wraps");
    if (!any) {
      CHECK(g_rate == (on ? 1 : 0), on ? "rate_missed" : "rate_not_limited", "tick %u after %u (threshold %u): ran %d times", t, g_last[k], thr, g_rate);
      ev(on ? "rate_emitted" : "rate_suppressed");
    }
    if (g_rate) g_seen[k] = true, g_last[k] = t;
    before = t;
    t += static_cast<u32>(c.r.coin(0.2) ? c.r.range(thr - 2, thr + 2) : c.r.coin(0.1) ? c.r.range(0, 5 * thr) : c.r.range(0, thr / 3));
    if (c.r.coin(0.02)) t -= static_cast<u32>(c.r.range(1, 3 * thr));
  }
}
SECTION(truncate, 120000, 4000000) {
  size_t n = static_cast<size_t>(c.r.coin(0.1) ? c.r.range(0, 3) : c.r.coin(0.05) ? 254 : c.r.coin(0.999) ? c.r.range(0, 254) : c.r.coin() ? c.r.range(250, 70000) : c.r.range(32760, 32775));
  double slash = n < 255 ? c.r.pick<double>({0, 0.05, 0.3, 0.9, 1}) : c.r.pick<double>({0, 1e-4, 0.01, 1});
  std::string p;
  for (size_t i = 0; i < n; i++) p += c.r.coin(slash) ? '/' : static_cast<char>(c.r.coin(0.9) ? c.r.range(33, 126) : c.r.range(-128, -1));
  if (n && c.r.coin(0.2)) p[n - 1] = '/';
  c.describe("path '%s'", p.substr(0, 300).c_str());
  c.nt(hbytes(p.data(), n, n));
  Buf<char> b(n + 1);
  memcpy(b.p, p.c_str(), n + 1);
  const char *got_ = truncate_path_(b.p);
  std::string q = p, want;
  while (!q.empty() && q.back() == '/') q.pop_back();
  if (q.size() < p.size()) ev("paths_trailing");
  size_t s = q.rfind('/');
  want = p.empty() ? "" : q.empty() ? "/" : s == std::string::npos ? q : q.substr(s + 1);
  CHECK(got_ != nullptr && want == got_, "truncate", "'%s', expected '%s'", got_ ? got_ : "(null)", want.c_str());
  ev("paths");
}
/* the standard sink writes each message as one line naming its level */
SECTION(standard, 120, 1000) {
  Restore keep;
  static const char *names[8] = {"EMERG", "ALERT", "CRIT", "ERR", "WARN", "NOTICE", "INFO", "DEBUG"};
  for (int i = 0; i < 8; i++) CHECK(level_string[i] && !strncmp(level_string[i], names[i], strlen(names[i])), "level_name", "level %d is called '%s'", i, level_string[i]);
  char path[] = "/tmp/verif_c49_XXXXXX";
  int fd = mkstemp(path), save = dup(2);
  if (fd < 0 || save < 0) abort();
  unlink(path);
  std::vector<std::string> text;
  std::vector<int> lvl, which, lines;
  fflush(stderr);
  dup2(fd, 2);
  logging_set_implementation(nullptr, nullptr);
  for (int i = 0; i < 24; i++) {
    int w = static_cast<int>(c.r.range(0, 15)), iv = static_cast<int>(c.r.range(100000, 999999));
    lines.push_back(em07(w, iv, "<txt>", 1.5, c.r.pick(gnss::all_sids())));
    which.push_back(w);
    lvl.push_back(w & 7);
    text.push_back(std::to_string(iv));
  }
  fflush(stderr);
  dup2(save, 2);
  close(save);
  std::string out;
  lseek(fd, 0, SEEK_SET);
  char b[4096];
  for (ssize_t k; (k = read(fd, b, sizeof b)) > 0;) out.append(b, static_cast<size_t>(k));
  close(fd);
  c.describe("%zu bytes of output", out.size());
  c.nt(hbytes(out.data(), out.size()));
  std::vector<std::string> got_lines;
  for (size_t i = 0, j; (j = out.find('\n', i)) != std::string::npos; i = j + 1) got_lines.push_back(out.substr(i, j - i));
  CHECK(got_lines.size() == text.size() && !out.empty() && out.back() == '\n', "lines", "%zu lines for %zu messages", got_lines.size(), text.size());
  for (size_t i = 0; i < text.size(); i++) {
    const std::string &l = got_lines[i];
    CHECK(l.find(text[i]) != std::string::npos && l.find(level_string[lvl[i]]) != std::string::npos, "standard_text", "message %zu of level %d gave '%s'", i, lvl[i], l.c_str());
    if (which[i] >= 8) CHECK(l.find("C49.cc") != std::string::npos && l.find(std::to_string(lines[i])) != std::string::npos, "standard_location", "'%s'", l.c_str());
    ev("stderr_lines");
  }
}
