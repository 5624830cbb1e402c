#include "mon.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <atomic>
#include <mutex>

#include <swiftnav/logging.h>

namespace mon {

struct Status {
  char section[64];
  int64_t idx;
  int64_t state; /* 0 running, 1 done, 2 hang */
};

static Status *g_status;
static Status g_dummy;
static Ctx *g_cur;
static std::mutex g_mu;
static std::map<std::string, int64_t> g_events;
static std::unordered_set<uint64_t> g_seen;
static int64_t g_evals, g_nt_cases;
static bool g_case_nt;
static const char *g_rule = "";
static std::atomic<uint64_t> g_log_lines{0};
static const size_t kMaxSeen = 120000;

struct Viol {
  std::string key, section, msg, note;
  int64_t idx, count;
};
static std::vector<Viol> g_viol;
struct Sample {
  std::string section, note;
  int64_t idx;
};
static std::vector<Sample> g_samples;
static std::map<std::string, int64_t> g_sec_evals;

std::vector<Section> &sections() {
  static std::vector<Section> s;
  return s;
}
static std::map<std::string, int64_t> &needs() {
  static std::map<std::string, int64_t> n;
  return n;
}
Need::Need(const char *name, int64_t min) { needs()[name] = min; }
RuleText::RuleText(const char *t) { g_rule = t; }

void ev(const char *name, int64_t n) {
  std::lock_guard<std::mutex> l(g_mu);
  g_events[name] += n;
}

void Ctx::nt(uint64_t h) {
  std::lock_guard<std::mutex> l(g_mu);
  g_case_nt = true;
  if (g_seen.size() < kMaxSeen) g_seen.insert(hcombine(h, hbytes(section, strlen(section))));
}

void Ctx::describe(const char *fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (note.size() < 4000) {
    if (!note.empty()) note += "; ";
    note += buf;
  }
}

static void record(const char *key, const char *msg) {
  std::lock_guard<std::mutex> l(g_mu);
  for (auto &v : g_viol) {
    if (v.key == key) {
      v.count++;
      return;
    }
  }
  if (g_viol.size() < 64) {
    g_viol.push_back({key, g_cur ? g_cur->section : "", msg, g_cur ? g_cur->note : "",
                      g_cur ? g_cur->idx : -1, 1});
  }
}

void fail(const char *key, const char *fmt, ...) {
  char buf[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  record(key, buf);
  throw CaseFailed();
}
void note_fail(const char *key, const char *fmt, ...) {
  char buf[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  record(key, buf);
}

static unsigned char *sparse_region() {
  static unsigned char *p = [] {
    void *m = mmap(nullptr, Sparse::N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) {
      fprintf(stderr, "cannot reserve address space\n");
      exit(3);
    }
    return static_cast<unsigned char *>(m);
  }();
  return p;
}
Sparse::Sparse() : p(sparse_region()) {}
Sparse::~Sparse() { madvise(p, N, MADV_DONTNEED); }

std::string hex(const void *p, size_t n) {
  static const char *d = "0123456789abcdef";
  std::string s;
  const unsigned char *c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n && i < 200; i++) {
    s += d[c[i] >> 4];
    s += d[c[i] & 15];
  }
  return s;
}

uint64_t log_lines() { return g_log_lines.load(); }

static void impl_log(int level, const char *msg, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, msg);
  vsnprintf(buf, sizeof buf, msg, ap);
  va_end(ap);
  (void)level;
  g_log_lines++;
}
static void impl_dlog(int level, const char *file, const int line, const char *msg, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, msg);
  vsnprintf(buf, sizeof buf, msg, ap);
  va_end(ap);
  (void)level;
  (void)line;
  if (file && strlen(file) > 254) abort();
  g_log_lines++;
}

static void on_prof(int) {
  g_status->state = 2;
  static const char m[] = "MON-HANG\n";
  ssize_t rc = write(2, m, sizeof m - 1);
  (void)rc;
  _exit(86);
}
static void arm(int cpu_s) {
  struct itimerval tv = {{0, 0}, {cpu_s, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
}

static void jstr(FILE *f, const std::string &s) {
  fputc('"', f);
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      fputc('\\', f);
      fputc(c, f);
    } else if (c < 32 || c > 126) {
      fprintf(f, "\\u%04x", c);
    } else {
      fputc(c, f);
    }
  }
  fputc('"', f);
}

static void write_result(const char *out) {
  FILE *f = fopen(out, "w");
  if (!f) {
    perror(out);
    _exit(3);
  }
  fprintf(f, "{\"evals\":%" PRId64 ",\"nt_cases\":%" PRId64 ",\"rule\":", g_evals, g_nt_cases);
  jstr(f, g_rule);
  fprintf(f, ",\"log_lines\":%" PRIu64 ",\"needs\":{", g_log_lines.load());
  const char *sep = "";
  for (auto &n : needs()) {
    fprintf(f, "%s", sep);
    jstr(f, n.first);
    fprintf(f, ":%" PRId64, n.second);
    sep = ",";
  }
  fprintf(f, "},\"events\":{");
  sep = "";
  for (auto &n : g_events) {
    fprintf(f, "%s", sep);
    jstr(f, n.first);
    fprintf(f, ":%" PRId64, n.second);
    sep = ",";
  }
  fprintf(f, "},\"sections\":{");
  sep = "";
  for (auto &n : g_sec_evals) {
    fprintf(f, "%s", sep);
    jstr(f, n.first);
    fprintf(f, ":%" PRId64, n.second);
    sep = ",";
  }
  fprintf(f, "},\"violations\":[");
  sep = "";
  for (auto &v : g_viol) {
    fprintf(f, "%s{\"key\":", sep);
    jstr(f, v.key);
    fprintf(f, ",\"section\":");
    jstr(f, v.section);
    fprintf(f, ",\"idx\":%" PRId64 ",\"count\":%" PRId64 ",\"msg\":", v.idx, v.count);
    jstr(f, v.msg);
    fprintf(f, ",\"note\":");
    jstr(f, v.note);
    fprintf(f, "}");
    sep = ",";
  }
  fprintf(f, "],\"samples\":[");
  sep = "";
  for (auto &s : g_samples) {
    fprintf(f, "%s{\"section\":", sep);
    jstr(f, s.section);
    fprintf(f, ",\"idx\":%" PRId64 ",\"case\":", s.idx);
    jstr(f, s.note);
    fprintf(f, "}");
    sep = ",";
  }
  fprintf(f, "]}\n");
  fclose(f);
  std::string hp = std::string(out) + ".seen";
  f = fopen(hp.c_str(), "wb");
  if (f) {
    for (uint64_t h : g_seen) fwrite(&h, 8, 1, f);
    fclose(f);
  }
}

} /* namespace mon */

using namespace mon;

/* mon --shard i --nshards n --seed s --tier quick|thorough --out f --status f
 *     [--from-section name --from-idx k]  (resume after a crash)
 *     [--only section idx]                (replay) */
int main(int argc, char **argv) {
  int shard = 0, nshards = 1;
  uint64_t seed = 1;
  bool thorough = false, stop = false;
  const char *out = nullptr, *status = nullptr, *from_sec = nullptr, *only = nullptr;
  int64_t from_idx = 0, only_idx = 0;
  double scale = 1.0;
  int cpu = 20;
  double slow_ms = 0; /* report cases that take longer (for tuning the budgets) */
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--shard") shard = atoi(argv[++i]);
    else if (a == "--nshards") nshards = atoi(argv[++i]);
    else if (a == "--seed") seed = strtoull(argv[++i], nullptr, 0);
    else if (a == "--tier") thorough = !strcmp(argv[++i], "thorough");
    else if (a == "--out") out = argv[++i];
    else if (a == "--status") status = argv[++i];
    else if (a == "--from-section") from_sec = argv[++i];
    else if (a == "--from-idx") from_idx = atoll(argv[++i]);
    else if (a == "--slow") slow_ms = atof(argv[++i]);
    else if (a == "--cpu") cpu = atoi(argv[++i]);
    else if (a == "--stop") stop = true; /* leave at the first violation */
    else if (a == "--scale") scale = atof(argv[++i]);
    else if (a == "--only") {
      only = argv[++i];
      only_idx = atoll(argv[++i]);
    } else {
      fprintf(stderr, "bad argument %s\n", a.c_str());
      return 3;
    }
  }
  g_status = &g_dummy;
  if (status) {
    int fd = open(status, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0) {
      perror(status);
      return 3;
    }
    void *m = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m == MAP_FAILED) return 3;
    g_status = static_cast<Status *>(m);
  }
  logging_set_implementation(impl_log, impl_dlog);
  signal(SIGPROF, on_prof);

  bool skipping = from_sec != nullptr;
  for (auto &s : sections()) {
    int64_t n = thorough ? s.thorough_n : s.quick_n;
    if (scale != 1.0) n = static_cast<int64_t>(static_cast<double>(n) * scale);
    int64_t i0 = 0;
    if (only) {
      if (strcmp(only, s.name) != 0) continue;
      i0 = only_idx;
      n = only_idx + 1;
    }
    if (skipping) {
      if (strcmp(from_sec, s.name) != 0) continue;
      skipping = false;
      i0 = from_idx;
    }
    int64_t sampled = 0;
    for (int64_t idx = i0; idx < n; idx++) {
      if (!only && idx % nshards != shard) continue;
      Ctx c;
      c.idx = idx;
      c.thorough = thorough;
      c.section = s.name;
      c.r = Rng(hcombine(hcombine(seed, hbytes(s.name, strlen(s.name))), static_cast<uint64_t>(idx)));
      g_cur = &c;
      snprintf(g_status->section, sizeof g_status->section, "%s", s.name);
      g_status->idx = idx;
      g_case_nt = false;
      arm(cpu); /* every case has its own budget of processor time */
      const clock_t began = slow_ms ? clock() : 0;
      try {
        s.fn(c);
      } catch (CaseFailed &) {
      }
      if (slow_ms) {
        const double ms = 1e3 * static_cast<double>(clock() - began) / CLOCKS_PER_SEC;
        if (ms > slow_ms) fprintf(stderr, "slow: %s %" PRId64 " %.0f ms\n", s.name, idx, ms);
      }
      g_evals++;
      g_sec_evals[s.name]++;
      if (stop && !g_viol.empty()) {
        printf("key=%s section=%s idx=%" PRId64 "\n  %s\n", g_viol[0].key.c_str(), g_viol[0].section.c_str(), g_viol[0].idx, g_viol[0].msg.c_str());
        return 1;
      }
      if (g_case_nt) {
        g_nt_cases++;
        if (sampled < 1 && shard < 2 && !c.note.empty()) {
          g_samples.push_back({s.name, c.note, idx});
          sampled++;
        }
      }
      g_cur = nullptr;
    }
  }
  arm(0);
  g_status->state = 1;
  if (out) write_result(out);
  if (only) {
    for (auto &v : g_viol) {
      printf("key=%s section=%s idx=%" PRId64 "\n  %s\n  case: %s\n", v.key.c_str(),
             v.section.c_str(), v.idx, v.msg.c_str(), v.note.c_str());
    }
    return g_viol.empty() ? 0 : 1;
  }
  return 0;
}
