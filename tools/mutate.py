#!/usr/bin/env python3
"""Bulk mutation sweep (development tool, no check uses it).
mutate.py OUTDIR N SEED [file-regex]   N random mutants of /repo/src/*.c that compile and pass the existing tests;
each is run against the checks of its file (asan builds, quick size, first violation wins)."""
import importlib.machinery, importlib.util, json, os, random, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
rx = sys.argv[4] if len(sys.argv) > 4 else "."
W = int(os.environ.get('MUT_W', '8'))
EXTRA = {"nav_meas.c": ["C43", "C44", "C45"], "signal.c": ["C09", "C12", "C33", "C25"], "almanac.c": ["C15"], "bits.c": ["C25", "C22", "C23", "C24", "C28"],
         "coord_system.c": ["C43"], "linear_algebra.c": ["C43"], "gnss_time.c": ["C25", "C26", "C28"], "ephemeris.c": [], "glo_map.c": ["C10"],
         "single_epoch_solver.c": ["C51"], "sid_set.c": ["C45"]}
ORDERLAST = ["C51", "C50", "C46"]
spec = importlib.util.spec_from_loader("chk", importlib.machinery.SourceFileLoader("chk", V + "/bin/check"))
chk = importlib.util.module_from_spec(spec)
spec.loader.exec_module(chk)
b = chk.Builder()
PM = {}
for l in open(V + "/properties.jsonl"):
    q = json.loads(l)
    for f in q["anchors"]["files"]:
        PM.setdefault(os.path.basename(f), []).append(q["id"])
for f, x in EXTRA.items():
    PM[f] = PM.get(f, []) + [i for i in x if i not in PM.get(f, [])]
for f in PM:
    PM[f] = [i for i in PM[f] if i not in ORDERLAST and i != "C50"] + [i for i in PM[f] if i in ORDERLAST and i not in ("C50",)]


def strip(line):
    return re.sub(r'"(\\.|[^"])*"', lambda m: '"' + " " * (len(m.group(0)) - 2) + '"', line)


def candidates(path):
    src = open(path).read().split("\n")
    res, incomment, incall, depth = [], False, False, 0
    for i, l in enumerate(src):
        s = strip(l)
        t = s.strip()
        if incomment:
            if "*/" in t:
                incomment = False
            continue
        if t.startswith("/*"):
            if "*/" not in t:
                incomment = True
            continue
        if t.startswith("//") or t.startswith("#") or not t:
            continue
        s = re.sub(r"//.*|/\*.*?\*/", lambda m: " " * len(m.group(0)), s)
        if incall:
            if ";" in s:
                incall = False
            continue
        if re.match(r"\s*(log_\w+|detailed_log\w*|assert|static_assert|ASSERT\w*)\s*\(", s):
            if ";" not in s:
                incall = True
            continue
        res.append((i, l, s))
    return src, res


OPS = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![<>=!\-+*/%&|^])<(?![<=])", ["<="]), (r"(?<![<>=!\-+*/%&|^])>(?![>=])", [">="]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<=[\w)\] ]) ?\+ (?=[\w(])", [" - "]), (r"(?<=[\w)\]]) - (?=[\w(])", [" + "]), (r"(?<=[\w)\]]) \* (?=[\w(])", [" / "]),
       (r"(?<=[\w)\]]) / (?=[\w(])", [" * "]), (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]), (r"\bfabs\b", [""]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\+=", ["-=", "="]),
       (r"-=", ["+="]), (r"<<", [">>"]), (r">>", ["<<"]), (r"(?<=[\w)]) & (?=[\w(])", [" | "]), (r"\bs32\b", ["u32"]), (r"\bs16\b", ["u16"]), (r"\bs8\b", ["u8"]), (r"\bu32\b", ["u16"]), (r"\bu16\b", ["u8"]),
       (r"\bdouble\b", ["float"]), (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"\bMIN\b", ["MAX"]), (r"\bMAX\b", ["MIN"]), (r"(?<=[=(,] )-(?=[\w(])", [""]), (r"!(?=[\w(])", [""]),
       (r"\bint\b", ["u8"]), (r"\[0\]", ["[1]"]), (r"\[1\]", ["[0]", "[2]"]), (r"\[2\]", ["[1]"]), (r"\[i\]", ["[0]"]), (r"\bfloor\b", ["ceil", ""]), (r"\bround\b", ["floor"]), (r"\batan2\b", ["fmod"])]


def mutants(path):
    src, cs = candidates(path)
    res = []
    for i, l, s in cs:
        for pat, reps in OPS:
            for m in re.finditer(pat, s):
                for rep in reps:
                    res.append((i, l[:m.start()] + rep + l[m.end():]))
        for m in re.finditer(r"(?<![\w.])(\d+)([uU]?[lL]{0,2})(?![\w.])", s):
            v = int(m.group(1))
            for d in ([1, -1] if v else [1]):
                res.append((i, l[:m.start()] + str(v + d) + m.group(2) + l[m.end():]))
        for m in re.finditer(r"(?<![\w.])(\d*\.\d+(?:[eE][-+]?\d+)?)", s):
            v = float(m.group(1))
            if v:
                for k in (1 + 1e-4, 1.05):
                    res.append((i, l[:m.start()] + repr(v * k) + l[m.end():]))
        if re.match(r"\s+[\w\->.\[\]*()&]+ [-+*|&^/]?= .*;\s*$", s) or re.match(r"\s+[a-z_]\w*\(.*\);\s*$", s):
            if not re.match(r"\s+(const |static |double |float |[us]\d+ |int |bool |return )", s):
                res.append((i, re.match(r"\s*", l).group(0) + ";"))
        if re.match(r"\s*(\} else )?if \(.*\) \{\s*$", s):
            m = re.search(r"if \((.*)\) \{", s)
            res.append((i, l[:m.start(1)] + "(" + l[m.start(1):m.end(1)] + ") && false" + l[m.end(1):]))
            res.append((i, l[:m.start(1)] + "(" + l[m.start(1):m.end(1)] + ") || true" + l[m.end(1):]))
    return src, [x for x in res if x[1] != src[x[0]]]


files = [f for f in chk.repo_sources() if re.search(rx, f)]
allm, srcs = [], {}
for f in files:
    srcs[f], ms = mutants("/repo/" + f)
    allm += [(f, i, n) for i, n in ms]
rnd = random.Random(seed)
cnt = {}
for f, _, _ in allm:
    cnt[f] = cnt.get(f, 0) + 1
allm.sort(key=lambda x: rnd.random() * cnt[x[0]] ** 0.5)  # small files get more than their share
print(len(allm), "mutants available", flush=True)
# base objects and harnesses
need = sorted({c for f in files for c in PM.get(os.path.basename(f), [])})
exes = {}
hob = {}
objs, jobs = b.lib_jobs("asan")
for j in jobs:
    j.result()
for c in need:
    runs, sh = chk.directives(c)
    v = "asan" if any(r.get("variant", "asan") == "asan" for r in runs) else None
    if not v or sh:
        continue
    hs = [b.cxx(V + "/props/%s.cc" % c, "asan"), b.cxx(V + "/mon/mon.cc", "asan")]
    for _, j in hs:
        j.result()
    hob[c] = [o for o, _ in hs]
print("harnesses ready", flush=True)
os.makedirs(out, exist_ok=True)
lock = threading.Lock()
done = queue.Queue()
state = {"n": 0, "i": 0, "tests": 0, "caught": 0, "surv": 0, "nocomp": 0}
logf = open(os.path.join(out, "log.txt"), "a")


def sh(cmd, t, **k):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, errors="replace", text=True, **k)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def worker(w):
    d = os.path.join(out, "w%d" % w)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    shutil.rmtree(d + "/repo/_build", ignore_errors=True)
    env = dict(os.environ, CC="gcc", CXX="g++", **chk.SAN_ENV)
    sh(["cmake", "-S", "/opt/vp/harness", "-B", d + "/b", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DREPO=" + d + "/repo"], 120, env=env)
    rc, o = sh(["ninja", "-C", d + "/b", "-j2"], 600, env=env)
    assert rc == 0, o[-2000:]
    while True:
        with lock:
            if state["n"] >= N or state["i"] >= len(allm):
                return
            f, i, new = allm[state["i"]]
            state["i"] += 1
        p = d + "/repo/" + f
        orig = "\n".join(srcs[f])
        ls = list(srcs[f])
        old = ls[i]
        ls[i] = new
        open(p, "w").write("\n".join(ls))
        verdict = None
        rc, o = sh(["ninja", "-C", d + "/b", "-j1"], 300, env=env)
        if rc:
            verdict = "nocomp"
        else:
            os.makedirs(d + "/res", exist_ok=True)
            rc, o = sh(["../b/test-swiftnav-common"], 60, env=dict(env, CK_DEFAULT_TIMEOUT="30"), cwd=d + "/res")
            if rc == 0:
                rc, o = sh(["../b/test-swiftnav-pedantic"], 30, env=env, cwd=d + "/res")
            if rc:
                verdict = "tests"
        by, msg = "", ""
        if not verdict:
            verdict = "surv"
            obj = d + "/m.o"
            rc, o = sh(["clang", *chk.COMMON, "-std=gnu99", "-w", *chk.VARIANTS["asan"][0], "-I", d + "/repo/include", "-I", b.dir + "/gen", "-I", d + "/repo/src", "-c", p, "-o", obj], 120)
            if rc:
                verdict = "nocomp"
            else:
                base = os.path.join(b.dir, "asan", f.replace("/", "_") + ".o")
                os_ = [obj if x == base else x for x in objs]
                for c in PM.get(os.path.basename(f), []):
                    if c not in hob:
                        continue
                    exe = d + "/mon"
                    rc, o = sh(["clang++", "-g", "-rdynamic", *chk.VARIANTS["asan"][1], "-o", exe, *hob[c], *os_, "-lm", "-lpthread", "-ldl"], 120)
                    assert rc == 0, o[-3000:]
                    rc, o = sh([exe, "--seed", "1", "--tier", "quick", "--stop", "--cpu", "20", "--status", d + "/st"], 900, env=env)
                    if rc:
                        verdict, by, msg = "caught", c, o.strip()[-300:].replace("\n", " | ")
                        break
        open(p, "w").write(orig)
        with lock:
            state[verdict if verdict != "surv" else "surv"] += 1
            if verdict in ("caught", "surv"):
                state["n"] += 1
            if verdict != "nocomp":
                logf.write("%s %s %s:%d\n  - %s\n  + %s\n%s" % (verdict.upper(), by, f, i + 1, old.strip(), new.strip(), ("  %s\n" % msg) if msg else ""))
                logf.flush()


ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
for t in ts:
    t.start()
for t in ts:
    t.join()
print(json.dumps(state), flush=True)
for w in range(W):
    shutil.rmtree(os.path.join(out, "w%d" % w), ignore_errors=True)
