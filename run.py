#!/usr/bin/env python3
"""Runner: decides properties by discharging contract obligations generated from /repo's current source.

  run.py check <PROP> [--tier quick|thorough]
  run.py entry <target> <entry> [--proof|--bounded]   (development)
  run.py replay <replay.json>
  run.py baseline                                     (records the loop fingerprints of the current tree)
"""
import concurrent.futures as cf, json, os, re, resource, shlex, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import prep
from prep import AttachError

REPO = os.environ.get("VF_REPO", "/repo")
TDIR = os.path.join(HERE, "targets")
BASELINE = os.path.join(TDIR, "baseline.json")
WORK = os.environ.get("VF_WORK", os.path.join(HERE, ".build"))
MEM = 10 << 30
JOBS = int(os.environ.get("VF_JOBS", "8"))


class Target:
    def __init__(self, path):
        self.name = os.path.basename(path)[:-2]
        self.path = path
        self.entries, self.loops, self.renames, self.assume, self.extern = {}, [], [], [], []
        cur = None
        for line in open(path):
            m = re.match(r"//@\s?(.*)$", line.rstrip("\n"))
            if not m:
                cur = None if not line.startswith("//") else cur
                continue
            t = m.group(1)
            k = re.match(r"(entry|loop|rename|assume):\s*(.*)$", t)
            if k:
                cur = None
                if k.group(1) == "entry":
                    w = shlex.split(k.group(2))
                    e = {"name": w[0]}
                    for x in w[1:]:
                        a, _, b = x.partition("=")
                        e[a] = b if _ else True
                    self.entries[w[0]] = e
                elif k.group(1) == "loop":
                    w = k.group(2).split()
                    cur = [w[0], w[1], int(w[2]), w[3:], ""]
                    self.loops.append(cur)
                elif k.group(1) == "rename":
                    w = k.group(2).split()
                    for x in w[1:]:
                        self.renames.append((w[0], x))
                else:
                    self.assume.append(k.group(2))
            elif cur is not None:
                cur[4] += " " + t

    def props(self, e):
        return e.get("props", "").split(",")

    def loops_for(self, e):
        return [(l[0], l[1], l[2], l[4]) for l in self.loops if not l[3] or e["name"] in l[3]]


def load_targets():
    return [Target(os.path.join(TDIR, f)) for f in sorted(os.listdir(TDIR)) if f.endswith(".c")]


def sh(cmd, timeout, cwd=None, env=None, mem=MEM):
    def lim():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=lim)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace"), time.time() - t0
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return -999, "", "timeout", time.time() - t0


class Result:
    def __init__(self):
        self.status = None      # proved | failed | bounded-ok | attach | timeout | tool
        self.detail = ""
        self.failed = []        # [(property, description, location)]
        self.total = 0
        self.ok = 0
        self.named = []
        self.solver_s = 0.0
        self.wall = 0.0
        self.cmd = ""
        self.hashes = {}
        self.output = ""


def _prepare(t, e, wd, with_loops, with_stubs=True):
    src = os.path.join(wd, "src")
    prep.copy_sources(REPO, src)
    loops = t.loops_for(e) if with_loops else []
    ren = [tuple(x.split(":")) for x in e.get("rename", "").split(",") if x and with_stubs]
    ed, hashes = prep.edits_for(src, loops, t.renames + ren)
    prep.apply_edits(src, ed)
    return src, hashes


def _defs(e, mode, tier):
    d = ["-DVF_CBMC", "-DVF_" + mode]
    key = None if mode == "PROOF" else "N"
    if key:
        n = e.get("NT", e.get("N", "4")) if tier == "thorough" else e.get("N", "4")
        d.append("-DVF_N=" + n)
    for x in e.get("rename", "").split(","):
        if x and mode != "REPLAY":
            d.append("-DVF_REN_" + x.split(":")[1])
    for x in e.get("defs", "").split(","):
        if x:
            d.append("-D" + x)
    return d


TOOLISH = re.compile(r"undefined function|no body|unwinding assertion|recursion unwinding|"
                     r"assertion false$|unsupported|Undefined function", re.I)
INVISH = re.compile(r"loop invariant|loop_invariant|loop assigns|decreases|is assignable|assigns clause|"
                    r"step_case|base_case|Check that .* is allowed", re.I)


def _parse(out, r):
    """Text output of cbmc (no traces): one line per obligation."""
    for k in re.findall(r"Runtime Solver: ([\d.e+-]+)s", out):
        r.solver_s += float(k)
    if not re.search(r"^VERIFICATION (SUCCESSFUL|FAILED)", out, re.M):
        r.status, r.detail = "tool", "cbmc gave no verdict: " + out[-400:]
        return None
    res, ffile, func = [], "?", ""
    for line in out.splitlines():
        m = re.match(r"\[(.+?)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", line)
        if m:
            res.append({"property": m.group(1), "description": m.group(3), "status": m.group(4),
                        "sourceLocation": {"file": ffile, "function": func, "line": m.group(2) or "?"}})
            continue
        m = re.match(r"(\S+) function (\S+)$", line)
        if m:
            ffile, func = m.group(1), m.group(2)
    return res


def _classify(res, r):
    reach_bad = []
    for p in sorted(res, key=lambda q: q.get("status") == "UNKNOWN"):  # failures first
        d, st = p.get("description", ""), p.get("status")
        loc = p.get("sourceLocation", {})
        locs = "%s:%s %s" % (os.path.basename(loc.get("file", "?")), loc.get("line", "?"), loc.get("function", ""))
        if d.startswith("REACH:"):
            if st != "FAILURE":
                reach_bad.append(d)
            continue
        r.total += 1
        if d.startswith("ENSURE:"):
            r.named.append(d)
        if st == "SUCCESS":
            r.ok += 1
        else:
            r.failed.append((p.get("property"), d, locs))
    return reach_bad


def run_proof(t, e, tier, wd, timeout):
    r = Result()
    t0 = time.time()
    os.makedirs(wd, exist_ok=True)
    try:
        src, r.hashes = _prepare(t, e, wd, True)
    except AttachError as x:
        r.status, r.detail = "attach", str(x)
        return r
    a, b = os.path.join(wd, "a.gb"), os.path.join(wd, "b.gb")
    cmd = ["goto-cc"] + prep.CFLAGS + _defs(e, "PROOF", tier) + ["-I", src, "-I", os.path.join(HERE, "lib"), "-w",
           "--function", e.get("fn", e["name"]), t.path, "-o", a]
    rc, o, er, _ = sh(cmd, 120)
    if rc:
        r.status, r.detail = "attach", "goto-cc: " + (o + er)[-800:]
        return r
    if e.get("fpr"):
        fc = ["goto-instrument"]
        for x in e["fpr"].split(","):
            fc += ["--restrict-function-pointer", x]
        rc, o, er, _ = sh(fc + [a, a], 60)
        if rc:
            r.status, r.detail = "attach", "function pointer restriction: " + (o + er)[-300:]
            return r
    gi = ["goto-instrument", "--no-malloc-may-fail", "--dfcc", e.get("fn", e["name"])]
    if e.get("enforce"):
        gi += ["--enforce-contract", e["enforce"]]
    for x in e.get("replace", "").split(","):
        if x:
            gi += ["--replace-call-with-contract", x]
    if t.loops_for(e):
        gi += ["--apply-loop-contracts"]
    gi += [a, b]
    if e.get("nodfcc"):
        gi = ["goto-instrument", "--generate-function-body", "(?!(malloc|free|calloc)$).*", "--generate-function-body-options",
              "assert-false-assume-false", a, b]
    rc, o, er, _ = sh(gi, 180)
    if rc:
        r.status, r.detail = "attach", "goto-instrument: " + " | ".join(x for x in (o + er).splitlines() if not x.startswith(" "))[-800:]
        return r
    cb = ["cbmc", b, "--no-malloc-may-fail", "--verbosity", "8", "--unwinding-assertions", "--unwind", e.get("unwind", "2")]
    if e.get("unwindset"):
        cb += ["--unwindset", e["unwindset"]]
    cb += _cbflags(e, "cbmc")
    cb += _solver(e)
    rc, o, er, _ = sh(cb, timeout)
    r.wall = time.time() - t0
    r.cmd = " ".join(gi[:-2]) + " && " + " ".join(x for x in cb if x != b)
    r.output = o[-20000:]
    if rc == -999:
        r.status, r.detail = "timeout", "cbmc timeout %ds" % timeout
        return r
    res = _parse(o, r)
    if res is None:
        if r.status is None:
            r.status, r.detail = "tool", "cbmc rc=%d %s" % (rc, er[-200:])
        return r
    bad = _classify(res, r)
    if bad:
        r.status, r.detail = "tool", "VACUOUS: unreachable " + ",".join(bad)
    elif not r.total or not (r.named or e.get("enforce")):
        r.status, r.detail = "tool", "VACUOUS: no obligations"
    elif r.failed:
        r.status = "failed"
        if all(TOOLISH.search(d) for (_, d, _) in r.failed):
            r.status, r.detail = "tool", "; ".join(d for (_, d, _) in r.failed[:3])
    else:
        r.status = "proved"
    return r


def _solver(e):
    s = e.get("solver")
    return os.environ["VF_SAT"].split() if os.environ.get("VF_SAT") else ["--" + s] if s else []


def _cbflags(e, key):
    return [x for x in e.get("flags", "").split(",") if x]


def run_bounded(t, e, tier, wd, timeout, trace_of=None):
    """Bounded search with loops unwound, same harness. Returns Result (+ .inputs when a counterexample exists)."""
    r = Result()
    r.inputs = None
    t0 = time.time()
    os.makedirs(wd, exist_ok=True)
    try:
        src, _ = _prepare(t, e, wd, False)
    except AttachError as x:
        r.status, r.detail = "attach", str(x)
        return r
    bunw = e.get("bunwindt", e.get("bunwind", "6")) if tier == "thorough" else e.get("bunwind", "6")
    for phase in (0, 1):
        a, b = os.path.join(wd, "ba%d.gb" % phase), os.path.join(wd, "bb%d.gb" % phase)
        cmd = ["goto-cc"] + prep.CFLAGS + _defs(e, "BOUNDED", tier) + (["-DVF_NOREACH"] if phase else []) + \
              ["-I", src, "-I", os.path.join(HERE, "lib"), "-w", "--function", e.get("fn", e["name"]), t.path, "-o", a]
        rc, o, er, _ = sh(cmd, 120)
        if rc:
            r.status, r.detail = "attach", "goto-cc: " + (o + er)[-800:]
            return r
        rc, o, er, _ = sh(["goto-instrument", "--no-malloc-may-fail", "--add-library", a, a], 120)
        rc, o, er, _ = sh(["goto-instrument", "--generate-function-body", "(?!(malloc|free|calloc)$).*", "--generate-function-body-options",
                           "assert-false-assume-false", a, b], 120)
        if rc:
            r.status, r.detail = "tool", "goto-instrument: " + (o + er)[-400:]
            return r
        cb = ["cbmc", b, "--no-malloc-may-fail", "--no-unwinding-assertions", "--unwind", bunw, "--drop-unused-functions"]
        cb += ["--json-ui"] if phase else ["--slice-formula"]
        if e.get("bunwindset"):
            cb += ["--unwindset", e["bunwindset"]]
        cb += _cbflags(e, "cbmc") + [x for x in e.get("bflags", "").split(",") if x]
        if phase:
            cb += ["--trace"] + (["--property", pick] if pick else ["--stop-on-fail"])
        rc, o, er, _ = sh(cb, timeout)
        r.wall = time.time() - t0
        r.cmd = " ".join(x for x in cb if x != b)
        if rc == -999:
            r.status = r.status if phase else "timeout"
            r.detail = "cbmc timeout"
            return r
        if phase == 0:
            res = _parse(o, r)
            r.output = o[-20000:]
            if res is None:
                r.status = "tool"
                r.detail = r.detail or "cbmc rc=%d %s" % (rc, er[-200:])
                return r
            bad = _classify(res, r)
            real = [f for f in r.failed if not TOOLISH.search(f[1])]
            if not real:
                if bad:
                    r.status, r.detail = "tool", "VACUOUS: unreachable " + ",".join(bad)
                elif r.failed:
                    r.status, r.detail = "tool", "; ".join(d for (_, d, _) in r.failed[:3])
                else:
                    r.status = "bounded-ok"
                return r
            r.status = "failed"
            r.failed = real
            ens = [f for f in real if f[1].startswith("ENSURE:")] or real
            pick = ens[0][0]
        else:
            try:
                js = json.loads(o)
            except ValueError:
                return r
            ins = []
            for it in js:
                for p in it.get("result", []):
                    if p.get("status") == "FAILURE" and p.get("trace"):
                        for s in p["trace"]:
                            if s.get("stepType") == "input":
                                v = s["values"][0]
                                d = v.get("data", "0")
                                ins.append((s["inputID"], _num(v, d)))
                        break
            r.inputs = ins
    return r


def _num(v, d):
    d = str(d)
    if d in ("TRUE", "true"):
        return 1
    if d in ("FALSE", "false"):
        return 0
    b = v.get("binary")
    if b and re.fullmatch(r"[01]+", b):
        n = int(b, 2)
        ty = v.get("type", "")
        if "unsigned" not in ty and ty not in ("_Bool", "__CPROVER_size_t") and b[0] == "1" and len(b) > 1:
            n -= 1 << len(b)
        return n
    m = re.match(r"-?\d+", d)
    return int(m.group(0)) if m else 0


def native_replay(t, e, inputs, wd, repo=None):
    """Compiles the same harness natively against the real code, feeds the counterexample, reports what happened."""
    os.makedirs(wd, exist_ok=True)
    try:
        src, _ = _prepare(t, e, wd, False, False)   # the real callees, no same-file stubs
    except AttachError as x:
        return "replay-build-failed", str(x)
    inp = os.path.join(wd, "inputs.txt")
    with open(inp, "w") as f:
        for (n, v) in inputs:
            if v > (1 << 63) - 1:
                v -= 1 << 64
            f.write("%s %d\n" % (n, v))
    exe = os.path.join(wd, "replay")
    defs = [x for x in _defs(e, "REPLAY", "quick") if x != "-DVF_CBMC"]
    rc, o, er, _ = sh(["gcc", "-g", "-O0", "-w", "-U_FORTIFY_SOURCE", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] + prep.CFLAGS +
                      defs + ["-DVF_ENTRY=" + e.get("fn", e["name"]), "-I", src, "-I", os.path.join(HERE, "lib"),
                       t.path, os.path.join(HERE, "lib", "vf_native.c"), "-Wl,--unresolved-symbols=ignore-all", "-o", exe], 120, mem=0)
    if rc:
        return "replay-build-failed", (o + er)[-600:]
    env = dict(os.environ, VF_INPUTS=inp, ASAN_OPTIONS="detect_leaks=0:exitcode=11:allocator_may_return_null=1",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=11")
    rc, o, er, _ = sh([exe], 60, cwd=wd, env=env, mem=0)
    txt = (o + er)[-1500:]
    if rc == 10:
        return "reproduced", txt
    if rc == 11 or rc < 0 and rc != -999:
        return "reproduced", txt
    return "not-reproduced", "rc=%d %s" % (rc, txt)


_ARCH = [threading.Lock(), None]


def _archive():
    """All of the program's object files except main.o, built once per run with the sanitizers; a target's own definitions win."""
    with _ARCH[0]:
        if _ARCH[1]:
            return _ARCH[1]
        d = tempfile.mkdtemp(prefix="lib_", dir=WORK)
        src = os.path.join(d, "src")
        prep.copy_sources(REPO, src)
        cs = [f for f in sorted(os.listdir(src)) if f.endswith(".c") and f != "main.c"]

        def one(f):
            return f, sh(["gcc", "-c", "-g", "-O1", "-w", "-U_FORTIFY_SOURCE", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] +
                         prep.CFLAGS + ["-I", src, os.path.join(src, f), "-o", os.path.join(d, f[:-2] + ".o")], 120, mem=0)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for f, (rc, o, er, _) in ex.map(one, cs):
                if rc:
                    raise AttachError("gcc %s: %s" % (f, er[-400:]))
        a = os.path.join(d, "libvf.a")
        sh(["ar", "crs", a] + [os.path.join(d, f[:-2] + ".o") for f in cs], 60, mem=0)
        _ARCH[1] = a
        return a


def run_native(t, e, tier, wd, limit):
    """Bounded enumeration of every choice of the harness, run natively under ASan/UBSan."""
    r = Result()
    r.inputs = None
    fn = e["native"] if isinstance(e.get("native"), str) else e.get("fn", e["name"])
    t0 = time.time()
    os.makedirs(wd, exist_ok=True)
    try:
        src, _ = _prepare(t, e, wd, False, False)
    except AttachError as x:
        r.status, r.detail = "attach", str(x)
        return r
    exe = os.path.join(wd, "enum")
    defs = [x for x in _defs(e, "REPLAY", tier) if x != "-DVF_CBMC"] + ["-DVF_ENUM"]
    libs = [x for x in e.get("link", "").split(",") if x and x != "*"]
    if e.get("forked"):
        defs.append("-DVF_FORKED=" + ("1" if e["forked"] is True else e["forked"]))
    arch = []
    if e.get("link") == "*":
        try:
            arch = [_archive(), "-Wl,--allow-multiple-definition"]
        except AttachError as x:
            r.status, r.detail = "attach", str(x)
            return r
    cmd = ["gcc", "-g", "-O1", "-w", "-U_FORTIFY_SOURCE", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] + prep.CFLAGS + \
          defs + ["-DVF_ENTRY=" + fn, "-I", src, "-I", os.path.join(HERE, "lib"), t.path,
                  os.path.join(HERE, "lib", "vf_enum.c"), "-Wl,--unresolved-symbols=ignore-all", "-o", exe] + \
          [os.path.join(src, x) for x in libs] + arch
    rc, o, er, _ = sh(cmd, 120, mem=0)
    if rc:
        r.status, r.detail = "attach", "gcc: " + (o + er)[-800:]
        return r
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=11:allocator_may_return_null=1:quarantine_size_mb=16",
               UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1")
    scratch = os.path.join(wd, "scratch")
    os.makedirs(scratch, exist_ok=True)
    rc, o, er, _ = sh([exe, str(limit), str(e.get("workers", "8" if e.get("forked") else "1"))], limit + 60, cwd=scratch, env=env, mem=0)
    r.wall = time.time() - t0
    r.output = (o + er)[:3000] + (o + er)[-1000:]
    r.cmd = "gcc -fsanitize=address,undefined harness + lib/vf_enum.c (exhaustive enumeration of the bounded choices)"
    m = re.search(r"^ENUM-OK runs=(\d+) complete=(\d+) exhaustive=(\d)", o, re.M)
    if rc == 0 and m:
        r.total = r.ok = int(m.group(2))
        r.named = ["ENSURE:" + x for x in re.findall(r'ENSURE\("([^"]+)"', _fn_text(t, fn))]
        r.detail = "runs=%s complete=%s exhaustive=%s" % m.groups()
        if r.total == 0:
            r.status, r.detail = "tool", "VACUOUS: no complete run"
        elif m.group(3) != "1" and not e.get("partial"):
            r.status = "bounded-ok"
            r.detail += " (time limit)"
        else:
            r.status = "bounded-ok"
        return r
    m = re.search(r"^ENUM-VIOLATED (.*)$", o, re.M)
    if m:
        r.status = "failed"
        r.failed = [("native", "ENSURE:" + m.group(1), t.name + ":" + e["name"])]
        r.inputs = [(a, int(b)) for a, b in re.findall(r"^CHOICE (\S+) (-?\d+)$", o, re.M)]
        return r
    if rc in (10, 11):
        r.status, r.failed, r.inputs = "failed", [("native", "ENSURE:memory-safety", t.name + ":" + e["name"])], []
        return r
    r.status, r.detail = "tool", "native run rc=%d %s" % (rc, r.output[-300:])
    return r


def _fn_text(t, fn):
    s = open(t.path).read()
    m = re.search(r"^void %s\(void\) \{.*?^\}" % re.escape(fn), s, re.S | re.M)
    return m.group(0) if m else ""


def decide_entry(t, e, tier, base):
    """Returns dict with outcome in ok | violation | undecided."""
    os.makedirs(WORK, exist_ok=True)
    wd = tempfile.mkdtemp(prefix="%s_%s_" % (t.name, e["name"]), dir=WORK)
    d = {"target": t.name, "entry": e["name"], "functions": e.get("functions", "").split(","), "mode": e.get("mode", "proof")}
    t0 = time.time()
    tp = int(e.get("timeout", "200")) * (3 if tier == "thorough" else 1)
    tb = int(e.get("btimeout", "200")) * (4 if tier == "thorough" else 1)
    try:
        pr = None
        if d["mode"] == "proof":
            pr = run_proof(t, e, tier, os.path.join(wd, "p"), tp)
            d["proof"] = _summ(pr)
            if pr.status == "proved":
                d["outcome"], d["strength"] = "ok", "proved"
                return d
        if d["mode"] == "native" or pr is not None and e.get("native"):
            br = run_native(t, e, tier, os.path.join(wd, "n"), int(e.get("nlimit", "40")) * (6 if tier == "thorough" else 1))
        else:
            br = run_bounded(t, e, tier, os.path.join(wd, "b"), tb)
        d["bounded"] = _summ(br)
        d["bounded"]["bound"] = "N=%s unwind=%s" % (
            e.get("NT", e.get("N", "4")) if tier == "thorough" else e.get("N", "4"),
            e.get("bunwindt", e.get("bunwind", "6")) if tier == "thorough" else e.get("bunwind", "6"))
        if br.status == "failed":
            d["obligation"] = br.failed[0][1] if not [f for f in br.failed if f[1].startswith("ENSURE:")] else \
                [f for f in br.failed if f[1].startswith("ENSURE:")][0][1]
            d["failed"] = br.failed[:10]
            d["outcome"] = "violation"
            d["inputs"] = br.inputs
            if br.failed[0][0] == "native":
                d["replay_status"], d["replay_output"] = "reproduced", br.output
                return d
            if br.inputs is not None:
                st, txt = native_replay(t, e, br.inputs, os.path.join(wd, "r"))
                d["replay_status"], d["replay_output"] = st, txt
            else:
                d["replay_status"], d["replay_output"] = "no-trace", ""
            return d
        if pr is not None and pr.status == "failed":
            changed = [k for k, h in pr.hashes.items() if base.get(k) != h]
            real = [f for f in pr.failed if not TOOLISH.search(f[1])]
            inv = [f for f in real if INVISH.search(f[1])]
            if real and not (changed and inv):
                d["outcome"] = "violation"
                d["obligation"] = real[0][1]
                d["failed"] = real[:10]
                d["replay_status"], d["replay_output"] = "no-failing-input", pr.output[-4000:]
                return d
            d["note"] = "loop contracts do not fit rewritten loops %s: undecided by proof, bounded search found nothing" % changed
        d["outcome"] = "ok" if br.status == "bounded-ok" else "undecided"
        d["strength"] = "bounded" if br.status == "bounded-ok" else "none"
        return d
    finally:
        d["wall"] = round(time.time() - t0, 2)
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)


def _summ(r):
    return {"status": r.status, "detail": r.detail[:600], "obligations": r.total, "discharged": r.ok,
            "named": sorted(set(r.named)), "solver_s": round(r.solver_s, 3), "wall_s": round(r.wall, 2), "cmd": r.cmd,
            "failed": r.failed[:10]}


def cmd_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    base = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}
    work = []
    for t in load_targets():
        for e in t.entries.values():
            if prop in t.props(e) and (tier == "thorough" or not e.get("thoroughonly")):
                work.append((t, e))
    if not work:
        print("no targets for", prop)
        return 2
    work.sort(key=lambda te: -float(te[1].get("cost", "1")))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda te: (te, decide_entry(te[0], te[1], tier, base)), work))
    viol, known, und = [], [], []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for (t, e), d in res:
        print("%-10s %-9s %s.%s  %.1fs %s" % (d["outcome"], d.get("strength", ""), d["target"], d["entry"], d["wall"],
                                              d.get("note", "")))
        for k in ("proof", "bounded"):
            if k in d and d[k]["status"] not in ("proved", "bounded-ok"):
                print("    %s: %s %s" % (k, d[k]["status"], d[k]["detail"][:300].replace("\n", " ")))
                for f in d[k]["failed"][:6]:
                    print("      - %s [%s]" % (f[1], f[2]))
        if d["outcome"] == "violation":
            if e.get("known"):
                known.append((d, e["known"]))
                continue
            rp = os.path.join("replays", "%s_%s_%s.json" % (prop, d["target"], d["entry"]))
            json.dump({k: d.get(k) for k in ("target", "entry", "functions", "obligation", "failed", "inputs",
                                             "replay_status", "replay_output")} |
                      {"property": prop, "verifier_output": d.get("proof", d.get("bounded", {}))},
                      open(os.path.join(HERE, rp), "w"), indent=1)
            viol.append((d, rp))
        elif d["outcome"] == "undecided":
            und.append(d)
    for d, txt in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, txt.replace("_", " ")))
    for d, rp in viol:
        print("  obligation %s of %s.%s violated; replay on the real code: %s" % (
            d["obligation"], d["target"], d["entry"], d["replay_status"]))
    write_evidence(prop, tier, seed, res, viol, known, und, time.time() - t0)
    if viol:
        # A replayed counterexample is reported in preference to a bare failed obligation.
        viol.sort(key=lambda x: x[0]["replay_status"] != "reproduced")
        for d, rp in viol[:1]:
            tail = "" if d["replay_status"] == "reproduced" else " no-failing-input-found"
            print("VIOLATION property=%s replay=%s%s" % (prop, rp, tail))
        return 1
    return 0


def write_evidence(prop, tier, seed, res, viol, known, und, wall):
    man = json.load(open(os.path.join(HERE, "MANIFEST.json"))) if os.path.exists(os.path.join(HERE, "MANIFEST.json")) else {"checks": []}
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "proof")
    ob = dis = 0
    bob = 0
    funcs_p, funcs_b, ass, cmds, per = set(), set(), set(), [], []
    solver = 0.0
    for (t, e), d in res:
        for a in t.assume:
            ass.add(a)
        if "proof" in d:
            ob += d["proof"]["obligations"]
            dis += d["proof"]["discharged"]
            solver += d["proof"]["solver_s"]
            if d["proof"]["cmd"] and len(cmds) < 1:
                cmds.append(d["proof"]["cmd"])
        if "bounded" in d and d.get("strength") != "proved":
            bob += d["bounded"]["obligations"]
            solver += d["bounded"]["solver_s"]
        (funcs_p if d.get("strength") == "proved" else funcs_b).update(d["functions"])
        per.append({"target": d["target"], "entry": d["entry"], "functions": d["functions"], "outcome": d["outcome"],
                    "strength": d.get("strength", "none"), "wall_s": d["wall"],
                    "named_obligations": d.get("proof", d.get("bounded", {})).get("named", []),
                    "obligations": d.get("proof", d.get("bounded", {})).get("obligations", 0),
                    "discharged": d.get("proof", d.get("bounded", {})).get("discharged", 0),
                    "bound": d.get("bounded", {}).get("bound") if d.get("strength") != "proved" else None,
                    "note": d.get("note", "")})
    cov = {
        "obligations": ob, "discharged": dis,
        "checker_cmd": cmds[0] if cmds else "cbmc (bounded only)",
        "back_end": "CBMC 6.11 (MiniSat2 SAT; SMT back end cvc5 1.1.2 where a target names it), goto-instrument --dfcc contracts instrumentation",
        "trusted_base": ["CBMC 6.11.0 (goto-cc, goto-instrument --dfcc, cbmc, SAT back end)",
                         "clang 18 AST offsets used to place loop contracts", "lib/prep.py, run.py"],
        "solver_s": round(solver, 2),
        "functions_under_contract_proved": sorted(x for x in funcs_p if x),
        "functions_bounded_only": sorted(x for x in funcs_b - funcs_p if x),
        "bounded_checks_evaluated": bob,
        "targets": per,
        "explanation": "Each target is a Hoare triple over the real source text of /repo (copied, loop contracts inserted "
                       "mechanically); 'proved' targets discharge every obligation for all inputs and all iterations, "
                       "'bounded' ones are exhaustive only up to the stated bound and are not counted as proved.",
        "evaluations": len(per) + sum(d["bounded"]["obligations"] for _, d in res if d["mode"] == "native" and "bounded" in d), "distinct_nontrivial": len([p for p in per if p["named_obligations"]]),
        "rule": "one case per target entry; non-trivial when it has named postcondition obligations and every REACH cover behind its precondition was reached",
        "bounded_runs_native": sum(d["bounded"]["obligations"] for _, d in res if d["mode"] == "native" and "bounded" in d),
        "samples": [p["target"] + "." + p["entry"] for p in per][:6],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": sorted(ass),
          "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if a[0] == "check":
        try:
            sys.exit(cmd_check(a[1], tier))
        finally:
            if _ARCH[1]:
                shutil.rmtree(os.path.dirname(_ARCH[1]), ignore_errors=True)
            try:
                os.rmdir(WORK)
            except OSError:
                pass
    if a[0] == "baseline":
        b = {}
        for t in load_targets():
            wd = tempfile.mkdtemp(dir=os.path.dirname(WORK))
            try:
                prep.copy_sources(REPO, wd)
                _, h = prep.edits_for(wd, [(l[0], l[1], l[2], l[4]) for l in t.loops], [])
                b.update(h)
            finally:
                shutil.rmtree(wd)
        json.dump(b, open(BASELINE, "w"), indent=1, sort_keys=True)
        return
    if a[0] == "selftest":
        for x in ("goto-cc", "goto-instrument", "cbmc", "clang", "gcc", "leg"):
            if not shutil.which(x):
                print("missing tool", x)
                sys.exit(1)
        n = sum(len(t.entries) for t in load_targets())
        print("targets ok, %d entries" % n)
        return
    if a[0] == "entry":
        t = Target(os.path.join(TDIR, a[1] + ".c"))
        base = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}
        base_ = base
        names = [a[2]] if len(a) > 2 and not a[2].startswith("--") else list(t.entries)
        def one(n):
            import io
            f_ = io.StringIO()
            e = dict(t.entries[n])
            if os.environ.get("VF_TO"):
                e["timeout"] = e["btimeout"] = os.environ["VF_TO"]
            os.makedirs(WORK, exist_ok=True)
            wd = tempfile.mkdtemp(dir=WORK)
            if "--proof" in a or "--bounded" in a:
                r = run_proof(t, e, tier, wd, int(e.get("timeout", "200"))) if "--proof" in a else \
                    run_bounded(t, e, tier, wd, int(e.get("btimeout", "200")))
                print(n, r.status, r.detail[:900], "obl=%d ok=%d solver=%.1f wall=%.1f" % (r.total, r.ok, r.solver_s, r.wall), file=f_)
                for f in r.failed[:20]:
                    print("   ", f, file=f_)
                if getattr(r, "inputs", None):
                    print("   inputs", r.inputs, file=f_)
            else:
                d = decide_entry(t, e, tier, base)
                print(n, d["outcome"], d.get("strength"), d.get("obligation"), d.get("replay_status"), d.get("note", ""), "%.1fs" % d["wall"], file=f_)
                for k in ("proof", "bounded"):
                    if k in d:
                        print("   ", k, d[k]["status"], d[k]["detail"][:900], d[k]["obligations"], d[k]["wall_s"], d[k]["failed"][:8], file=f_)
                if d.get("inputs"):
                    print("   inputs", d["inputs"][:60], file=f_)
                    print("   ", d["replay_output"][-600:], file=f_)
            if not os.environ.get("VF_KEEP"):
                shutil.rmtree(wd, ignore_errors=True)
            else:
                print(wd, file=f_)
            print(f_.getvalue(), end="", flush=True)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, names))
        if _ARCH[1]:
            shutil.rmtree(os.path.dirname(_ARCH[1]), ignore_errors=True)
        return
    if a[0] == "replay":
        j = json.load(open(a[1]))
        t = Target(os.path.join(TDIR, j["target"] + ".c"))
        wd = tempfile.mkdtemp()
        if j.get("inputs") is None:
            print("no failing input recorded; failed obligation:", j["obligation"])
            return
        print(*native_replay(t, t.entries[j["entry"]], [tuple(x) for x in j["inputs"]], wd), sep="\n")
        shutil.rmtree(wd)


if __name__ == "__main__":
    main()
