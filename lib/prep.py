"""Mechanical preparation of the verified text from /repo's current source.

Every C file and header of the repository root is copied verbatim; the only edits ever made are
  * insertion of loop contracts (text from the target file) right before a loop's body, on the same line;
  * renaming of the *definition* of a function X to X__real, so that calls to X inside the same file go to
    the contract stub the target provides (used for modular reasoning inside one translation unit).
config.h is instantiated from config.h.in; scriptx.h is generated from scriptx.leg by leg(1), as the build does.
"""
import json, os, re, shutil, subprocess, hashlib

CFLAGS = ["-std=gnu99", "-D_XOPEN_SOURCE=700", "-D_POSIX_C_SOURCE=200809L", "-D_DEFAULT_SOURCE"]


class AttachError(Exception):
    """A contract could not be attached to the current source (function or loop gone, or rewritten)."""


def copy_sources(repo, out):
    os.makedirs(out, exist_ok=True)
    for f in sorted(os.listdir(repo)):
        if f.endswith((".c", ".h")) and os.path.isfile(os.path.join(repo, f)):
            shutil.copyfile(os.path.join(repo, f), os.path.join(out, f))
    cfg = os.path.join(repo, "config.h.in")
    txt = open(cfg).read() if os.path.exists(cfg) else ""
    txt = re.sub(r'(?m)^//autarkdef\s+(\w+)\s+"\s*$', r'#define \1 "vf"', txt)
    txt = re.sub(r'(?m)^//autarkdef\s+(\w+)(.*)$', r'#define \1 1', txt)
    open(os.path.join(out, "config.h"), "w").write(txt)
    leg = os.path.join(repo, "scriptx.leg")
    if os.path.exists(leg):
        r = subprocess.run(["leg", "-o", os.path.join(out, "scriptx.h"), leg], capture_output=True, text=True)
        if r.returncode:
            raise AttachError("leg failed: " + r.stderr[:200])


def _tu_for(out, fname):
    if fname.endswith(".c"):
        return fname
    c = fname[:-2] + ".c"
    if os.path.exists(os.path.join(out, c)):
        return c
    for f in sorted(os.listdir(out)):
        if f.endswith(".c") and ('"%s"' % fname) in open(os.path.join(out, f), errors="replace").read():
            return f
    raise AttachError("no translation unit includes " + fname)


def _ast_function(out, fname, func):
    tu = _tu_for(out, fname)
    r = subprocess.run(["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-Xclang",
                        "-ast-dump-filter=" + func] + CFLAGS + ["-I", out, os.path.join(out, tu)],
                       capture_output=True, text=True)
    if r.returncode:
        raise AttachError("clang cannot parse %s: %s" % (tu, r.stderr[:300]))
    src = open(os.path.join(out, fname), errors="replace").read()
    dec, s, i = json.JSONDecoder(), r.stdout, 0
    while True:
        j = s.find("{", i)
        if j < 0:
            break
        obj, i = dec.raw_decode(s, j)
        if obj.get("kind") == "FunctionDecl" and obj.get("name") == func and \
           any(x.get("kind") == "CompoundStmt" for x in obj.get("inner", [])):
            off = _off(obj["loc"])
            if src[off:off + len(func)] == func:
                return obj, src
    raise AttachError("function %s not found in %s" % (func, fname))


def _off(loc):
    if "offset" in loc:
        return loc["offset"]
    for k in ("expansionLoc", "spellingLoc"):
        if k in loc:
            return loc[k]["offset"]
    raise AttachError("no source offset")


def _end(rng):
    e = rng["end"]
    if "offset" not in e:
        e = e.get("expansionLoc", e.get("spellingLoc"))
    return e["offset"] + e["tokLen"]


LOOPS = ("ForStmt", "WhileStmt", "DoStmt")


def _loops(node, acc):
    if isinstance(node, dict):
        if node.get("kind") in LOOPS and "offset" in node["range"]["begin"]:   # not from a macro
            acc.append(node)
        for c in node.get("inner", []):
            _loops(c, acc)
    return acc


def _norm(txt):
    txt = re.sub(r"/\*.*?\*/", " ", txt, flags=re.S)
    txt = re.sub(r"//[^\n]*", " ", txt)
    return " ".join(re.findall(r"\w+|[^\w\s]", txt))


def edits_for(out, loops, renames):
    """Returns ({file: [(offset, end, text)]}, {loopkey: hash})."""
    ed, hashes, cache = {}, {}, {}

    def fn(f, g):
        if (f, g) not in cache:
            cache[(f, g)] = _ast_function(out, f, g)
        return cache[(f, g)]
    for (f, g, idx, text) in loops:
        obj, src = fn(f, g)
        ls = _loops([x for x in obj["inner"] if x.get("kind") == "CompoundStmt"][0], [])
        if idx >= len(ls):
            raise AttachError("%s:%s has %d loops, contract wants #%d" % (f, g, len(ls), idx))
        lp = ls[idx]
        if lp["kind"] == "DoStmt":
            off = _off(lp["range"]["begin"]) + 2
            body_end = _end(lp["range"])
        else:
            body = [x for x in lp["inner"] if x][-1]
            off = _off(body["range"]["begin"])
            body_end = _end(body["range"])
        hashes["%s:%s:%d" % (f, g, idx)] = hashlib.sha256(
            _norm(src[_off(lp["range"]["begin"]):body_end]).encode()).hexdigest()[:16]
        ed.setdefault(f, []).append((off, off, " " + " ".join(text.split()) + " "))
    for (f, g) in renames:
        obj, src = fn(f, g)
        off = _off(obj["loc"])
        ed.setdefault(f, []).append((off, off + len(g), g + "__real"))
    return ed, hashes


def apply_edits(out, ed):
    for f, lst in ed.items():
        p = os.path.join(out, f)
        s = open(p, errors="replace").read()
        for (a, b, t) in sorted(lst, key=lambda x: -x[0]):
            s = s[:a] + t + s[b:]
        open(p, "w").write(s)
