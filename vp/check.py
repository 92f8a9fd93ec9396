#!/usr/bin/env python3
"""Driver: decide one property by discharging the contracts of its units with CBMC.

usage: check.py PROPERTY [--tier quick|thorough] [--only UNIT] [--keep] [--verbose]

A *unit* is one `@unit` line in /verif/contracts/*.c: a harness translation unit that
textually includes the real source file(s) of /repo, the contract(s) it carries, and
how the verifier is run.  Everything is rebuilt from /repo's working tree in a scratch
directory that is removed afterwards.  See DESIGN.md for the decision rules.
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shlex, shutil, signal
import subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CONTRACTS = os.path.join(VERIF, "contracts")
NATIVE_OK, NATIVE_FAIL, NATIVE_INFEASIBLE = "holds", "fails", "infeasible"
BUDGET = {"quick": 800, "thorough": 850}
JOBS = int(os.environ.get("VP_JOBS", "8"))
os.environ.pop("GREP_OPTIONS", None)
os.environ["LC_ALL"] = "C"


class Unit:
    def __init__(self, path, opts):
        self.path = path
        self.o = opts
        self.name = opts["name"]
        self.props = opts["prop"].split(",")
        self.tier = opts.get("tier", "both")
        self.defs = [d for d in opts.get("def", "").split(",") if d]
        self.enforce = [f for f in opts.get("enforce", "").split(",") if f]
        self.enforcerec = [f for f in opts.get("enforcerec", "").split(",") if f]
        self.replace = [f for f in opts.get("replace", "").split(",") if f]
        self.unwind = int(opts.get("unwind", "20"))
        self.level = opts.get("level", "proof")
        self.timeout = int(opts.get("timeout", "700"))
        self.solver = opts.get("solver", "cadical")
        self.flags = [f for f in opts.get("flags", "").split(",") if f]
        self.bound = opts.get("bound", "").replace("_", " ")
        self.mode = opts.get("mode", "dfcc" if self.enforce or self.enforcerec else "plain")
        self.loops = opts.get("loops")
        self.src = [s for s in opts.get("src", "").split(",") if s]
        self.under = [s for s in opts.get("under", "").split(",") if s] or self.enforce + self.enforcerec
        self.weight = int(opts.get("weight", "1"))
        # stand-in bounds when the contract cannot be attached to the changed tree
        self.fbdef = [d for d in opts.get("fbdef", "").split(",") if d]
        self.fbunwind = int(opts.get("fbunwind", str(self.unwind)))
        self.term = opts.get("term") == "1"     # unwinding failures are termination failures
        self.fbenum = opts.get("fbenum") == "1"
        # configuration constants that a source file defines itself: FILE:MACRO=VALUE;... (only the value is replaced)
        self.edit = [e for e in opts.get("edit", "").split(";") if e]


def load_units():
    units = []
    for p in sorted(glob.glob(os.path.join(CONTRACTS, "*.c"))):
        for line in open(p):
            m = re.match(r"\s*(?://|\*)\s*@unit\s+(.*)", line)
            if m:
                opts = dict(kv.split("=", 1) for kv in shlex.split(m.group(1)))
                units.append(Unit(p, opts))
    names = [u.name for u in units]
    dup = {n for n in names if names.count(n) > 1}
    if dup:
        raise SystemExit("duplicate unit names: %s" % dup)
    return units


def scan_assumptions(path, defs):
    """Mechanical scan: every assumption the harness file (and shared stub files) declares."""
    out, seen, todo = [], set(), [path]
    while todo:
        p = todo.pop()
        if p in seen or not os.path.exists(p):
            continue
        seen.add(p)
        for i, line in enumerate(open(p), 1):
            m = re.search(r"@assume\s+(.*?)(\*/)?\s*$", line)
            if m:
                out.append("%s:%d: %s" % (os.path.basename(p), i, m.group(1).strip()))
            m = re.match(r'\s*#\s*include\s+"(vp[^"]*)"', line)
            if m:
                todo.append(os.path.join(CONTRACTS, m.group(1)))
    return out


_procs = set()
_plock = threading.Lock()


def run(cmd, timeout, cwd=None, env=None):
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         start_new_session=True)
    with _plock:
        _procs.add(p)
    try:
        out, err = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        rc = None
    finally:
        with _plock:
            _procs.discard(p)
    return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), time.time() - t0


class Ctx:
    def __init__(self, scratch, deadline, verbose):
        self.scratch, self.deadline, self.verbose = scratch, deadline, verbose
        self.gen = os.path.join(scratch, "cfg", "generated")

    def left(self):
        return self.deadline - time.time()

    def log(self, *a):
        if self.verbose:
            print("  ..", *a, file=sys.stderr, flush=True)


def configure(ctx):
    """Generate config.h exactly as the project's build does (cmake configure step)."""
    d = os.path.join(ctx.scratch, "cfg")
    rc, out, err, _ = run(["cmake", "-S", REPO, "-B", d, "-DCMAKE_BUILD_TYPE=Debug",
                           "-DBUILD_TESTING=OFF", "-DICBD_ENABLE_SSL=ON", "-DADMIN_PWD=ci_test_pwd"], 120)
    if not os.path.exists(os.path.join(ctx.gen, "config.h")):
        # the build description itself is broken here: instantiate the template directly
        src = open(os.path.join(REPO, "cmake", "config.h.in")).read()
        src = src.replace("@ADMIN_PWD@", "ci_test_pwd").replace("@MAX_USERS@", "255")
        off = ("BRICK", "HAVE_LIBRESOLV", "HAVE_SSL_CTX_SET_CIPHERSUITES")
        src = re.sub(r"#cmakedefine\s+(\w+)(.*)",
                     lambda m: ("/* off */" if m.group(1) in off else "#define %s%s" % m.groups()), src)
        os.makedirs(ctx.gen, exist_ok=True)
        open(os.path.join(ctx.gen, "config.h"), "w").write(src)


def merged_defs(u, fb):
    if not fb:
        return u.defs
    names = {d.split("=")[0] for d in u.fbdef}
    return [d for d in u.defs if d.split("=")[0] not in names] + u.fbdef


def edited(ctx, u):
    """Copies of source files in which a configuration constant has the unit's value (text otherwise identical)."""
    d = os.path.join(ctx.scratch, "edit_" + u.name)
    for e in u.edit:
        f, kv = e.split(":", 1)
        k, v = kv.split("=", 1)
        dst = os.path.join(d, f)
        src = dst if os.path.exists(dst) else os.path.join(REPO, f)
        txt = open(src, encoding="utf-8", errors="surrogateescape").read()
        txt = re.sub(r"(?m)^(\s*#\s*define\s+%s[ \t]+)(?:[^\n/]|/(?![*/]))+" % re.escape(k), lambda m: m.group(1) + v + " ", txt)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(dst, "w", encoding="utf-8", errors="surrogateescape").write(txt)
    return ["-I", d]


def cflags(ctx, u, extra=(), fb=False):
    fl = edited(ctx, u) + ["-I", CONTRACTS, "-I", ctx.gen, "-I", REPO, "-I", os.path.join(REPO, "server"),
          "-I", os.path.join(REPO, "pktserv"), "-DPKTSERV_INTERNAL", "-DVP_REPO=\"%s\"" % REPO]
    for d in merged_defs(u, fb):
        fl.append("-D" + d)
    return fl + list(extra)


CAT = [("unwind", re.compile(r"unwinding assertion|\.unwind\.|recursion")),
       ("reach", re.compile(r"^vp-reach")),
       ("nobody", re.compile(r"^no body for callee")),
       ("loopinv", re.compile(r"loop invariant|decreases clause|loop_(invariant|decreases|step|assigns)|"
                              r"invariant_(base|step)")),
       ("frame", re.compile(r"is assignable|is freeable|assigns|frees clause"))]


def categorise(r):
    d, p = r.get("description", ""), r.get("property", "")
    for c, rx in CAT:
        if rx.search(d) or rx.search(p):
            return c
    return "property"


def parse_results(out):
    try:
        d = json.loads(out)
    except ValueError:
        try:
            d = json.loads(out + "]")
        except ValueError:
            return None, None, out[-2000:]
    res, msgs, status = None, [], None
    for m in d:
        if not isinstance(m, dict):
            continue
        if "result" in m:
            res = m["result"]
        if "cProverStatus" in m:
            status = m["cProverStatus"]
        if m.get("messageType") in ("ERROR", "WARNING"):
            msgs.append(m.get("messageText", ""))
        if m.get("messageType") == "STATUS-MESSAGE":
            t = m.get("messageText", "")
            if t.startswith("Runtime"):
                msgs.append(t)
    return res, status, msgs


def solver_args(s):
    if s == "cvc5":
        return ["--cvc5"]
    if s == "z3":
        return ["--z3"]
    return ["--sat-solver", s]


def build_gb(ctx, u, mode, wd, fb=False):
    """goto-cc the harness (which includes the real source) and instrument the contracts."""
    a, b = os.path.join(wd, "a.gb"), os.path.join(wd, "b.gb")
    extra = ["-DVP_CBMC"] + (["-DVP_PLAIN"] if mode == "plain" else [])
    cmd = ["goto-cc"] + cflags(ctx, u, extra, fb) + ["--function", "harness", u.path] + \
          [os.path.join(REPO, s) for s in u.src] + ["-o", a]
    rc, out, err, dt = run(cmd, min(120, ctx.left()), cwd=wd)
    if rc != 0:
        return None, "goto-cc failed:\n" + " ".join(cmd) + "\n" + (out + err)[-4000:]
    # library functions the verifier has no model of
    rc, out, err, dt = run(["goto-instrument", "--list-undefined-functions", a], min(60, ctx.left()), cwd=wd)
    lib = os.path.join(CONTRACTS, "lib", "libc.c")
    need = set(re.findall(r"VP_NEED_(\w+)", open(lib).read())) & set(out.split())
    if need:
        lo = os.path.join(wd, "lib.gb")
        run(["goto-cc", "-c"] + ["-DVP_NEED_" + f for f in sorted(need)] + [lib, "-o", lo], 60, cwd=wd)
        rc, out, err, dt = run(cmd[:-2] + [lo] + cmd[-2:], min(120, ctx.left()), cwd=wd)
        if rc != 0:
            return None, "goto-cc failed:\n" + (out + err)[-4000:]
    if mode == "plain":
        return a, ""
    # a function that the changed tree no longer defines cannot be put under contract
    cmd = ["goto-instrument", "--dfcc", "harness"]
    for f in u.enforce:
        cmd += ["--enforce-contract", f]
    for f in u.enforcerec:
        cmd += ["--enforce-contract-rec", f]
    for f in u.replace:
        cmd += ["--replace-call-with-contract", f]
    if mode == "loops":
        lf = os.path.join(CONTRACTS, u.loops)
        txt = open(lf).read().replace("@PATH@", u.path).replace("@REPO@", REPO)
        lf2 = os.path.join(wd, "loops.json")
        open(lf2, "w").write(txt)
        cmd += ["--loop-contracts-file", lf2, "--apply-loop-contracts"]
    cmd += [a, b]
    rc, out, err, dt = run(cmd, min(300, ctx.left()), cwd=wd)
    if rc != 0:
        return None, "goto-instrument failed:\n" + " ".join(cmd) + "\n" + (out + err)[-4000:]
    return b, ""


def cbmc(ctx, u, gb, unwind, wd, trace=False, prop=None, timeout=None):
    cmd = ["cbmc", gb, "--json-ui", "--unwind", str(unwind), "--unwinding-assertions"] \
        + ["--object-bits", "12"] + solver_args(u.solver) + u.flags
    cmd += ["--trace"] if trace else ["--slice-formula"]   # slicing would drop inputs from the trace
    if prop:
        cmd += ["--property", prop]
    rc, out, err, dt = run(cmd, min(timeout or u.timeout, ctx.left()), cwd=wd)
    if rc is None:
        return None, "timeout after %.0f s" % dt, dt, " ".join(cmd)
    res, status, msgs = parse_results(out)
    if res is None:
        return None, "cbmc produced no result: %s %s" % (msgs, err[-1500:]), dt, " ".join(cmd)
    return res, msgs, dt, " ".join(cmd)


# ---------------------------------------------------------------- counterexample -> native replay

def c_init(v):
    if v.get("name") == "struct":
        return "{" + ",".join(".%s=%s" % (m["name"], c_init(m["value"])) for m in v["members"]
                              if not m["name"].startswith("$")) + "}"
    if v.get("name") == "array":
        els = v.get("elements", [])
        return "{" + ",".join("[%s]=%s" % (e["index"], c_init(e["value"])) for e in els) + "}"
    b = v.get("binary")
    if b is None:
        d = str(v.get("data", "0"))
        return {"TRUE": "1", "FALSE": "0"}.get(d, d)
    n = int(b, 2)
    t = v.get("type", "")
    if "unsigned" not in t and not t.startswith("_Bool") and b[0] == "1" and len(b) > 1:
        n -= 1 << len(b)
        if n == -(1 << 63):
            return "(-9223372036854775807LL-1)"
    return ("%dULL" % n) if n > 0x7fffffffffffffff else ("%dLL" % n if abs(n) > 0x7fffffff else str(n))


def extract_in(trace):
    val = None
    for s in trace:
        if s.get("stepType") == "assignment" and s.get("lhs") == "IN" and \
                s.get("sourceLocation", {}).get("function") == "harness":
            val = s["value"]
    return val


def native_replay(ctx, u, init, wd, fb=False):
    inc = os.path.join(wd, "vp_replay.inc")
    open(inc, "w").write("static const struct vp_in VP_REPLAY = %s;\n" % init)
    exe = os.path.join(wd, "replay")
    cmd = ["gcc", "-g", "-O0", "-w", "-std=gnu99", "-fsanitize=address,undefined",
           "-fno-sanitize-recover=all", "-fno-strict-aliasing", "-no-pie",
           "-Wl,--unresolved-symbols=ignore-all"] + \
        cflags(ctx, u, ["-DVP_NATIVE", "-I", wd], fb) + [u.path] + \
        [os.path.join(REPO, s) for s in u.src] + ["-o", exe]
    rc, out, err, _ = run(cmd, 120, cwd=wd)
    if rc != 0:
        return None, "native build failed: " + err[-1500:]
    sand = os.path.join(wd, "sand")
    os.makedirs(sand, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=66")
    rc, out, err, _ = run([exe], 30, cwd=sand, env=env)
    txt = (out + err)[-6000:]
    if rc == 0:
        return NATIVE_OK, txt
    if rc == 77:
        return NATIVE_INFEASIBLE, txt
    if rc is None:
        return NATIVE_FAIL, txt + "\n(no termination within 30 s)"
    return NATIVE_FAIL, "exit %s\n%s" % (rc, txt)


def enumerate_native(ctx, u, wd):
    """Last resort where the verifier gives no answer: the harness run natively on every input of its
    declared finite enumeration (VP_ENUM), sanitizers on.  A bounded check, never counted as proved."""
    os.makedirs(wd, exist_ok=True)
    exe = os.path.join(wd, "enum")
    open(os.path.join(wd, "vp_replay.inc"), "w").write("static struct vp_in VP_REPLAY;\n")
    cmd = ["gcc", "-g", "-O1", "-w", "-std=gnu99", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
           "-fno-strict-aliasing", "-no-pie", "-Wl,--unresolved-symbols=ignore-all"] + \
        cflags(ctx, u, ["-DVP_NATIVE", "-DVP_ENUM", "-I", wd], True) + [u.path] + \
        [os.path.join(REPO, s) for s in u.src] + ["-o", exe]
    rc, out, err, dt = run(cmd, min(120, ctx.left()), cwd=wd)
    if rc != 0:
        return {"kind": "build", "detail": "native build failed:\n" + err[-3000:]}
    rc, out, err, dt = run([exe], min(u.timeout, ctx.left()), cwd=wd)
    if rc is None:
        return {"kind": "tool", "detail": "enumeration timed out", "dt": dt, "cmd": exe}
    fails = {}
    txt = (out + err)[-6000:]
    if rc != 0:
        fails["property"] = [{"property": "enumeration", "description": txt.strip().splitlines()[-1] if txt.strip()
                              else "crash", "status": "FAILURE"}]
    return {"kind": "ran", "n": 1, "ok": int(rc == 0), "fails": fails, "reached": 0, "unreached": [], "dt": dt,
            "cmd": " ".join(cmd), "gb": None, "info": [], "mode": "enum", "unwind": 0, "fb": True, "init": "see output",
            "txt": "exit %s\n%s" % (rc, txt)}


# ---------------------------------------------------------------- one unit

def attempt(ctx, u, mode, unwind, wd, fb=False):
    os.makedirs(wd, exist_ok=True)
    gb, err = build_gb(ctx, u, mode, wd, fb)
    if gb is None:
        return {"kind": "build", "detail": err}
    res, info, dt, cmd = cbmc(ctx, u, gb, unwind, wd)
    if res is None:
        return {"kind": "tool", "detail": info, "dt": dt, "cmd": cmd}
    fails = {}
    n = ok = 0
    unreached, reached = [], 0
    for r in res:
        c = categorise(r)
        if c == "reach":
            if r["status"] == "FAILURE":
                reached += 1
            else:
                unreached.append(r)
            continue
        n += 1
        if r["status"] == "SUCCESS":
            ok += 1
        elif r["status"] == "FAILURE":
            fails.setdefault(c, []).append(r)
    return {"kind": "ran", "n": n, "ok": ok, "fails": fails, "reached": reached, "unreached": unreached,
            "dt": dt, "cmd": cmd, "gb": gb, "info": info, "mode": mode, "unwind": unwind, "fb": fb}


def loc(r):
    s = r.get("sourceLocation", {})
    return "%s:%s %s" % (s.get("file", "?"), s.get("line", "?"), s.get("function", ""))


def run_unit(ctx, u):
    wd = os.path.join(ctx.scratch, "u_" + u.name)
    os.makedirs(wd, exist_ok=True)
    t0 = time.time()
    R = {"unit": u, "status": None, "level": u.level, "notes": []}
    modes = [u.mode]
    a = attempt(ctx, u, modes[0], u.unwind, os.path.join(wd, "m0"))
    R["first"] = a

    def only(a, cats):
        return a["kind"] == "ran" and not (set(a["fails"]) - set(cats))

    # 1. contracts could not be attached (renamed/removed function) or the verifier gave no answer:
    #    same obligations, harness form of the contract
    if a["kind"] in ("build", "tool") and u.mode != "plain" and ctx.left() > 30:
        R["notes"].append("contract instrumentation not applicable to this tree (%s); harness form used"
                          % a["detail"].splitlines()[0])
        R["level"] = "bounded"
        if u.fbenum:
            a = enumerate_native(ctx, u, os.path.join(wd, "m1"))
        else:
            a = attempt(ctx, u, "plain", u.fbunwind, os.path.join(wd, "m1"), fb=True)
    # 2. only proof artefacts fail (loop annotations / frame): decide on the property itself
    elif a["kind"] == "ran" and a["fails"] and only(a, ("loopinv", "frame", "unwind")) and u.mode != "plain" \
            and set(a["fails"]) - {"unwind"}:
        R["notes"].append("annotation-only failures (%s); obligations re-decided in harness form"
                          % ", ".join(sorted(a["fails"])))
        if u.fbenum:
            a = enumerate_native(ctx, u, os.path.join(wd, "m1"))
        else:
            a = attempt(ctx, u, "plain", u.fbunwind, os.path.join(wd, "m1"), fb=True)
        R["level"] = "bounded"
    # 3. an unwinding assertion failed: more unwinding, else bounded
    tries = 0
    if u.term and a["kind"] == "ran" and "unwind" in a["fails"]:
        if only(a, ("unwind",)):
            b = attempt(ctx, u, a["mode"], a["unwind"] * 2, os.path.join(wd, "t1"))
            if b["kind"] == "ran":
                a = b
        if "unwind" in a["fails"]:
            a["fails"]["property"] = a["fails"].get("property", []) + a["fails"].pop("unwind")
            R["notes"].append("loop does not terminate within its bound")
    while a["kind"] == "ran" and "unwind" in a["fails"] and only(a, ("unwind",)) and tries < 1 \
            and ctx.left() > 60:
        tries += 1
        b = attempt(ctx, u, a["mode"], a["unwind"] * 2 + 2, os.path.join(wd, "w%d" % tries))
        if b["kind"] != "ran":
            break
        a = b
    if a["kind"] == "ran" and only(a, ("unwind",)) and a["fails"]:
        R["notes"].append("unwinding assertions not discharged: result is bounded by %d iterations" % a["unwind"])
        R["level"] = "bounded"
        a["fails"] = {}
    R["final"] = a
    R["wall"] = time.time() - t0
    if a["kind"] != "ran":
        R["status"] = "error"
        return R
    if a["n"] == 0:
        R["status"] = "error"
        R["notes"].append("no obligations generated")
        return R
    bad = [r for c in ("property", "frame", "loopinv") for r in a["fails"].get(c, [])]
    # a callee the verifier knows nothing about: what follows from its arbitrary result is no finding
    unknown = a["fails"].get("nobody", [])
    if unknown and not bad:
        R["status"] = "error"
        a["detail"] = "calls outside the contracts: " + ", ".join(r["description"] for r in unknown)
        return R
    if not bad and a["mode"] != "enum" and a["ok"] < a["n"] and R["level"] == "proof":
        R["status"] = "error"
        a["detail"] = "%d obligations left undecided by the verifier" % (a["n"] - a["ok"])
        return R
    if not bad and a["unreached"]:
        R["status"] = "vacuous"
        return R
    if not bad:
        R["status"] = "ok"
        return R
    if a["mode"] == "enum":
        R["status"], R["bad"] = "violation", bad
        R["replayed"] = (bad[0], a["init"], a["txt"])
        return R
    # violation: get a counterexample per failing obligation until one replays
    R["status"] = "violation"
    R["bad"] = bad
    R["replayed"] = None
    for r in bad[:6]:
        if ctx.left() < 20:
            break
        res, info, dt, cmd = cbmc(ctx, u, a["gb"], a["unwind"], wd, trace=True, prop=r["property"],
                                  timeout=ctx.left() - 10)
        if res is None:
            continue
        for q in res:
            ctx.log("cex", q["property"], q["status"], len(q.get("trace", [])))
            if q["status"] == "FAILURE" and q.get("trace"):
                v = extract_in(q["trace"])
                if v is None:
                    continue
                init = c_init(v)
                st, txt = native_replay(ctx, u, init, wd, a["fb"])
                ctx.log(u.name, r["property"], "replay:", st)
                R.setdefault("tried", []).append((r["property"], st, init, txt))
                if st == NATIVE_FAIL:
                    R["replayed"] = (r, init, txt)
                    return R
    if u.fbenum and ctx.left() > 20:
        # the verifier's trace gave no input: look for a failing one among the declared enumeration
        e = enumerate_native(ctx, u, os.path.join(wd, "enum"))
        if e["kind"] == "ran" and e["fails"]:
            R["replayed"] = (e["fails"]["property"][0], e["init"], e["txt"])
    if unknown and not R["replayed"]:
        R["status"] = "error"
        a["detail"] = "undecided: calls outside the contracts: " + ", ".join(r["description"] for r in unknown)
    return R


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    A = ap.parse_args()
    tier = A.tier if A.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    units = [u for u in load_units() if A.prop in u.props and
             (u.tier == "both" or u.tier == tier) and (not A.only or re.search(A.only, u.name))]
    if not units:
        print("no units for %s" % A.prop, file=sys.stderr)
        return 2
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % A.prop)
    ctx = Ctx(scratch, t0 + BUDGET[tier], A.verbose)
    results = []
    try:
        configure(ctx)
        units.sort(key=lambda u: -u.weight)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(run_unit, ctx, u) for u in units]
            for f in cf.as_completed(futs):
                R = f.result()
                results.append(R)
                ctx.log(R["unit"].name, R["status"], "%.1fs" % R["wall"], R["notes"],
                        {k: R["final"].get(k) for k in ("n", "ok", "reached")})
                if A.verbose and R["final"]["kind"] != "ran":
                    print(R["final"]["detail"][-3000:], file=sys.stderr)
                if A.verbose and R["status"] in ("violation", "vacuous"):
                    for r in R.get("bad", []) + R["final"]["unreached"]:
                        print("    ", r["property"], r["description"], loc(r), file=sys.stderr)
        return report(A.prop, tier, seed, results, time.time() - t0, ctx)
    finally:
        with _plock:
            for p in list(_procs):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        if A.keep:
            print("scratch kept:", scratch, file=sys.stderr)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def report(prop, tier, seed, results, wall, ctx):
    results.sort(key=lambda r: r["unit"].name)
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    viol, errors = [], []
    units, assumptions, tools = [], [], set()
    tot = disch = 0
    split = {True: 0, False: 0}
    solver_s = 0.0
    level = "proof"
    contracts = set()
    for R in results:
        u, a = R["unit"], R["final"]
        e = {"unit": u.name, "file": os.path.relpath(u.path, VERIF), "status": R["status"],
             "level": R["level"], "wall_s": round(R["wall"], 2), "functions_under_contract": u.under,
             "contract_form": a.get("mode", u.mode), "notes": R["notes"]}
        if u.bound:
            e["bound"] = u.bound
        if a["kind"] == "ran":
            e.update(obligations=a["n"], discharged=a["ok"], reach_goals_reached=a["reached"],
                     unwind=a["unwind"], verifier_s=round(a["dt"], 2), backend=u.solver)
            tot += a["n"]
            disch += a["ok"]
            split[R["level"] == "proof"] += a["ok"]
            solver_s += a["dt"]
        contracts.update(u.under)
        if R["level"] != "proof":
            level = "bounded"
        units.append(e)
        for s in scan_assumptions(u.path, u.defs):
            if s not in assumptions:
                assumptions.append(s)
        if R["status"] == "error":
            errors.append("%s: %s" % (u.name, a.get("detail", R["notes"])))
        if R["status"] == "vacuous":
            viol.append((R, False))
        if R["status"] == "violation":
            viol.append((R, R["replayed"] is not None))
    lines = []
    viol.sort(key=lambda x: not x[1])
    for R, replayed in viol:
        u = R["unit"]
        path = os.path.join(VERIF, "evidence", "replay", "%s_%s.txt" % (prop, u.name))
        with open(path, "w") as f:
            f.write("property %s, unit %s (%s)\n" % (prop, u.name, u.path))
            f.write("verifier: %s\n\n" % R["final"].get("cmd"))
            if R["status"] == "vacuous":
                f.write("Goals that must be reachable under the contract are no longer reachable:\n")
                for r in R["final"]["unreached"]:
                    f.write("  %s  %s  [%s]\n" % (r["property"], r["description"], loc(r)))
            else:
                f.write("Failed obligations:\n")
                for r in R["bad"]:
                    f.write("  %s  %s  [%s]\n" % (r["property"], r["description"], loc(r)))
                if R["replayed"]:
                    r, init, txt = R["replayed"]
                    f.write("\nCounterexample replayed against the real code (gcc, ASan+UBSan), obligation %s:\n"
                            % r["property"])
                    f.write("IN = %s\n\noutput:\n%s\n" % (init, txt))
                else:
                    f.write("\nNo counterexample replayed natively.\n")
                    for p, st, init, txt in R.get("tried", []):
                        f.write("\nobligation %s: native run: %s\nIN = %s\n%s\n" % (p, st, init, txt))
        tail = "" if replayed else " no-failing-input-found"
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, path, tail))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof" if level == "proof" else "other",
        "coverage": {
            "explanation": "contract obligations generated from the current source and decided by CBMC; "
                           "units marked bounded are complete up to their stated bound only and are not counted as proved",
            "discharged_unbounded": split[True], "discharged_within_stated_bound": split[False],
            "obligations": tot, "discharged": disch,
            "checker_cmd": "python3 vp/check.py %s --tier %s" % (prop, tier),
            "trusted_base": ["CBMC 6.11.0 C front end, goto-instrument (DFCC code contracts) and symbolic execution",
                             "CaDiCaL / MiniSat (built into cbmc) as the back end",
                             "CBMC's models of the C library (string.h, stdlib.h, ctype.h)",
                             "gcc + ASan/UBSan for counterexample replay only"],
            "functions_under_contract": sorted(contracts), "solver_s": round(solver_s, 2),
            "units": units, "errors": errors},
        "assumptions": assumptions, "wall_s": round(wall, 2), "violations": len(viol)}
    kf = known_findings(prop)
    ev["coverage"]["known_findings"] = kf
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if lines:
        for l in lines[:5] if len(lines) > 5 else lines:
            print(l)
        return 1
    for e in errors:
        print("ERROR", e[:3000], file=sys.stderr)
    if 2 * len(errors) > len(results):
        return 2
    if errors:
        print("UNDECIDED property=%s: %d of %d units gave no answer (listed in the evidence file)"
              % (prop, len(errors), len(results)))
    print("OK property=%s obligations=%d discharged=%d level=%s wall=%.1fs" % (prop, tot, disch, level, wall))
    return 0


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+(.*)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    return out


if __name__ == "__main__":
    sys.exit(main())
