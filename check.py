#!/usr/bin/env python3
"""Driver: decide one property by discharging its contracts on /repo's sources.

  check.py ID [--unit U] [--keep] [--tier quick|thorough] [-v]

exit 0  every obligation generated from /repo's current source is discharged
exit 1  an obligation fails: VIOLATION line (with a replayed counterexample, or
        no-failing-input-found)
exit 2  no answer (build error, timeout, vacuous harness, ...)
"""
import threading, sys, os, re, json, time, shutil, subprocess, tempfile, argparse, hashlib, glob, resource
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
from units import PROPERTIES  # noqa

CHECK_FLAGS = {
    "bounds": ["--bounds-check", "--pointer-check"],
    "div": ["--div-by-zero-check"],
    "overflow": ["--signed-overflow-check"],
    "shift": ["--undefined-shift-check"],
}

def log(*a):
    if VERBOSE:
        print(*a, file=sys.stderr, flush=True)

VERBOSE = False

class NoAnswer(Exception):
    pass

def run(cmd, timeout=None, mem_gb=None, cwd=None):
    def lim():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=lim, cwd=cwd)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        raise NoAnswer("timeout (%ss): %s" % (timeout, " ".join(cmd)[:300]))
    return p.returncode, out.decode("latin-1"), err.decode("latin-1")

def must(cmd, timeout=300, cwd=None):
    rc, out, err = run(cmd, timeout, cwd=cwd)
    if rc != 0:
        raise NoAnswer("command failed (%d): %s\n%s\n%s" % (rc, " ".join(cmd)[:400], out[-3000:], err[-3000:]))
    return out

class Build:
    """A scratch copy of /repo/src, mechanically adapted for goto-cc, and the
    compiled goto binaries.  The only textual change: a parameter declarator
    `x[static n]` / `x[n]` inside the ABI function-pointer declarations is
    written `x[]` (CBMC's front end rejects a non-constant bound there; an array
    parameter is a pointer either way, C11 6.7.6.3p7)."""
    def __init__(self, scratch, pid=None):
        self.dir = scratch
        self.src = os.path.join(scratch, "src")
        shutil.copytree(os.path.join(REPO, "src"), self.src)
        for root, _, files in os.walk(self.src):
            for f in files:
                p = os.path.join(root, f)
                t = open(p, encoding="latin-1").read()
                n = re.sub(r"\barguments\[(static )?n\]", "arguments[]", t) if "abi" in root else t
                if re.search(r"codegen/rodata\.c|linker/\w+\.c", p):
                    # arrays allocated as `cc_malloc(sizeof *p * n)`: the same block,
                    # with the element type the verifier sees in the size
                    n = n.replace("= cc_malloc(sizeof", "= VP_NEW(sizeof")
                if f == "common.h":
                    # ALLOC(x): a typed copy instead of memcpy into bytes, so that the
                    # verifier keeps the object's fields.  Same value, same effect.
                    n = re.sub(r"(?m)^#define ALLOC\(\.\.\.\)\s*memcpy\(cc_malloc\(sizeof \(__VA_ARGS__\)\), &\(__VA_ARGS__\), sizeof \(__VA_ARGS__\)\)\s*$",
                               "#ifdef VP_CBMC\n#define ALLOC(...) ({ __typeof__(__VA_ARGS__) *vp_p = __CPROVER_allocate(sizeof(__typeof__(__VA_ARGS__)), 0); *vp_p = (__VA_ARGS__); vp_p; })\n"
                               "#else\n#define ALLOC(...) memcpy(cc_malloc(sizeof (__VA_ARGS__)), &(__VA_ARGS__), sizeof (__VA_ARGS__))\n#endif", n)
                    # Growing arrays: a block has room for at least 32 elements (64
                    # for bytes) from the start and keeps its address while the
                    # request fits; larger requests go to the real cc_realloc.
                    # This is what realloc may do (C11 7.22.3.5); the blocks keep
                    # their element type.
                    n = re.sub(r"(?m)^(#define ADD_ELEMENTS?\(.*)cc_realloc\(PTR,", r"\1VP_GROW(PTR,", n)
                    n = n.replace("#define ADD_ELEMENT(", """#ifdef VP_CBMC
#ifndef VP_ELEMS
#define VP_ELEMS 32
#endif
#ifndef VP_BYTES
#define VP_BYTES 64
#endif
#define VP_NEW(N) __CPROVER_allocate((N), 0)
#define VP_NELEM(P) (sizeof *(P) == 1 ? VP_BYTES : VP_ELEMS)
#define VP_GROW(P, N) ((P) ? ((N) <= __CPROVER_OBJECT_SIZE(P) ? (void *)(P) : cc_realloc((P), (N))) \\
	: (N) <= sizeof *(P) * VP_NELEM(P) ? __CPROVER_allocate(sizeof *(P) * VP_NELEM(P), 0) : cc_malloc(N))
#else
#define VP_GROW cc_realloc
#define VP_NEW cc_malloc
#endif
#define ADD_ELEMENT(""", 1)
                if f in ("expression_to_ir.h", "ir.h", "symbols.h", "assembler.h", "declaration.h") or pid == "C25" and f == "calling.h" or pid == "C14" and f == "instructions.h":
                    # the same for the unions of struct evaluated_expression, struct symbol_identifier and
                    # struct node (nested ones stay)
                    n = re.sub(r"(?m)^\tunion \{", "\tstruct {", n)
                if p.endswith("parser/expression.h"):
                    # The anonymous union of struct expr becomes a struct (members
                    # no longer overlap): CBMC does not propagate constants through
                    # unions.  Assumption: no member is read but the one last written.
                    n = re.sub(r"(struct expr \{.*?\} type;\s*)union \{", r"\1struct {", n, count=1, flags=re.S)
                if pid == "C23" and f == "directives.c":
                    # the same for the (signed, unsigned) value of an #if expression,
                    # for the property whose conditions are literals 0 and 1
                    n = re.sub(r"(struct result \{\s*int is_signed;\s*)union \{", r"\1struct {", n)
                if pid in ("C19", "C25") and f == "types.h":
                    # the same for struct type, whose children get a fixed place (MAXCHILD of them)
                    n = re.sub(r"(?m)^\tunion \{", "\tstruct {", n)
                    n = n.replace("struct type *children[];", "struct type *children[%d];" % (8 if pid == "C19" else 24))
                if pid == "C24" and f == "preprocessor.h":
                    # the stand-in for t_peek(0), written in place: the current token
                    n = n.replace("#define T0 (t_peek(0))", "extern struct token vp_cur;\n#define T0 (&vp_cur)")
                if pid == "C19" and f == "types.c":
                    n = re.sub(r"cc_malloc\((sizeof\(\*params\)) \+ [^;]*\);", r"VP_NEW(sizeof(*params));", n)
                    n = n.replace("cc_malloc(hashtable_size * sizeof(*hashtable))", "VP_NEW(1024 * sizeof(*hashtable))")
                if n != t:
                    open(p, "w", encoding="latin-1").write(n)
        shutil.copy(os.path.join(REPO, "config.def.h"), os.path.join(scratch, "config.h"))
        self.code_defs = ["-D" + d for d in PROPERTIES[pid].get("code_defs", [])] if pid else []
        self.need = PROPERTIES[pid].get("need", ()) if pid else "all"
        self.cache = {}
        self.locks = {}
        self.lock = threading.Lock()
        self.text = ""

    def sources(self):
        r = []
        for root, _, files in os.walk(self.src):
            r += [os.path.relpath(os.path.join(root, f), self.src) for f in files if f.endswith(".c")]
        return sorted(x for x in r if x != "main.c")

    def compile_all(self):
        with ThreadPoolExecutor(8) as ex:
            # the back end is left out where no unit needs it (a call into it would
            # be reported as a call without body)
            srcs = [s for s in self.sources() if self.need == "all" or s in self.need or
                    not re.match(r"codegen/(codegen|registers)\.c|assembler/|linker/|optimize/|arguments\.c|ir/export_dot\.c", s)]
            objs = list(ex.map(lambda s: self.obj("cbmc", os.path.join(self.src, s), self.code_defs, s), srcs))
        self.all = os.path.join(self.dir, "all.gb")
        must(["goto-cc"] + objs + ["-o", self.all])

    def code(self, stubs):
        """all of the compiler without the bodies of `stubs`"""
        if not stubs:
            return self.all
        with self.lock:
            lk = self.locks.setdefault(stubs, threading.Lock())
        with lk:
            if stubs not in self.cache:
                out = os.path.join(self.dir, "code_%s.gb" % hashlib.md5(repr(stubs).encode()).hexdigest()[:8])
                cmd = ["goto-instrument"]
                for f in stubs:
                    cmd += ["--remove-function-body", f]
                must(cmd + [self.all, out])
                self.cache[stubs] = out
            return self.cache[stubs]

    def flags(self):
        return ["-I" + self.src, "-I" + self.dir, "-I" + os.path.join(HERE, "lib"),
                '-DCONFIG_PATH="config.h"', "-Dexit=vp_exit", "-Dstrdup=vp_strdup"]

    def obj(self, kind, src, defs, name):
        key = (kind, src, tuple(defs))
        with self.lock:
            lk = self.locks.setdefault(key, threading.Lock())
        with lk:
            return self.obj1(key, kind, src, defs, name)

    def obj1(self, key, kind, src, defs, name):
        if key in self.cache:
            return self.cache[key]
        out = os.path.join(self.dir, "%s_%s_%s.o" % (kind, name.replace("/", "_"),
                           hashlib.md5(repr(key).encode()).hexdigest()[:8]))
        if kind == "cbmc":
            must(["goto-cc", "-DVP_CBMC"] + self.flags() + list(defs) + ["-c", src, "-o", out])
        else:
            must(["gcc", "-w", "-g", "-O0", "-fPIC", "-fsemantic-interposition", "-fno-builtin",
                  "-fsanitize=address"]
                 + self.flags() + list(defs) + ["-c", src, "-o", out])
        self.cache[key] = out
        return out

def harness_objs(b, u, kind):
    defs = ["-D" + d for d in u.get("defs", [])] + ["-DVP_ENTRY=" + u["entry"]]
    objs = [b.obj(kind, os.path.join(HERE, "harness", u["file"]), defs, u["file"]),
            b.obj(kind, os.path.join(HERE, "lib", "vp_rt.c"), ["-DVP_ENTRY=" + u["entry"]] if kind == "gcc" else [], "vp_rt")]
    for extra in u.get("spec", []):
        objs.append(b.obj(kind, os.path.join(HERE, "harness", extra), ["-D" + d for d in u.get("specdefs", [])], extra))
    return objs

def build_unit(b, u):
    """-> path of the goto binary for unit u: every source file of the compiler
    (but main.c), minus the bodies replaced by a callee's contract, plus the
    harness."""
    name = u["name"]
    objs = harness_objs(b, u, "cbmc") + [b.code(tuple(sorted(u.get("stub", []))))]
    gb = os.path.join(b.dir, name + ".gb")
    must(["goto-cc", "--function", u["entry"]] + objs + ["-o", gb + "0"])
    # unreachable functions and the initial values of globals nothing reads
    must(["goto-instrument", "--drop-unused-functions", "--slice-global-inits", gb + "0", gb])
    if u.get("enforce") or u.get("replace") or u.get("loop_contracts"):
        gb2 = gb + "2"
        cmd = ["goto-instrument", "--dfcc", u["entry"]]
        for f in u.get("enforce", []):
            cmd += ["--enforce-contract", f]
        for f in u.get("replace", []):
            cmd += ["--replace-call-with-contract", f]
        if u.get("loop_contracts"):
            cmd += ["--apply-loop-contracts"]
        must(cmd + [gb, gb2])
        gb = gb2
    return gb

def cbmc_cmd(u, gb, extra=()):
    cmd = ["cbmc", gb, "--json-ui", "--no-standard-checks", "--no-malloc-may-fail",
           "--unwinding-assertions", "--verbosity", "8",
           "--drop-unused-functions",
           "--object-bits", str(u.get("object_bits", 10)),
           "--unwind", str(u.get("unwind", 10))]
    for l in u.get("unwindset", ["strlen.0:64"]):
        cmd += ["--unwindset", l]
    for c in u.get("checks", ["div"]):
        cmd += CHECK_FLAGS[c]
    cmd += u.get("flags", [])
    if "--trace" not in extra:
        cmd.append("--slice-formula")   # a trace keeps every input
    cmd += list(extra)
    return cmd

def parse_json(out):
    try:
        return json.loads(out)
    except Exception:
        raise NoAnswer("unreadable cbmc output: " + out[-1500:])

def run_cbmc(u, gb, timeout, extra=()):
    rc, out, err = run(cbmc_cmd(u, gb, extra), timeout, mem_gb=u.get("mem", 12))
    if rc not in (0, 10):
        raise NoAnswer("cbmc exit %d in unit %s: %s %s" % (rc, u["name"], out[-500:], err[-500:]))
    res = []
    solver_s = 0.0
    vccs = None
    for m in parse_json(out):
        if "result" in m:
            res = m["result"]
        t = m.get("messageText", "")
        if t.startswith("Runtime Solver:") or t.startswith("Runtime decision procedure:"):
            if t.startswith("Runtime decision procedure:"):
                solver_s += float(re.findall(r"([0-9.e+-]+)s", t)[0])
        g = re.match(r"Generated (\d+) VCC", t)
        if g:
            vccs = int(g.group(1))
    if not res:
        raise NoAnswer("cbmc reported no obligations in unit %s: %s" % (u["name"], out[-1500:]))
    return res, solver_s, vccs, out

def inputs_from_trace(out):
    vals = {}
    for m in parse_json(out):
        for r in m.get("result", []):
            for st in r.get("trace", []):
                if st.get("stepType") != "assignment":
                    continue
                g = re.match(r"vp_in\[\(?(?:signed long int\))?(\d+)[lL]*\]$", st.get("lhs", ""))
                if g and "value" in st:
                    v = st["value"]
                    if "binary" in v:
                        vals[int(g.group(1))] = int(v["binary"], 2)
                    elif "data" in v:
                        vals[int(g.group(1))] = int(re.sub(r"[a-zA-Z]+$", "", v["data"])) & (2**64 - 1)
    return vals

def native(b, u):
    name = u["name"]
    objs = harness_objs(b, u, "gcc")
    for s in b.sources():
        o = b.obj("gcc", os.path.join(b.src, s), [d for d in b.code_defs if "=vp_" in d], s)
        rm = u.get("stub", [])
        if rm:
            o2 = o + ".%s.o" % hashlib.md5((name + repr(rm)).encode()).hexdigest()[:8]
            cmd = ["objcopy"]
            for f in rm:
                cmd += ["--weaken-symbol=" + f]
            must(cmd + [o, o2])
            o = o2
        objs.append(o)
    exe = os.path.join(b.dir, name + ".native")
    must(["gcc", "-fsanitize=address", "-Wl,--unresolved-symbols=ignore-all", "-o", exe] + objs)
    return exe

def replay_native(b, u, values, path):
    exe = native(b, u)
    inp = path + ".inputs"
    with open(inp, "w") as f:
        for k in sorted(values):
            f.write("%d %d\n" % (k, values[k]))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
    p = subprocess.run([exe, inp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=env)
    return p.returncode, p.stdout.decode("latin-1")

def do_unit(b, u, timeout):
    t0 = time.time()
    gb = build_unit(b, u)
    res, solver_s, vccs, out = run_cbmc(u, gb, timeout)
    reach = [r for r in res if r["description"].startswith("REACH ")]
    obls = [r for r in res if not r["description"].startswith("REACH ")]
    mine = [r for r in obls if r["description"].startswith("ENSURES ") or
            re.search(r"\.(postcondition|assigns|precondition)\b", r["property"])]
    unwind_failed = [r for r in obls if r["status"] == "FAILURE" and
                     (".unwind." in r["property"] or "recursion" in r["property"])]
    nobody = [r for r in obls if ".no-body." in r["property"]]
    for r in nobody:
        f = r["property"].split(".no-body.")[1]
        if r["status"] != "SUCCESS" and f not in u.get("havoc", []):
            raise NoAnswer("unit %s: call to %s, which has neither body nor contract" % (u["name"], f))
    obls = [r for r in obls if r not in nobody]
    failed = [r for r in obls if r["status"] == "FAILURE" and r not in unwind_failed]
    unknown = [r for r in obls if r["status"] not in ("FAILURE", "SUCCESS")]
    info = dict(unit=u["name"], entry=u["entry"], functions=u.get("functions", []),
                obligations=len(obls), contract_obligations=len(mine),
                discharged=len([r for r in obls if r["status"] == "SUCCESS"]),
                backend=("cvc5" if "--cvc5" in u.get("flags", []) else "z3" if "--z3" in u.get("flags", []) else "CBMC/SAT (MiniSat 2)"),
                solver_s=round(solver_s, 3), wall_s=round(time.time() - t0, 2), bounded=u.get("bounded"),
                reach=len([r for r in reach if r["status"] == "FAILURE"]))
    log("unit", u["name"], "obl", len(obls), "contract", len(mine), "failed", [r["property"] for r in failed][:8],
        "unwind", [r["property"] for r in unwind_failed][:4], "%.1fs" % (time.time() - t0))
    if not failed:
        if unwind_failed:
            # A loop ran past its expected bound without breaking any contract:
            # the obligations are not all decided.
            raise NoAnswer("unit %s: loop bound exceeded: %s" % (u["name"], [r["property"] for r in unwind_failed]))
        if unknown:
            raise NoAnswer("unit %s: undecided %s" % (u["name"], [r["property"] for r in unknown][:5]))
        if not mine:
            raise NoAnswer("unit %s: no contract obligations generated" % u["name"])
        if not reach or any(r["status"] != "FAILURE" for r in reach):
            raise NoAnswer("unit %s is vacuous: %s" % (u["name"], [r["description"] for r in reach if r["status"] != "FAILURE"]))
    return info, failed, gb

def minimal(reason):
    return reason.replace("\n", " ")[:200]

def handle_failure(b, pid, u, failed, gb, timeout):
    """-> (replay path, confirmed)"""
    rdir = os.path.join(HERE, "replay")
    os.makedirs(rdir, exist_ok=True)
    # prefer a contract obligation
    failed = sorted(failed, key=lambda r: 0 if r["description"].startswith("ENSURES ") else 1)
    path = os.path.join(rdir, "%s_%s.txt" % (pid, u["name"]))
    confirmed, vals = False, {}
    lines = ["property %s  unit %s  (harness/%s, entry %s)" % (pid, u["name"], u["file"], u["entry"]),
             "failed obligations:"]
    for r in failed[:40]:
        lines.append("  [%s] %s (%s:%s)" % (r["property"], r["description"],
                     r.get("sourceLocation", {}).get("file", "?"), r.get("sourceLocation", {}).get("line", "?")))
    for r in failed[:4]:
        try:
            u2 = dict(u, flags=[f for f in u.get("flags", []) if f != "--cvc5"])   # the SMT back end gives no full trace
            _, _, _, out = run_cbmc(u2, gb, timeout, ["--property", r["property"], "--trace"])
            vals = inputs_from_trace(out)
            lines.append("counterexample for %s: inputs %s" % (r["property"], json.dumps(vals)))
            rc, txt = replay_native(b, u, vals, path)
            lines.append("native replay on the real code: exit %d\n%s" % (rc, txt[-3000:]))
            if rc not in (0, 3, 4):
                confirmed = True
                break
        except (NoAnswer, subprocess.TimeoutExpired) as e:
            lines.append("replay attempt: %s" % str(e)[:2500])
            if isinstance(e, subprocess.TimeoutExpired):
                confirmed = True
                break
    if not confirmed and vals:
        # the counterexample may depend on an uninterpreted function: look for an
        # input that shows the failed obligation on the real code
        try:
            rc, txt, vals = probe_native(b, u, sorted(vals), path)
            if rc:
                confirmed = True
                lines.append("failing input found by probing: inputs %s\nnative replay on the real code: exit %d\n%s" % (json.dumps(vals), rc, txt[-3000:]))
        except (NoAnswer, subprocess.TimeoutExpired) as e:
            lines.append("probing: %s" % str(e)[:500])
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    return path, confirmed

POOL = [0, 1, 2, 3, 5, 7, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 2**63 - 1, 2**63, 2**64 - 1,
        0x3ff0000000000000, 0xbff8000000000000, 0x7ff0000000000000, 0x7ff8000000000000, 0x8000000000000000, 0x4024000000000000,
        0x3f800000, 0xbfc00000, 0x7f800000, 0x7fc00000, 0x41200000, 0x1000001000000001, 0x0123456789abcdef]
def probe_native(b, u, ids, path):
    import random
    rnd = random.Random(1)
    exe = native(b, u)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
    end = time.time() + 25
    for k in range(400):
        if time.time() > end:
            break
        vals = {i: (rnd.choice(POOL) if rnd.random() < 0.7 else rnd.getrandbits(64) if rnd.random() < 0.5 else rnd.getrandbits(8)) for i in ids}
        with open(path + ".inputs", "w") as f:
            f.write("".join("%d %d\n" % (i, vals[i]) for i in ids))
        p = subprocess.run([exe, path + ".inputs"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20, env=env)
        if p.returncode == 10:
            return 10, p.stdout.decode("latin-1"), vals
    return 0, "", {}

def known_findings():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)["findings"]

def main():
    global VERBOSE
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--unit")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    VERBOSE = a.v
    pid = a.prop
    P = PROPERTIES[pid]
    t0 = time.time()
    units = [u for u in P["units"] if a.tier == "thorough" or not u.get("thorough_only")]
    if a.unit:
        units = [u for u in units if re.fullmatch(a.unit, u["name"])]
    budget = P.get("timeout", int(os.environ.get("VP_TIMEOUT", "600"))) if a.tier == "quick" else 3600
    deadline = t0 + (720 if a.tier == "quick" else 36000)
    findings = {k["unit"]: k["what"] for k in known_findings() if k["property"] == pid and k["status"] == "open"}
    known = []
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(HERE, "build"))
    infos, bad, noans = [], [], []
    try:
        b = Build(scratch, pid)
        stop = threading.Event()
        def job(u):
            left = deadline - time.time()
            if stop.is_set():
                return u, None, "not run: another unit already failed"
            if left < 10:
                return u, None, "not run: out of time"
            try:
                r = do_unit(b, u, min(budget, left))
                if r[1] and not u["name"] in findings:
                    stop.set()
                return u, r, None
            except NoAnswer as e:
                return u, None, str(e)
        # compile shared objects once, before the parallel phase
        try:
            b.compile_all()
            b.obj("cbmc", os.path.join(HERE, "lib", "vp_rt.c"), [], "vp_rt")
        except NoAnswer as e:
            noans.append(str(e))
            units = []
        with ThreadPoolExecutor(a.j) as ex:
            for u, r, err in ex.map(job, sorted(units, key=lambda u: -u.get("cost", 1))):
                if err:
                    noans.append("%s: %s" % (u["name"], err))
                    log("NOANSWER", u["name"], err[:3000])
                else:
                    info, failed, gb = r
                    infos.append(info)
                    if failed and u["name"] in findings:
                        known.append("KNOWN-FINDING: property=%s %s" % (pid, findings[u["name"]]))
                    elif failed:
                        bad.append((u, failed, gb))
        violations = []
        for u, failed, gb in bad[:3]:
            path, confirmed = handle_failure(b, pid, u, failed, gb, max(20, min(budget, (t0 + 840 - time.time()) / 2)))
            violations.append((path, confirmed, u, failed))
            if confirmed:
                break
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("kept", scratch)
    # a property all of whose units are bounded stand-ins is not counted as proved
    LEVEL = "proof" if any(not u.get("bounded") for u in P["units"]) else "other"
    ev = {
        "property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")), "level": LEVEL,
        "coverage": {
            "obligations": sum(i["obligations"] for i in infos),
            "discharged": sum(i["discharged"] for i in infos),
            **({} if LEVEL == "proof" else {"explanation": "bounded stand-in: CBMC discharges every obligation of the contracts on the real functions for every input within the bound each unit states; not counted as proved"}),
            "contract_obligations": sum(i["contract_obligations"] for i in infos),
            "obligations_in_bounded_units_not_counted_as_proved": sum(i["obligations"] for i in infos if i["bounded"]),
            "units": infos,
            "functions_under_contract": sorted({f for i in infos for f in i["functions"]}),
            "solver_s": round(sum(i["solver_s"] for i in infos), 2),
            "vacuity_points_reached": sum(i["reach"] for i in infos),
            "checker_cmd": "goto-cc + goto-instrument (--dfcc for units with contract clauses) + cbmc --unwinding-assertions; python3 check.py %s -v" % pid,
            "trusted_base": P.get("trusted", []) + COMMON_TRUST,
            "no_answer": noans,
        },
        "assumptions": P.get("trusted", []) + COMMON_TRUST,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print(k)
    if bad:
        best = [v for v in violations if v[1]] or violations
        path, confirmed, u, failed = best[0]
        for r in failed[:5]:
            print("failed obligation %s in unit %s: %s" % (r["property"], u["name"], r["description"]))
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if confirmed else " no-failing-input-found"))
        return 1
    if noans or not infos:
        for n in noans:
            print("NO-ANSWER %s" % n)
        return 2
    print("OK property=%s: %d obligations discharged in %d units (%.1fs)" %
          (pid, ev["coverage"]["discharged"], len(infos), ev["wall_s"]))
    return 0

COMMON_TRUST = [
    "CBMC 6.11 (C front end, symbolic execution, SAT/SMT back end) and its model of the C library",
    "goto-cc compiles the sources with the LP64 little-endian model of x86-64 Linux",
    "allocation succeeds (cc_malloc/cc_realloc never return NULL)",
]

if __name__ == "__main__":
    sys.exit(main())
