"""Runner: compiles the harnesses of a property against /repo's current sources, discharges
every obligation, replays counterexamples natively, writes the evidence file.
usage: python -m vc.check ID [--tier quick|thorough] [--entry NAME] [-v]"""
import sys, os, re, json, time, subprocess, tempfile, shutil, multiprocessing as mp, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CXXSYM = ["clang++-18", "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off",
          "-fno-vectorize", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_DEBUG", "-DEIGEN_MAX_ALIGN_BYTES=0", "-DVC_SYMBOLIC", "-w", "-S",
          "-emit-llvm"]
CXXNAT = ["g++", "-std=c++17", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
          "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_MAX_ALIGN_BYTES=0", "-w"]
INC = ["-I" + VERIF + "/harness", "-I" + VERIF + "/stubs", "-I" + REPO + "/src", "-I/usr/include", "-I" + REPO]


def sh(cmd, timeout=300, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)


class CompileError(Exception):
    pass


DROP = re.compile(r"^define available_externally .*@(_ZNS[a-zA-Z]*(i|o|S)?[a-z]*|_ZNSi|_ZNSo|_ZNSt[0-9]*|_ZNKSt[0-9]*)")


def drop_extern(txt, rx):
    """available_externally bodies of the iostream classes become declarations (they have
    library contracts)"""
    out = []
    lines = txt.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("define available_externally") and rx.search(l):
            j = l.rindex("{")
            h = l[:j]
            h = h.replace("define available_externally ", "declare ", 1)
            h = re.sub(r" %[\w.]+(?=[,)])", "", h)
            h = re.sub(r"\) (unnamed_addr |local_unnamed_addr )?.*$", lambda m: ")", h) if False else h
            # strip attributes after the parameter list
            depth = 0
            k = h.index("@")
            k = h.index("(", k)
            for q in range(k, len(h)):
                if h[q] == "(":
                    depth += 1
                elif h[q] == ")":
                    depth -= 1
                    if depth == 0:
                        break
            out.append(h[:q + 1])
            while lines[i] != "}":
                i += 1
            i += 1
            continue
        out.append(l)
        i += 1
    return "\n".join(out)


IOS = re.compile(r"@_Z(N|NK)(St9basic_ios|Si|So|St14basic_ifstream|St13basic_filebuf|St15basic_streambuf|St8ios_base|St13basic_fstream|St14basic_ofstream|St5ctype|St12__basic_file|St13basic_istream|St13basic_ostream)|@_ZSt(4endl|5flush|lsI|16__ostream_insert)|@_ZStlsISt11")


def compile_ir(src, flags, keep, wd, opts):
    a, b = os.path.join(wd, "a.ll"), os.path.join(wd, "b.ll")
    r = sh(CXXSYM + INC + flags + [src, "-o", a])
    if r.returncode:
        raise CompileError(r.stderr[-3000:])
    txt = open(a).read()
    reach = reachable(txt)
    txt = drop_extern(txt, IOS)
    open(a, "w").write(txt)
    pre = []
    if keep:
        names = re.findall(r"^define [^@]*@(\"[^\"]+\"|[\w.$]+)\(", txt, re.M)
        dem = sh(["c++filt"], input=None) if False else subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        for n, d in zip(names, dem):
            if any(re.search(k, d) for k in keep):
                pre.append("-force-attribute=%s:noinline" % n)
    passes = "globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,early-cse,simplifycfg,adce),globaldce"
    if opts.get("scopes") or os.environ.get("VC_SCOPES"):
        # local objects stay in memory, so that uses after the end of their scope are seen
        passes = "globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline),function(simplifycfg),globaldce"
    if pre:
        passes = "forceattrs," + passes
    r = sh(["opt-18", "-S", "-passes=" + passes, "-inline-threshold=%d" % opts.get("inline", 10000)] + pre + [a, "-o", b])
    if r.returncode:
        raise CompileError(r.stderr[-3000:])
    return open(b).read(), reach


def reachable(txt):
    """repository functions reachable from the harness entries before inlining"""
    calls, cur = {}, None
    for l in txt.split("\n"):
        if l.startswith("define "):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
            cur = m.group(1).strip('"')
            calls[cur] = set()
        elif cur and l.startswith("}"):
            cur = None
        elif cur and "@" in l:
            calls[cur].update(x.strip('"') for x in re.findall(r'@("[^"]+"|[\w.$]+)', l))
    todo = [n for n in calls if n.startswith("H_")]
    seen = set(todo)
    while todo:
        for c in calls.get(todo.pop(), ()):
            if c in calls and c not in seen:
                seen.add(c)
                todo.append(c)
    names = sorted(n for n in seen if not n.startswith("H_"))
    dem = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
    return sorted({d for d in dem if d and not re.match(r"(void |bool |double |int |auto |.* )?(std|Eigen|__gnu_cxx)::|__cxx_global|_GLOBAL|operator |__clang|\(anonymous", d)})


def run_entry(args):
    """in a worker process: all obligations of one harness entry"""
    irfile, entry, h, tier, tmo = args
    sys.path.insert(0, VERIF)
    import resource, faulthandler, signal
    faulthandler.register(signal.SIGUSR1)      # where is it?
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    from vc.llir import Module, Unsupported
    from vc import engine
    from vc.terms import zb
    import z3
    t0 = time.time()
    res = dict(entry=entry, obls=[], error=None, funcs=[], trusted=[], covers={}, paths=0, complete=0, reach=None)
    try:
        mod = Module(open(irfile).read())
        cf = None
        if h.get("contracts"):
            m = __import__("contracts." + h["contracts"], fromlist=["setup"])
            cf = m.setup
        o = dict(h.get("opts", {}))
        o.update(h.get("entry_opts", {}).get(entry, {}))
        if tier == "thorough":
            o["timeout"] = 3 * o.get("timeout", 10000)
        ex = engine.Engine(mod, cf, o)
        ex.deadline = t0 + tmo
        outs = []
        try:
            outs = ex.run_harness(entry)
        except Unsupported as u:
            res["error"] = "unsupported: %s" % u
        except engine.PathEnd:
            pass
        rets = [s for k, s, v in outs if k == "ret"]
        res["paths"] = ex.npaths
        res["complete"] = len(rets)
        res["throws"] = len(outs) - len(rets)
        # vacuity: some completed path is reachable
        if res["error"] is None:
            reach = "none"
            for s in rets:
                sv = ex._solver(s, 4000)
                r = engine.safe_check(sv, 4000)
                if r == z3.sat:
                    reach = "sat"
                    break
                if r == z3.unknown:
                    reach = "unknown"
            res["reach"] = reach
            for nm, sts in ex.covers.items():
                c = "none"
                for s in sts[:50]:
                    r = engine.safe_check(ex._solver(s, 3000), 3000)
                    if r == z3.sat:
                        c = "sat"
                        break
                    if r == z3.unknown:
                        c = "unknown"
                res["covers"][nm] = c
        for ob in ex.obls:
            res["obls"].append(dict(name=ob.name, kind=ob.kind, where=ob.where, status=ob.status, backend=ob.backend,
                                    time=round(ob.time, 4), model=ob.model, goal=ob.goal, pc=getattr(ob, "pc", None)))
        res["funcs"] = sorted(ex.funcs_used)
        res["trusted"] = sorted(ex.trusted_used)
        res["solver_time"] = ex.solver_time
        res["ninstr"] = ex.ninstr
        res["loops"] = ex.loopnotes
        res["ncontracts"] = sorted(ex.contracts_used)
    except MemoryError:
        res["error"] = "out of memory"
    except Exception as x:
        res["error"] = "verifier error: %s\n%s" % (x, traceback.format_exc()[-1500:])
    res["wall"] = time.time() - t0
    return res


def flatten_model(m):
    out = {}
    for k, v in (m or {}).items():
        if isinstance(v, list):
            for i, x in enumerate(v):
                out["%s[%d]" % (k, i)] = x
        else:
            out[k] = v
    return out


class Native:
    def __init__(self, wd, h):
        self.wd, self.h = wd, h
        self.bins = {}
        self.err = None

    def build(self, entry):
        if entry in self.bins:
            return self.bins[entry]
        src = os.path.join(VERIF, "harness", self.h["src"])
        obj = os.path.join(self.wd, "h.o")
        flags = self.h.get("flags", []) + self.h.get("nflags", [])
        if not os.path.exists(obj):
            r = sh(CXXNAT + INC + flags + ["-c", src, "-o", obj])
            if r.returncode:
                self.err = r.stderr[-2000:]
                self.bins[entry] = None
                return None
        b = os.path.join(self.wd, "nat_" + entry)
        r = sh(CXXNAT + INC + ["-DVC_ENTRY=" + entry, os.path.join(VERIF, "harness", "vc_native.cpp"), obj, "-o", b] + self.h.get("libs", []))
        if r.returncode:
            self.err = r.stderr[-2000:]
            b = None
        self.bins[entry] = b
        return b

    def env(self, rec=None):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=43:allocator_may_return_null=1"
        e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=44"
        e["VC_SCRATCH"] = self.wd
        if self.h.get("ends"):        # the contract includes that the call returns
            e["VC_TIMEOUT_FAILS"] = "1"
        if rec:
            e["VC_RECORD"] = rec
        return e

    def replay(self, entry, vals, rec=None):
        b = self.build(entry)
        if not b:
            return None
        f = os.path.join(self.wd, "vals.txt")
        with open(f, "w") as fh:
            for k, v in vals.items():
                if isinstance(v, bool):
                    v = int(v)
                if v is None:
                    continue
                fh.write("%s=%s\n" % (k, repr(v)))
        try:
            r = sh([b, "--values", f], env=self.env(rec), timeout=90, cwd=self.wd)
        except subprocess.TimeoutExpired:
            return "timeout"
        if re.search(r"out-of-memory|allocation-size-too-big|failed to allocate|bad_alloc", r.stderr):
            return None
        return r.stderr if r.returncode == 42 else None

    def search(self, entry, secs, maxruns=10**9):
        b = self.build(entry)
        if not b:
            return None, None, ""
        try:
            r = sh([b, "--search", str(SEED * 1000003), str(secs), str(maxruns)], env=self.env(), timeout=secs + 120, cwd=self.wd)
        except subprocess.TimeoutExpired:
            return None, None, "timeout"
        if r.returncode == 42:
            m = re.search(r"FAILURE seed=(\d+)[^\n]*", r.stderr)
            if m:
                return int(m.group(1)), m.group(0), r.stderr
        return None, None, r.stderr

    def seed_replay(self, entry, seed, rec):
        b = self.build(entry)
        r = sh([b, "--seed", str(seed)], env=self.env(rec), timeout=120, cwd=self.wd)
        return r.returncode == 42, r.stderr


def known_findings():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                m = re.match(r"finding: property=(\S+) entry=(\S+) obligation=(\"[^\"]*\"|\S+) (.*)", l)
                if m:
                    out.append((m.group(1), m.group(2), m.group(3).strip('"'), m.group(4)))
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--entry")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--native", type=float, default=None, help="only run the native search for N s per entry")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    from vc.props import PROPS
    spec = PROPS[a.id]
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix="vc-%s-" % a.id)
    try:
        rc = run(a, spec, wd, t0)
    finally:
        if not a.keep:
            shutil.rmtree(wd, ignore_errors=True)
        else:
            print("workdir", wd)
    sys.exit(rc)


def run(a, spec, wd, t0):
    pid = a.id
    tier = a.tier
    jobs = []
    allfuncs = set()
    natives = {}
    fails = []       # (entry, obligation, status, goal, model, harness)
    budget = spec.get("budget", 240) * (2 if tier == "thorough" else 1)
    for hi, h in enumerate(spec["harness"]):
        src = os.path.join(VERIF, "harness", h["src"])
        txt = open(src).read()
        entries = re.findall(r"^HARNESS\((\w+)\)", txt, re.M)
        entries = ["H_" + e for e in entries]
        if h.get("entries"):
            entries = [e for e in entries if re.fullmatch(h["entries"], e[2:])]
        if a.entry:
            entries = [e for e in entries if re.search(a.entry, e)]
        hwd = os.path.join(wd, "h%d" % hi)
        os.mkdir(hwd)
        nat = Native(hwd, h)
        for e in entries:
            natives[e] = nat
        if a.native is not None:
            for e in entries:
                s, m, err = nat.search(e, a.native)
                print(e, "->", (m or err or nat.err or "").strip()[-600:])
            continue
        try:
            ir, reach = compile_ir(src, h.get("flags", []), h.get("keep", []), hwd, h)
        except (CompileError, subprocess.TimeoutExpired) as x:
            for e in entries:
                fails.append((e, "source-compiles-under-contract", "compile-error", str(x)[-1500:], None, h))
            continue
        allfuncs.update(reach)
        irf = os.path.join(hwd, "ir.ll")
        open(irf, "w").write(ir)
        for e in entries:
            jobs.append((irf, e, h, tier, budget))
    if a.native is not None:
        return 0
    results = []
    if jobs:
        if a.entry and len(jobs) == 1:
            results = [run_entry(jobs[0])]
        else:
            with mp.get_context("spawn").Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
                rs = [pool.apply_async(run_entry, (j,)) for j in jobs]
                for j, r in zip(jobs, rs):
                    try:
                        results.append(r.get(timeout=max(5, budget + 60)))
                    except Exception as x:
                        results.append(dict(entry=j[1], obls=[], error="worker: %r" % x, funcs=[], trusted=[], covers={}, paths=0, complete=0, reach=None, wall=0, solver_time=0))
    hof = {j[1]: j[2] for j in jobs}
    for r in results:
        e = r["entry"]
        h = hof[e]
        if r["error"]:
            fails.append((e, "verification-completes", "undecided", r["error"], None, h))
        elif not r["obls"]:
            fails.append((e, "obligations-exist", "vacuous", "no obligation generated", None, h))
        elif r["reach"] == "none":
            fails.append((e, "harness-end-reachable", "vacuous", "no reachable completed path", None, h))
        for nm, c in r["covers"].items():
            if c == "none":
                fails.append((e, "cover " + nm, "vacuous", "cover point unreachable", None, h))
        for o in r["obls"]:
            if o["status"] != "proved":
                fails.append((e, o["name"], o["status"], "%s [%s] %s" % (o["where"], o["kind"], o["goal"]), o["model"], h, o.get("pc")))
        if a.v:
            print("== %s: %d obligations, %d paths, %d complete, reach=%s, %.1fs (solver %.1fs) %s" % (
                e, len(r["obls"]), r["paths"], r["complete"], r["reach"], r["wall"], r.get("solver_time", 0), r["error"] or ""))
            for l in r.get("loops", []):
                print("   loop", l)
    known = known_findings()
    violations, knowns = [], []
    seen = set()
    groups = {}
    for f in fails:
        groups.setdefault(f[0], []).append(f)
    rdir = os.path.join(VERIF, "evidence", "replay")
    nleft = max(1, sum(1 for e in groups))
    for e, fl in groups.items():
        nat = natives[e]
        unk = []
        for f in fl:
            hit = [k for k in known if k[0] == pid and k[1] == e and k[2] == f[1]]
            if hit:
                if (e, f[1]) not in seen:
                    seen.add((e, f[1]))
                    knowns.append("KNOWN-FINDING: property=%s %s/%s %s" % (pid, e, f[1], hit[0][3]))
            else:
                unk.append(f)
        if a.v:
            for f in fl[:12]:
                print("   FAIL %s / %s: %s\n        %s" % (e, f[1], f[2], " ".join(str(f[3]).split())[:int(os.environ.get("VC_W","260"))]))
                if f[4]:
                    print("        model:", {k: v for k, v in f[4].items() if not isinstance(v, list) or len(v) < 12})
                if len(f) > 6 and f[6] and os.environ.get("VC_PC"):
                    for c in f[6]:
                        print("          pc:", c)
        if not unk:
            continue
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s.txt" % (pid, e))
        done = None
        rec = os.path.join(wd, "rec.txt")
        if not os.environ.get("VC_NOREPLAY"):
            for f in unk[:6]:
                if f[4]:
                    if os.path.exists(rec):
                        os.unlink(rec)
                    out = nat.replay(e, flatten_model(f[4]), rec)
                    if out:
                        done = ("counterexample of obligation %s" % f[1], out)
                        break
            if not done:
                if os.path.exists(rec):
                    os.unlink(rec)
                secs = min(60, max(10, 240 / nleft))
                s, m, err = nat.search(e, secs)
                if s is not None:
                    ok, out = nat.seed_replay(e, s, rec)
                    done = ("seeded sample, seed=%d" % s, out + "\n" + m)
        with open(rp, "w") as fh:
            fh.write("# property %s, harness %s (%s)\n" % (pid, e, hof.get(e, {}).get("src", spec["harness"][0]["src"])))
            for f in unk[:20]:
                fh.write("# failed obligation: %s (%s): %s\n" % (f[1], f[2], str(f[3]).replace("\n", " ")[:1500]))
            if done:
                fh.write("# reproduced on the real code by %s\n" % done[0])
                for l in done[1][-3000:].split("\n"):
                    fh.write("# %s\n" % l)
                if done[0].startswith("seeded"):
                    fh.write("seed=%s\n" % done[0].split("=")[1])
                if os.path.exists(rec):
                    fh.write(open(rec).read()[:200000])
            else:
                fh.write("# no failing input found (counterexamples and seeded search did not reproduce it)\n")
                if nat.err:
                    fh.write("# native build: %s\n" % nat.err[-800:].replace("\n", "\n# "))
                for f in unk[:3]:
                    if f[4]:
                        fh.write("# verifier model of %s: %s\n" % (f[1], json.dumps(f[4], default=str)[:2000]))
        violations.append((e, rp, bool(done), [f[1] for f in unk]))
    # thorough: cross-check the native contracts by seeded sampling
    cross = []
    if tier == "thorough" and not violations:
        for e, nat in natives.items():
            if any(k[0] == pid and k[1] == e for k in known):
                continue
            s, m, err = nat.search(e, spec.get("cross_secs", 8))
            if s is not None:
                rec = os.path.join(wd, "rec.txt")
                if os.path.exists(rec):
                    os.unlink(rec)
                ok, out = nat.seed_replay(e, s, rec)
                os.makedirs(rdir, exist_ok=True)
                rp = os.path.join(rdir, "%s-%s.txt" % (pid, e))
                with open(rp, "w") as fh:
                    fh.write("# property %s, harness %s: contract fails on the compiled code although every obligation is discharged\n# %s\nseed=%d\n" % (pid, e, (out + m).replace("\n", "\n# "), s))
                    if os.path.exists(rec):
                        fh.write(open(rec).read()[:200000])
                violations.append((e, rp, True, ["native-cross-check"]))
            cross.append("%s: %s" % (e, (m or err or nat.err or "").strip()[-120:]))
    for k in sorted(set(knowns)):
        print(k)
    nob = sum(len(r["obls"]) for r in results)
    nd = sum(1 for r in results for o in r["obls"] if o["status"] == "proved")
    bk = {}
    kinds = {}
    for r in results:
        for o in r["obls"]:
            if o["status"] == "proved":
                bk[o["backend"]] = bk.get(o["backend"], 0) + 1
            kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
    st = sum(r.get("solver_time", 0) or 0 for r in results)
    repofuncs = sorted(allfuncs)
    trusted = sorted({t for r in results for t in r["trusted"]})
    from vc.props import BASE_ASSUMPTIONS
    ev = dict(property=pid, tier=tier, seed=SEED, level=spec.get("level", "proof"), wall_s=round(time.time() - t0, 2),
              coverage=dict(obligations=nob, discharged=nd,
                            checker_cmd="./check %s --tier %s" % (pid, tier),
                            trusted_base=BASE_ASSUMPTIONS + trusted + spec.get("trusted", []),
                            by_backend=bk, by_kind=kinds, solver_time_s=round(st, 2),
                            functions_under_contract=repofuncs[:200],
                            harness_entries=[dict(entry=r["entry"], obligations=len(r["obls"]), paths=r["paths"],
                                                  reachable=r["reach"], covers=r["covers"], wall_s=round(r["wall"], 2),
                                                  assertions=sorted({o["name"] for o in r["obls"] if o["kind"] in ("assert", "inv", "post")})[:60],
                                                  loops=r.get("loops", [])[:40]) for r in results],
                            native_cross_check=cross),
              assumptions=spec.get("assumptions", []) + BASE_ASSUMPTIONS,
              violations=[dict(replay=os.path.relpath(v[1], VERIF), entry=v[0], obligations=v[3][:20], reproduced=v[2]) for v in violations])
    if knowns:
        ev["coverage"]["known_findings"] = sorted(set(knowns))
    if not a.entry:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
    print("%s: %d obligations, %d discharged (%s), %d harness entries, %.1fs" % (
        pid, nob, nd, ", ".join("%s %d" % x for x in sorted(bk.items())), len(results), time.time() - t0))
    for v in violations:
        print("  failed in %s: %s" % (v[0], ", ".join(sorted(set(v[3]))[:8])))
    if violations:
        # reproduced ones first
        violations.sort(key=lambda v: not v[2])
        v = violations[0]
        print("VIOLATION property=%s replay=%s%s" % (pid, os.path.relpath(v[1], VERIF), "" if v[2] else " no-failing-input-found"))
        return 1
    return 0


if __name__ == "__main__":
    main()
