"""Verification-condition generator: symbolic execution of LLVM IR between cut points.
Every path between cut points yields obligations that are discharged by polynomial
normalisation, z3 and cvc5.  Loops whose exit test is symbolic are cut with inductive
invariants (auto-derived candidates or candidates supplied by a contract file), each
checked on entry and preservation; calls are executed or replaced by contracts."""
import re, time, subprocess, os, tempfile, sys, select, signal
from fractions import Fraction
import z3
from .llir import Unsupported, Module, INT, PTR, DOUBLE, Ty
from . import terms as T
from .terms import conc, zr, zi, zb, simp, isimp, cmpop, b_and, b_or, b_not, b_imp, ite, fresh, I, R, B
from . import polyid
from . import signs

sys.setrecursionlimit(20000)


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class CutNeeded(Exception):
    def __init__(self, loop):
        self.loop = loop


class PathEnd(Exception):
    pass


class Undischarged(Exception):
    pass


class Ptr:
    __slots__ = ("obj", "off", "inst")

    def __init__(self, obj, off, inst=None):
        self.obj, self.off, self.inst = obj, off, inst

    def __repr__(self):
        return "Ptr(%s,%s%s)" % (self.obj, self.off, "" if self.inst is None else ",inst=%s" % self.inst)


NULL = Ptr(0, 0)


class FuncPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Undef:
    pass


UNDEF = Undef()


class Concat:
    """integer assembled from memory cells, kept by parts"""
    __slots__ = ("parts", "size")

    def __init__(self, parts, size):
        self.parts, self.size = parts, size


class Iteptr:
    pass


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and T.samet(a.off, b.off) and (a.inst is None) == (b.inst is None) and \
            (a.inst is None or T.samet(a.inst, b.inst))
    if isinstance(a, FuncPtr) and isinstance(b, FuncPtr):
        return a.name == b.name
    if isinstance(a, (Ptr, FuncPtr, Undef, Concat)) or isinstance(b, (Ptr, FuncPtr, Undef, Concat)):
        return False
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(map(same, a, b))
    return T.samet(a, b)


class Obj:
    """immutable description + contents of a memory object (copy on write)"""
    __slots__ = ("id", "name", "size", "kind", "cells", "fill", "stride", "base", "log", "freed", "count", "heap",
                 "const", "vt", "frame", "tag")
    # size: byte size (int/term); for families a function inst->term
    # kind: 'cells' | 'region'
    # freed: bool/term, for families a list of (fn inst->cond)

    def clone(self):
        o = Obj()
        for s in Obj.__slots__:
            setattr(o, s, getattr(self, s, None))
        return o


class State:
    __slots__ = ("pc", "pcset", "mem", "facts", "notes")

    def __init__(self):
        self.pc = []
        self.pcset = set()
        self.mem = {}
        self.facts = []
        self.notes = {}

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.mem = dict(self.mem)
        s.facts = list(self.facts)
        s.notes = dict(self.notes)
        return s

    def add(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        if z3.is_and(c):
            for x in c.children():
                self.add(x)
            return
        k = c.get_id()
        if k in self.pcset:
            return
        self.pcset.add(k)
        self.pc.append(c)


class Item:
    __slots__ = ("block", "idx", "env", "st", "prev", "cex", "scopes")

    def __init__(self, block, idx, env, st, prev, cex=False):
        self.block, self.idx, self.env, self.st, self.prev, self.cex = block, idx, env, st, prev, cex


class Frame:
    def __init__(self, fn, depth):
        self.fn, self.depth = fn, depth


def bit_cond(t):
    """the condition of a term that is 1 or 0"""
    if conc(t):
        return bool(t) if t in (0, 1) else None
    if t.decl().kind() == z3.Z3_OP_ITE:
        a, b = T.numval(t.arg(1)), T.numval(t.arg(2))
        if (a, b) == (1, 0):
            return t.arg(0)
        if (a, b) == (0, 1):
            return z3.Not(t.arg(0))
    return None


class Obligation:
    def __init__(self, name, kind, where):
        self.name, self.kind, self.where = name, kind, where
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None
        self.goal = None

    def key(self):
        return self.name


class PhiInfo:
    pass


class LoopCtx:
    """what a contract file sees of a loop that is being cut"""
    pass


def any_root(pc):
    """roots on the path: a model found without their facts may be spurious"""
    return any(f.decl().name() == "sqrt" for c in pc for f in apps(c))


def positives(st, goal):
    """real terms known non-negative on the path, over the goal's variables"""
    out = []
    fv = T.freevars(goal)
    for c in st.pc:
        neg = False
        while z3.is_not(c):
            c, neg = c.arg(0), not neg
        if not z3.is_app(c) or c.num_args() != 2 or c.arg(0).sort() != R:
            continue
        k = c.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            neg = not neg
        elif k not in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            continue
        a, b = c.arg(0), c.arg(1)
        if not T.freevars(c) <= fv:
            continue
        out.append(b - a if neg else a - b)
    return out[:40]


# the std exception hierarchy, by mangled class name
STDBASE = {"St13runtime_error": "St9exception", "St11logic_error": "St9exception", "St9bad_alloc": "St9exception",
           "St12out_of_range": "St11logic_error", "St16invalid_argument": "St11logic_error",
           "St12length_error": "St11logic_error", "St12domain_error": "St11logic_error",
           "St11range_error": "St13runtime_error", "St20bad_array_new_length": "St9bad_alloc"}
TYPENO = {}


def typeid(n):
    return n[4:] if n.startswith("_ZTI") else n


def bases(t):
    out = []
    t = typeid(t)
    while t:
        out.append(t)
        t = STDBASE.get(t)
    return out


def typeid_no(n):
    return 1 if n is None else TYPENO.setdefault(typeid(n), len(TYPENO) + 2)


class Engine:
    def __init__(self, mod, contracts=None, opts=None):
        self.mod = mod
        self.opts = dict(bv=False, timeout=10000, feas_timeout=400, max_paths=4000, fuel=3000, overflow=True,
                         bounds=True, quick_timeout=300)
        self.opts.update(opts or {})
        self.bv = self.opts["bv"]
        self.obls = []
        self.quiet = 0
        self.nextobj = 1
        self.inputs = {}         # name -> term
        self.rng = {}            # var name -> (lo,hi)
        self.handlers = []       # (regex, fn)
        self.loop_specs = []     # fn(LoopCtx) -> list of candidate dicts
        self.loop_policy = []    # (regex fn, 'cut'|'unroll')
        if self.opts.get("cut"):        # loops never unrolled
            self.loop_policy.append((re.compile(self.opts["cut"]), "cut"))
        if self.opts.get("unroll"):     # loops with a constant bound, unrolled completely
            self.loop_policy.append((re.compile(self.opts["unroll"]), "unroll"))
        self.cutstack = []
        self.curfn = None        # function calling a modelled one
        self.fp = {}
        self.npaths = 0
        self.ninstr = 0
        self.impossible = {}
        self.solver_time = 0.0
        self.funcs_used = set()
        self.trusted_used = set()
        self.contracts_used = set()
        self.deadline = None
        self.decide_cache = {}
        self.completed = []      # path conditions of completed harness paths
        self.covers = {}
        self.assumes = []
        self.axiom_fns = []      # fn(engine, state, goal)-> list of z3 facts (instances)
        self.log = []
        self.loopnotes = []
        from . import lib
        lib.install(self)
        if contracts:
            contracts(self)

    # ---------------------------------------------------------------- contracts
    def on(self, rx, fn, trusted=None):
        self.handlers.insert(0, (re.compile(rx), fn, trusted))

    def handler_for(self, name):
        dm = self.mod.dem.get(name, name)
        for rx, fn, tr in self.handlers:
            if rx.fullmatch(dm) or rx.fullmatch(name):
                if tr:
                    self.trusted_used.add(tr)
                return fn
        return None

    def F(self, name, *sorts):
        key = (name, len(sorts))
        if key not in self.fp:
            self.fp[key] = z3.Function(name, *sorts)
        return self.fp[key]

    # ---------------------------------------------------------------- solving
    def _solver(self, st, timeout, facts=True):
        s = z3.Solver()
        s.set("timeout", int(timeout))
        for c in st.pc:
            s.add(c)
        if facts:
            for c in st.facts:
                s.add(c)
        return s

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")

    def quick(self, st, goal):
        """True if pc |= goal is established quickly, else False"""
        if isinstance(goal, bool):
            return goal
        k = goal.get_id()
        if k in st.pcset:
            return True
        ng = b_not(goal)
        if not isinstance(ng, bool) and ng.get_id() in st.pcset:
            return False
        b = self.rng_decide(goal)
        if b is not None:
            return b
        key = (k, len(st.pc), st.pc[-1].get_id() if st.pc else 0, hash(frozenset(st.pcset)))
        r = self.decide_cache.get(key)
        if r is not None:
            return r[1]
        self.check_deadline()
        t = time.time()
        s = self._solver(st, self.opts["quick_timeout"], facts=False)
        s.set("arith.nl.grobner", False)
        s.add(z3.Not(goal))
        res = s.check() == z3.unsat
        self.solver_time += time.time() - t
        self.decide_cache[key] = (goal, res, list(st.pc[-1:]))
        return res

    def feasible(self, st, cond):
        if isinstance(cond, bool):
            return cond
        if cond.get_id() in st.pcset:
            return True
        n = b_not(cond)
        if not isinstance(n, bool) and n.get_id() in st.pcset:
            return False
        return not self.quick(st, n)

    def decide(self, st, cond):
        """truth of cond on this path; forks the path when undecided"""
        if isinstance(cond, bool):
            return cond
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        if cond.get_id() in st.pcset:
            return True
        n = b_not(cond)
        if not isinstance(n, bool) and n.get_id() in st.pcset:
            return False
        if self.quick(st, cond):
            return True
        if self.quick(st, n):
            return False
        raise Fork(cond)

    def rng_of(self, t, depth=0):
        """cheap interval of an Int term from declared variable ranges"""
        if conc(t):
            return (t, t)
        if depth > 12:
            return (None, None)
        if z3.is_int_value(t):
            v = t.as_long()
            return (v, v)
        k = t.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.rng.get(t.decl().name(), (None, None))
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in ch:
                a, b = self.rng_of(c, depth + 1)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            return lo, hi
        if k == z3.Z3_OP_SUB:
            lo, hi = self.rng_of(ch[0], depth + 1)
            for c in ch[1:]:
                a, b = self.rng_of(c, depth + 1)
                lo = None if lo is None or b is None else lo - b
                hi = None if hi is None or a is None else hi - a
            return lo, hi
        if k == z3.Z3_OP_UMINUS:
            a, b = self.rng_of(ch[0], depth + 1)
            return (None if b is None else -b, None if a is None else -a)
        if k == z3.Z3_OP_MUL:
            lo = hi = 1
            for c in ch:
                a, b = self.rng_of(c, depth + 1)
                if a is None or b is None or lo is None:
                    return (None, None)
                v = [lo * a, lo * b, hi * a, hi * b]
                lo, hi = min(v), max(v)
            return lo, hi
        if k == z3.Z3_OP_ITE:
            a = self.rng_of(ch[1], depth + 1)
            b = self.rng_of(ch[2], depth + 1)
            return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                    None if a[1] is None or b[1] is None else max(a[1], b[1]))
        if k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]):
            m = ch[1].as_long()
            if m > 0:
                return (0, m - 1)
        return (None, None)

    def rng_decide(self, g):
        """decide comparisons from intervals"""
        if not z3.is_app(g) or g.num_args() != 2:
            return None
        k = g.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            return None
        a, b = g.children()
        if a.sort() != I:
            return None
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
            k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
        (al, ah), (bl, bh) = self.rng_of(a), self.rng_of(b)
        if ah is not None and bl is not None and (ah <= bl if k == z3.Z3_OP_LE else ah < bl):
            return True
        return None

    def prove(self, st, goal, name, kind="assert", where=""):
        """discharge an obligation; records it"""
        if self.quiet:
            if kind in ("assert", "inv", "post"):
                return True
            return True
        ob = Obligation(name, kind, where)
        t0 = time.time()
        ob.status, ob.backend, ob.model = self.try_prove(st, goal)
        ob.time = time.time() - t0
        if ob.status != "proved" and not isinstance(goal, bool):
            ob.goal = str(simp(goal))[:1500]
            ob.pc = [str(c)[:300] for c in st.pc[-40:]]
        elif ob.status != "proved":
            ob.goal = str(goal)
            ob.pc = [str(c)[:300] for c in st.pc[-40:]]
        self.obls.append(ob)
        return ob.status == "proved"

    def instances(self, st, goal):
        out = []
        for f in self.axiom_fns:
            out.extend(f(self, st, goal))
        return out

    def entails(self, st, goal, to=1500):
        """pc and table facts |= goal, quickly"""
        if isinstance(goal, bool):
            return goal
        if goal.get_id() in st.pcset:
            return True
        self.check_deadline()
        s = self._solver(st, to, facts=False)
        s.set("arith.nl.grobner", False)
        for c in self.instances(st, goal):
            s.add(c)
        s.add(z3.Not(goal))
        t = time.time()
        r = s.check() == z3.unsat
        self.solver_time += time.time() - t
        return r

    def eq_cases(self, st, goal, depth):
        """real equality by cases on its conditional terms, after resolving loop counters"""
        fv = T.freevars(goal)
        ints = [z3.Int(n) for n in fv if n.startswith("k!")]
        if depth == 0 and any(x.num_args() == 1 and x.arg(0).sort() == I for x in apps(goal)):
            others = sorted(n for n in fv if not n.startswith("k!"))
            for kk in ints:
                for n in others:
                    v = self.inputs.get(n)
                    if v is None or not z3.is_expr(v) or v.sort() != I:
                        continue
                    for d in (0, -1, 1):
                        if self.entails(st, kk == v + d):
                            goal = simp(z3.substitute(goal, (kk, v + d)))
                            break
                    else:
                        continue
                    break
            consts = [z3.IntVal(0), z3.IntVal(1)]
            for n in others:
                v = self.inputs.get(n)
                if isinstance(goal, bool) or v is None or not z3.is_expr(v) or v.sort() != I:
                    continue
                for c in consts:
                    if self.entails(st, v == c):
                        goal = simp(z3.substitute(goal, (v, c)))
                        break
        if isinstance(goal, bool):
            return goal
        if polyid.prove_eq(goal.arg(0), goal.arg(1), [], positives(st, goal)):
            return True
        if depth > 7:
            return False
        c = first_cond(goal)
        if c is None:
            return False
        for cc in (c, b_not(c)):
            if isinstance(cc, bool):
                continue
            s2 = st.copy()
            try:
                s2.add(cc)
            except PathEnd:
                continue
            if self.entails(s2, z3.BoolVal(False)):
                continue
            g2 = simp(z3.substitute(goal, (c, z3.BoolVal(cc is c))))
            if isinstance(g2, bool):
                if g2:
                    continue
                return False
            if not z3.is_eq(g2):
                if not self.entails(s2, g2):
                    return False
                continue
            if not self.eq_cases(s2, g2, depth + 1):
                return False
        return True

    def try_prove(self, st, goal, timeout=None):
        r = self.try_prove0(st, goal, timeout)
        if r[0] != "proved" and not isinstance(goal, bool) and any_root(st.pc):
            # is the path impossible?
            key = tuple(c.get_id() for c in st.pc if z3.is_expr(c))
            if key not in self.impossible:
                t = time.time()
                self.impossible[key] = (signs.prove(st.pc, False, positives(st, z3.And(st.pc))), list(st.pc))
                self.solver_time += time.time() - t
            if self.impossible[key][0]:
                return "proved", "signs+z3", None
        return r

    def try_prove0(self, st, goal, timeout=None):
        if isinstance(goal, bool):
            if goal:
                return "proved", "simplifier", None
            # unreachable path?
            rooted = any_root(st.pc)
            if rooted and not goal:
                t = time.time()
                ok = signs.prove(st.pc, goal, positives(st, z3.And(st.pc)))
                self.solver_time += time.time() - t
                if ok:
                    return "proved", "signs+z3", None
            s = self._solver(st, timeout or self.opts["timeout"])
            for c in self.instances(st, goal):
                s.add(c)
            t = time.time()
            r = safe_check(s, timeout or self.opts["timeout"])
            if r == z3.sat:
                r = s.check()
            self.solver_time += time.time() - t
            if r == z3.unsat:
                return "proved", "z3", None
            return ("failed" if r == z3.sat else "unknown"), "z3", (self.model_of(s) if r == z3.sat else None)
        if goal.get_id() in st.pcset:
            return "proved", "simplifier", None
        if z3.is_and(goal):
            bk = None
            for c in goal.children():
                r = self.try_prove0(st, c, timeout)
                if r[0] != "proved":
                    return r
                bk = r[1]
            return "proved", bk, None
        # real equality: polynomial identity
        if z3.is_eq(goal) and goal.arg(0).sort() == R:
            t = time.time()
            eqs = []
            for c in st.pc:
                if z3.is_eq(c) and c.arg(0).sort() == R:
                    a, b = c.arg(0), c.arg(1)
                    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.is_rational_value(a):
                        if not T.freevars(a) & T.freevars(b) or a.num_args() > 0:
                            eqs.append((a, b))
            r = polyid.prove_eq(goal.arg(0), goal.arg(1), [], positives(st, goal))
            if not r and eqs:
                r = polyid.prove_eq(goal.arg(0), goal.arg(1), eqs, positives(st, goal))
            self.solver_time += time.time() - t
            if r:
                return "proved", "polynomial-normaliser", None
            if self.eq_cases(st, goal, 0):
                return "proved", "z3+polynomial-normaliser", None
        to = timeout or self.opts["timeout"]
        self.check_deadline()
        inst = self.instances(st, goal)
        t = time.time()
        s = self._solver(st, min(to, 3000), facts=False)
        for c in inst:
            s.add(c)
        s.add(z3.Not(goal))
        r = safe_check(s, min(to, 3000))
        if r != z3.unsat and any_root(st.pc + [goal]) and signs.prove(st.pc, goal, positives(st, goal)):
            self.solver_time += time.time() - t
            return "proved", "signs+z3", None
        if r == z3.sat and st.facts or r == z3.unknown:
            s2 = self._solver(st, to, facts=True)
            for c in inst:
                s2.add(c)
            s2.add(z3.Not(goal))
            r2 = safe_check(s2, to)
            if r2 != z3.unknown or r == z3.unknown:
                r, s = r2, s2
        if r == z3.unknown:
            r3 = self.alt_solvers(s, to)
            if r3 == "unsat":
                self.solver_time += time.time() - t
                return "proved", "cvc5", None
            if r3 == "sat":
                r = z3.unknown
        self.solver_time += time.time() - t
        if r == z3.unsat:
            return "proved", "z3", None
        if r == z3.sat and s.check() == z3.sat:
            return "failed", "z3", self.model_of(s)
        return "unknown", "z3+cvc5", None

    def alt_solvers(self, s, to):
        txt = s.to_smt2()
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write("(set-logic ALL)\n" + txt)
                fn = f.name
            r = subprocess.run(["cvc5", "--tlimit=%d" % int(to), "--nl-ext-tplanes", fn], capture_output=True, text=True,
                               timeout=to / 1000 + 5)
            return r.stdout.strip().split("\n")[0]
        except Exception:
            return "unknown"
        finally:
            try:
                os.unlink(fn)
            except Exception:
                pass

    def model_of(self, s):
        m = s.model()
        out = {}
        for n, t in self.inputs.items():
            try:
                if callable(t):
                    out[n] = t(m)
                    continue
                v = m.eval(zb(t) if isinstance(t, bool) else t, model_completion=True)
                if z3.is_bv_value(v):
                    out[n] = v.as_signed_long()
                elif z3.is_algebraic_value(v):
                    out[n] = float(v.approx(20).as_fraction())
                else:
                    nv = T.numval(v)
                    out[n] = float(nv) if isinstance(nv, Fraction) else nv
            except Exception:
                pass
        return out

    # ---------------------------------------------------------------- memory
    def new_obj(self, st, name, size, heap=False, kind="cells", stride=None, base=None, vt=None, const=False):
        o = Obj()
        o.id = self.nextobj
        self.nextobj += 1
        o.name, o.size, o.heap, o.kind = name, size, heap, kind
        o.cells = {} if kind == "cells" else None
        o.fill = ()
        o.stride, o.base, o.log = stride, base, ()
        o.freed = False
        o.count = None
        o.const = const
        o.vt = vt
        o.frame = None
        o.tag = None
        st.mem[o.id] = o
        return o

    def obj(self, st, p):
        return st.mem[p.obj]

    def lifetime(self, st, p, start):
        """a local object enters or leaves its scope: outside it, it may not be accessed
        and its former contents are gone"""
        if not isinstance(p, Ptr) or not conc(p.off) or p.off != 0:
            return
        o = st.mem.get(p.obj)
        if o is None or o.heap or o.count is not None or not o.name.startswith("alloca:") or o.kind != "cells":
            return
        o = o.clone()
        o.cells, o.fill, o.log = {}, (), ()
        o.freed = not start
        self.wr(st, o)

    def wr(self, st, o):
        st.mem[o.id] = o

    def osize(self, o, inst):
        return o.size(inst) if callable(o.size) else o.size

    def check_access(self, st, p, sz, what):
        if not isinstance(p, Ptr):
            if isinstance(p, Undef):
                self.prove(st, False, "no-undef-pointer", "mem", what)
                raise PathEnd()
            raise Unsupported("access through non-pointer %s" % (p,))
        if p.obj == 0:
            self.prove(st, False, "no-null-dereference", "mem", what)
            raise PathEnd()
        o = st.mem[p.obj]
        if not self.opts["bounds"]:
            return o
        conds = []
        size = self.osize(o, p.inst)
        if size is not None:
            if not (conc(p.off) and conc(size) and 0 <= p.off and p.off + sz <= size):
                conds.append(cmpop("<=", 0, p.off))
                conds.append(cmpop("<=", T.i_add(p.off, sz), size))
        if o.count is not None:
            conds.append(cmpop("<=", 0, p.inst))
            conds.append(cmpop("<", p.inst, o.count))
            for fnc in (o.freed or ()):
                conds.append(b_not(fnc(p.inst)))
        elif o.freed is not False:
            conds.append(b_not(o.freed))
        c = b_and(*conds)
        if c is not True:
            if self.quiet or self.prove(st, c, "memory-safe-access", "mem", what):
                if not isinstance(c, bool):
                    st.add(c)
                elif c is False:
                    raise PathEnd()
            else:
                if isinstance(c, bool):
                    raise PathEnd()
                st.add(c)   # report once, go on under the assumption
        return o

    def idx_of(self, off, stride):
        """off / stride when provably divisible"""
        if conc(off):
            return off // stride if off % stride == 0 else None
        if stride == 1:
            return off
        s = isimp(off)
        if conc(s):
            return s // stride if s % stride == 0 else None

        def div(t):
            if z3.is_int_value(t):
                v = t.as_long()
                return z3.IntVal(v // stride) if v % stride == 0 else None
            k = t.decl().kind()
            if k == z3.Z3_OP_ADD:
                r = [div(c) for c in t.children()]
                return None if any(x is None for x in r) else z3.Sum(*r)
            if k == z3.Z3_OP_SUB:
                r = [div(c) for c in t.children()]
                if any(x is None for x in r):
                    return None
                a = r[0]
                for x in r[1:]:
                    a = a - x
                return a
            if k == z3.Z3_OP_MUL:
                ch = t.children()
                for i, c in enumerate(ch):
                    if z3.is_int_value(c) and c.as_long() % stride == 0:
                        q = c.as_long() // stride
                        rest = ch[:i] + ch[i + 1:]
                        a = rest[0]
                        for x in rest[1:]:
                            a = a * x
                        return a if q == 1 else q * a
                for i, c in enumerate(ch):
                    d = div(c)
                    if d is not None:
                        rest = ch[:i] + ch[i + 1:]
                        a = d
                        for x in rest:
                            a = a * x
                        return a
            if k == z3.Z3_OP_ITE:
                a, b = div(t.arg(1)), div(t.arg(2))
                if a is not None and b is not None:
                    return z3.If(t.arg(0), a, b)
            if k == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0 and t.arg(1).as_long() % stride == 0:
                a = div(t.arg(0))
                if a is not None:
                    return a % (t.arg(1).as_long() // stride)
            return None
        r = div(s)
        if r is None:
            return None
        return isimp(r)

    def load(self, st, p, ty, what=""):
        k = ty.k
        if k in ("struct", "arr") and ty.size() > 0:
            if k == "arr":
                return tuple(self.load(st, self.padd(p, i * ty.a[1].size()), ty.a[1], what) for i in range(ty.a[0]))
            return tuple(self.load(st, self.padd(p, o), t, what) for o, t in zip(ty.offsets(), ty.a[0]))
        if k == "vec":
            return tuple(self.load(st, self.padd(p, i * ty.a[1].size()), ty.a[1], what) for i in range(ty.a[0]))
        sz = ty.size()
        o = self.check_access(st, p, sz, what)
        v = self.raw_load(st, o, p, sz, ty)
        return self.coerce(v, ty)

    def padd(self, p, d):
        return Ptr(p.obj, T.i_add(p.off, d), p.inst)

    def coerce(self, v, ty):
        k = ty.k
        if isinstance(v, Undef):
            if k in ("double", "float", "fp80"):
                return fresh("undef", R)
            if k == "int":
                if ty.a == 1:
                    return fresh("undef", B)
                return self.fresh_int("undef", ty.a)
            return UNDEF
        if isinstance(v, Concat):
            if k == "int":
                return v
            raise Unsupported("concat as " + k)
        if k in ("double", "float", "fp80"):
            if isinstance(v, Fraction) or (not conc(v) and not isinstance(v, (Ptr, FuncPtr)) and v.sort() == R):
                return v
            if conc(v) and v == 0:
                return Fraction(0)
            if conc(v) and k == "double":
                import struct
                return Fraction(struct.unpack("<d", struct.pack("<q", int(v)))[0])
            raise Unsupported("type-punned load as " + k)
        if k == "ptr":
            if isinstance(v, (Ptr, FuncPtr)):
                return v
            if conc(v) and v == 0:
                return NULL
            raise Unsupported("type-punned pointer load")
        if k == "int":
            return v
        return v

    def fresh_int(self, prefix, bits):
        if self.bv:
            return fresh(prefix, z3.BitVecSort(bits))
        v = fresh(prefix, I)
        self.rng[v.decl().name()] = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        return v

    def raw_load(self, st, o, p, sz, ty):
        if o.kind == "region":
            if sz != o.stride and o.stride is not None:
                if o.stride < sz and sz % o.stride == 0:
                    parts = []
                    for q in range(sz // o.stride):
                        parts.append((q * o.stride, o.stride,
                                      self.raw_load(st, o, self.padd(p, q * o.stride), o.stride, INT(8 * o.stride))))
                    return Concat(parts, sz)
                raise Unsupported("region %s stride %s access size %s" % (o.name, o.stride, sz))
            if o.stride is None:
                o = o.clone()
                o.stride = sz
                self.type_region(o, ty)
                self.wr(st, o)
            idx = self.idx_of(p.off, o.stride)
            if idx is None:
                raise Unsupported("unaligned region access %s / %s" % (p.off, o.stride))
            return self.region_read(st, o, idx, p.inst, ty)
        off = p.off
        if not conc(off):
            off = isimp(off)
        if conc(off):
            return self.cell_read(o, off, sz)
        # symbolic offset into cells
        cands = sorted(k for k, (s, v) in o.cells.items() if s == sz)
        strided = [k for k in cands]
        if not strided:
            if o.fill:
                return self.fill_val(o, 0, sz)
            return UNDEF
        # candidates congruent with possible offset
        i = self.idx_of(off, sz)
        feas = []
        for k in strided:
            c = cmpop("==", off, k)
            c = simp(c)
            if c is False:
                continue
            feas.append((k, c))
        vals = [o.cells[k][1] for k, c in feas]
        if not feas:
            return UNDEF
        if any(isinstance(v, (Ptr, FuncPtr, Undef, Concat)) for v in vals):
            feas = [(k, c) for k, c in feas if self.feasible(st, c)]
            for k, c in feas[:-1]:
                if self.decide(st, c):
                    return o.cells[k][1]
            return o.cells[feas[-1][0]][1]
        # narrow with range
        lo, hi = self.rng_of(off)
        feas = [(k, c) for k, c in feas if (lo is None or k >= lo) and (hi is None or k <= hi)]
        if len(feas) > 3 and len(feas) <= 400:
            f2 = [(k, c) for k, c in feas if self.feasible(st, c)] if len(feas) <= 64 else feas
            feas = f2 or feas
        r = o.cells[feas[-1][0]][1]
        for k, c in reversed(feas[:-1]):
            r = self.vite(c, o.cells[k][1], r)
        return r

    def vite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if self.bv and not (isinstance(a, Fraction) or isinstance(b, Fraction)):
            if conc(a) and not conc(b) and z3.is_bv(b):
                a = z3.BitVecVal(a, b.size())
            if conc(b) and not conc(a) and z3.is_bv(a):
                b = z3.BitVecVal(b, a.size())
            if conc(a) and conc(b):
                if a == b:
                    return a
                raise Unsupported("bv ite of concretes")
            if a.eq(b):
                return a
            return z3.If(c, a, b)
        return ite(c, a, b)

    def fill_val(self, o, off, sz):
        for lo, hi, byte in reversed(o.fill):
            if (conc(lo) and conc(hi) and lo <= off and off + sz <= hi) or lo is None:
                if byte == 0:
                    return 0
                v = int.from_bytes(bytes([byte & 255]) * sz, "little", signed=True)
                return v
        return UNDEF

    def cell_read(self, o, off, sz):
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            return c[1]
        # overlapping cells
        ov = [(k, s, v) for k, (s, v) in o.cells.items() if k < off + sz and off < k + s]
        if not ov:
            return self.fill_val(o, off, sz)
        if len(ov) == 1 and ov[0][0] <= off and off + sz <= ov[0][0] + ov[0][1]:
            k, s, v = ov[0]
            if isinstance(v, (Ptr, FuncPtr)) or isinstance(v, Undef) or isinstance(v, Fraction):
                raise Unsupported("partial read of cell")
            if isinstance(v, Concat):
                for (po, ps, pv) in v.parts:
                    if k + po == off and ps == sz:
                        return pv
                raise Unsupported("partial concat read")
            return self.extract(v, s, off - k, sz)
        parts = []
        pos = off
        for k, s, v in sorted(ov, key=lambda x: x[0]):
            if k < pos or k + s > off + sz:
                raise Unsupported("overlapping cell read")
            if k > pos:
                fv = self.fill_val(o, pos, k - pos)
                parts.append((pos - off, k - pos, fv))
            parts.append((k - off, s, v))
            pos = k + s
        if pos < off + sz:
            parts.append((pos - off, off + sz - pos, self.fill_val(o, pos, off + sz - pos)))
        return Concat(parts, sz)

    def extract(self, v, s, d, sz):
        if self.bv and not conc(v):
            return z3.Extract(8 * (d + sz) - 1, 8 * d, v)
        if conc(v):
            u = int(v) & ((1 << (8 * s)) - 1)
            u = (u >> (8 * d)) & ((1 << (8 * sz)) - 1)
            return self.sgn(u, 8 * sz)
        u = self.uns(None, v, 8 * s)
        if d:
            u = u / (1 << (8 * d))
        return self.wrapi(u, 8 * sz)

    def sgn(self, u, bits):
        h = 1 << (bits - 1)
        u &= (1 << bits) - 1
        return u - (1 << bits) if u >= h else u

    def uns(self, st, v, bits):
        if conc(v):
            return int(v) & ((1 << bits) - 1)
        lo, hi = self.rng_of(v)
        if lo is not None and lo >= 0:
            return v
        if st is not None and self.quick(st, v >= 0):
            return v
        return z3.If(v < 0, v + (1 << bits), v)

    def wrapi(self, v, bits, st=None):
        """canonical signed value of mathematical integer v modulo 2^bits"""
        if conc(v):
            return self.sgn(int(v), bits)
        h = 1 << (bits - 1)
        lo, hi = self.rng_of(v)
        if lo is not None and hi is not None and -h <= lo and hi < h:
            return v
        if st is not None and self.quick(st, z3.And(v >= -h, v < h)):
            return v
        return z3.If(z3.And(v >= -h, v < h), v, (v + h) % (1 << bits) - h)

    def concat_val(self, c, st=None):
        """integer value of a Concat"""
        if not isinstance(c, Concat):
            return c
        if self.bv:
            parts = []
            for o, s, v in reversed(c.parts):
                if isinstance(v, Undef):
                    v = fresh("undef", z3.BitVecSort(8 * s))
                if conc(v):
                    v = z3.BitVecVal(int(v), 8 * s)
                parts.append(v)
            return z3.Concat(*parts) if len(parts) > 1 else parts[0]
        tot = 0
        for o, s, v in c.parts:
            if isinstance(v, Undef):
                v = self.fresh_int("undef", 8 * s)
            if isinstance(v, (Ptr, FuncPtr, Fraction)) or (not conc(v) and v.sort() == R):
                raise Unsupported("concat of non-integers used as integer")
            tot = T.i_add(tot, T.i_mul(self.uns(st, v, 8 * s), 1 << (8 * o)))
        return self.wrapi(tot, 8 * c.size, st)

    def uf_base(self, o, ty, name=None):
        nm = name or T.fresh_name("mem_" + re.sub(r"\W", "_", str(o.name)))
        if ty.k in ("double", "float"):
            rs = R
        elif ty.k == "int":
            rs = z3.BitVecSort(ty.a) if self.bv else I
        else:
            return lambda inst, idx: UNDEF
        if o.count is not None:
            f = z3.Function(nm, I, I, rs)
            b = lambda inst, idx: f(zi(inst), zi(idx))
        else:
            f = z3.Function(nm, I, rs)
            b = lambda inst, idx: f(zi(idx))
        if rs == I:
            self.rng[nm] = (-(1 << (ty.a - 1)), (1 << (ty.a - 1)) - 1)
        o.vt = ty
        return b

    def type_region(self, o, ty):
        if o.base is not None:
            return
        if o.tag == "zero":
            z = Fraction(0) if ty.k in ("double", "float") else NULL if ty.k == "ptr" else 0
            o.base = lambda inst, idx: z
            o.vt = ty
        else:
            o.base = self.uf_base(o, ty)

    def region_read(self, st, o, idx, inst, ty, log=None, pure=False):
        """value of region element; pure: never forks/solves, always ite"""
        log = o.log if log is None else log
        pend = []
        res = None
        for e in reversed(log):
            if e[0] == "w":
                _, wi, widx, val = e
                c = cmpop("==", idx, widx)
                if inst is not None:
                    c = b_and(c, cmpop("==", inst, wi))
            else:
                _, cf, vf = e
                c = cf(inst, idx)
                val = None
            if not isinstance(c, bool):
                c = simp(c)
            if c is False:
                continue
            if c is not True and not pure:
                if self.quick(st, c):
                    c = True
                elif self.quick(st, b_not(c)):
                    continue
            if val is None:
                val = e[2](inst, idx)
            if c is True:
                res = val
                break
            if isinstance(val, (Ptr, FuncPtr)) or isinstance(val, Undef):
                if pure:
                    raise Unsupported("pure read of pointer region")
                if self.decide(st, c):
                    res = val
                    break
                continue
            pend.append((c, val))
        if res is None:
            if o.base is None:
                res = UNDEF
                if pend:
                    res = self.coerce(UNDEF, ty)
            else:
                res = o.base(inst, idx)
        if pend and isinstance(res, Undef):
            res = self.coerce(UNDEF, ty)
        for c, v in reversed(pend):
            if conc(v) and v == 0 and ty.k in ("double", "float"):
                v = Fraction(0)
            res = self.vite(c, v, res)
        return res

    def store(self, st, p, ty, v, what=""):
        k = ty.k
        if k in ("struct",):
            for o, t, x in zip(ty.offsets(), ty.a[0], v if isinstance(v, tuple) else [UNDEF] * len(ty.a[0])):
                self.store(st, self.padd(p, o), t, x, what)
            return
        if k in ("arr", "vec"):
            es = ty.a[1].size()
            for i in range(ty.a[0]):
                self.store(st, self.padd(p, i * es), ty.a[1], v[i] if isinstance(v, tuple) else UNDEF, what)
            return
        sz = ty.size()
        o = self.check_access(st, p, sz, what)
        if o.const:
            self.prove(st, False, "no-write-to-const", "mem", what)
            raise PathEnd()
        if isinstance(v, bool):
            v = int(v)
        if not conc(v) and not isinstance(v, (Ptr, FuncPtr, Undef, Concat)) and z3.is_bool(v):
            v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if self.bv else z3.If(v, z3.IntVal(1), z3.IntVal(0))
        o = o.clone()
        if o.kind == "region":
            if o.stride is None:
                o.stride = sz
                self.type_region(o, ty)
            if sz != o.stride:
                if isinstance(v, Concat) and o.stride < sz:
                    for po, ps, pv in v.parts:
                        self.store(st, self.padd(p, po), INT(8 * ps), pv, what)
                    return
                raise Unsupported("region store size")
            idx = self.idx_of(p.off, o.stride)
            if idx is None:
                raise Unsupported("unaligned region store")
            if isinstance(v, Concat):
                v = self.concat_val(v, st)
            log = o.log
            if log and log[-1][0] == "w" and T.samet(log[-1][2], idx) and (p.inst is None or T.samet(log[-1][1], p.inst)):
                log = log[:-1]
            o.log = log + (("w", p.inst, idx, v),)
            self.wr(st, o)
            return
        off = p.off if conc(p.off) else isimp(p.off)
        if conc(off):
            o.cells = dict(o.cells)
            self.cell_write(o, off, sz, v)
            self.wr(st, o)
            return
        # symbolic store into cells
        cands = [(kk, s) for kk, (s, vv) in o.cells.items()]
        feas = []
        allk = range(0, o.size - sz + 1, sz) if conc(o.size) and o.size // sz <= 512 else None
        if allk is None:
            raise Unsupported("symbolic store into big cell object")
        o.cells = dict(o.cells)
        poss = [kk for kk in allk if self.feasible(st, cmpop("==", off, kk))]
        if len(poss) == 1:
            self.cell_write(o, poss[0], sz, v)
        else:
            for kk in poss:
                c = cmpop("==", off, kk)
                old = self.cell_read(o, kk, sz)
                if isinstance(v, (Ptr, FuncPtr, Undef, Concat)) or isinstance(old, (Ptr, FuncPtr, Concat)):
                    if self.decide(st, c):
                        o.cells = dict(o.cells)
                        self.cell_write(o, kk, sz, v)
                        break
                    continue
                if isinstance(old, Undef):
                    old = self.coerce(UNDEF, ty)
                if ty.k in ("double", "float") and conc(old):
                    old = Fraction(old)
                self.cell_write(o, kk, sz, self.vite(c, v, old))
        self.wr(st, o)

    def cell_write(self, o, off, sz, v):
        if off not in o.cells or o.cells[off][0] != sz or len(o.cells) == 0:
            for k in [k for k, (s, _) in o.cells.items() if k < off + sz and off < k + s]:
                s, old = o.cells.pop(k)
                if k < off or k + s > off + sz:
                    # keep remaining bytes when they can be split
                    if isinstance(old, Concat):
                        for po, ps, pv in old.parts:
                            if k + po + ps <= off or k + po >= off + sz:
                                o.cells[k + po] = (ps, pv)
                        continue
                    if isinstance(old, (Ptr, FuncPtr, Fraction, Undef)) or (not conc(old) and old.sort() == R):
                        if isinstance(old, Fraction) and old == 0:
                            old = 0
                        else:
                            continue
                    for b in range(s):
                        if k + b < off or k + b >= off + sz:
                            o.cells[k + b] = (1, self.extract(old, s, b, 1))
        if isinstance(v, Concat):
            o.cells.pop(off, None)
            for po, ps, pv in v.parts:
                o.cells[off + po] = (ps, pv)
            return
        o.cells[off] = (sz, v)

    # ---------------------------------------------------------------- constants
    def glob(self, st, name):
        if name in self.mod.aliases and name not in self.mod.globals:
            name = self.mod.aliases[name]
        if name in self.mod.funcs or name in self.mod.decls:
            return FuncPtr(name)
        key = "@" + name
        oid = self.gids.get(name)
        if oid is None:
            self.gids[name] = oid = self.nextobj
            self.nextobj += 1
        if oid not in st.mem:
            g = self.mod.globals.get(name)
            o = Obj()
            o.id = oid
            o.name = key
            o.heap = False
            o.kind = "cells"
            o.cells = {}
            o.fill = ()
            o.stride = o.base = o.count = o.vt = o.frame = None
            o.tag = None
            o.log = ()
            o.freed = False
            o.const = False
            if g is None:
                o.size = None
                st.mem[oid] = o
                return Ptr(oid, 0)
            o.size = g.ty.size() if g.ty.k != "fn" else 8
            st.mem[oid] = o
            if g.init is not None:
                self.init_const(st, o, 0, g.ty, g.init)
            else:
                h = self.opts.get("extern_globals", {}).get(name)
                if h:
                    h(self, st, o)
            o.const = g.const
        return Ptr(oid, 0)

    def init_const(self, st, o, off, ty, init):
        k = init[0]
        if k == "zero":
            o.fill = o.fill + ((off, off + ty.size(), 0),)
            return
        if k == "undef":
            return
        if k == "str":
            for i, b in enumerate(init[1]):
                o.cells[off + i] = (1, self.sgn(b, 8))
            return
        if k == "agg":
            if ty.k == "struct":
                for oo, t, (t2, e) in zip(ty.offsets(), ty.a[0], init[1]):
                    self.init_const(st, o, off + oo, t, e)
            else:
                es = ty.a[1].size()
                for i, (t2, e) in enumerate(init[1]):
                    self.init_const(st, o, off + i * es, ty.a[1], e)
            return
        o.cells[off] = (ty.size(), self.constop(st, ty, init))

    def constop(self, st, ty, op):
        k = op[0]
        if k == "int":
            if ty.k == "int":
                if ty.a == 1:
                    return bool(op[1] & 1)
                return self.sgn(op[1], ty.a)
            return op[1]
        if k == "fp":
            if isinstance(op[1], str):
                return z3.Const("FP_" + op[1], R)
            return op[1]
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "glob":
            return self.glob(st, op[1])
        if k == "zero":
            if ty.k == "struct":
                return tuple(self.constop(st, t, op) for t in ty.a[0])
            if ty.k in ("arr", "vec"):
                return tuple(self.constop(st, ty.a[1], op) for _ in range(ty.a[0]))
            if ty.k == "ptr":
                return NULL
            return Fraction(0) if ty.k in ("double", "float") else 0
        if k == "agg":
            return tuple(self.constop(st, t, e) for t, e in op[1])
        if k == "cexpr":
            if op[1] == "gep":
                bt, args = op[2], op[3]
                base = self.constop(st, *args[0])
                return self.gep(st, bt, base, [(t, self.constop(st, t, e)) for t, e in args[1:]])
            if op[1] in ("ptrtoint",):
                v = self.constop(st, *op[2])
                return self.p2i(v)
            if op[1] in ("bitcast", "inttoptr"):
                return self.constop(st, *op[2])
            if op[1] in ("sub", "add"):
                a = self.constop(st, *op[2])
                b = self.constop(st, *op[3])
                return isimp(T.i_sub(a, b) if op[1] == "sub" else T.i_add(a, b))
            if op[1] == "trunc":
                return self.constop(st, *op[2])
        raise Unsupported("constant %s" % (op,))

    def val(self, st, env, ty, op):
        if op[0] == "loc":
            v = env[op[1]]
            return v
        return self.constop(st, ty, op)

    def ival(self, st, env, ty, op):
        v = self.val(st, env, ty, op)
        if isinstance(v, Concat):
            v = self.concat_val(v, st)
        if isinstance(v, Undef):
            v = self.coerce(v, ty)
        return v

    def gep(self, st, bt, base, idx):
        if isinstance(base, FuncPtr):
            raise Unsupported("gep on function")
        if not isinstance(base, Ptr):
            if isinstance(base, Undef):
                return UNDEF
            raise Unsupported("gep on non pointer")
        off = base.off
        cur = None
        for n, (t, i) in enumerate(idx):
            if isinstance(i, Concat):
                i = self.concat_val(i, st)
            if self.bv and not conc(i):
                i = z3.BV2Int(i, True)
            if n == 0:
                off = T.i_add(off, T.i_mul(i, bt.size()))
                cur = bt
            elif cur.k == "struct":
                off = T.i_add(off, cur.offsets()[i])
                cur = cur.a[0][i]
            else:
                cur = cur.a[1]
                off = T.i_add(off, T.i_mul(i, cur.size()))
        return Ptr(base.obj, off, base.inst)

    def p2i(self, v):
        if isinstance(v, Ptr):
            if v.obj == 0:
                return v.off
            nm = "addr!%d" % v.obj
            a = z3.Int(nm) if v.inst is None else z3.Function(nm, I, I)(zi(v.inst))
            return T.i_add(a, v.off)
        if isinstance(v, FuncPtr):
            return z3.Int("faddr!" + v.name)
        raise Unsupported("ptrtoint")

    # ---------------------------------------------------------------- execution
    def run_harness(self, name):
        self.gids = getattr(self, "gids", {})
        st = State()
        fn = self.mod.get(name)
        if fn is None:
            raise Unsupported("no function " + name)
        outs = self.run_function(fn, [], st, 0)
        for kind, s, v in outs:
            self.completed.append((kind, s))
        return outs

    def run_function(self, fn, args, st, depth):
        if depth > self.opts.get("max_depth", 120):
            raise Unsupported("recursion depth in " + fn.demangled)
        if not fn.name.startswith("H_"):
            self.funcs_used.add(fn.demangled)
        env = {}
        for (t, n), a in zip(fn.args, args):
            env[n] = a
        fr = Frame(fn, depth)
        fr.outs = []
        it = Item(fn.order[0], 0, env, st, None)
        backs, exits = self.explore(fr, [it], None)
        assert not backs and not exits
        return fr.outs

    def explore(self, fr, items, loop):
        fn = fr.fn
        loops = fn.loops()
        backs, exits = [], []
        work = list(items)
        pending = {}
        merging = self.opts.get("merge")
        from . import merge

        def route(it, src, dst):
            """transfer it from block src to dst"""
            it.prev = src
            it.block = dst
            it.idx = 0
            if loop is not None:
                if dst == loop.header:
                    backs.append(it)
                    return
                if dst not in loop.blocks:
                    exits.append(it)
                    return
            L2 = loops.get(dst)
            if L2 is not None and src not in L2.blocks:
                if merging:
                    pending.setdefault(dst, []).append(it)
                    return
                for e in self.enter_loop(fr, L2, it):
                    route2(e)
                return
            work.append(it)

        def route2(e):
            src, dst = e.prev, e.block
            if loop is not None:
                if dst == loop.header:
                    backs.append(e)
                    return
                if dst not in loop.blocks:
                    exits.append(e)
                    return
            L2 = loops.get(dst)
            if L2 is not None and src not in L2.blocks:
                if merging:
                    pending.setdefault(dst, []).append(e)
                    return
                for x in self.enter_loop(fr, L2, e):
                    route2(x)
                return
            work.append(e)

        while work or pending:
            if not work:
                # every path has come to a loop, or left: join those at the first loop
                h = min(pending, key=lambda b: fn.rpo().get(b, 0))
                for x in merge.items(self, fr, h, pending.pop(h)):
                    try:
                        for e in self.enter_loop(fr, loops[h], x):
                            route2(e)
                    except PathEnd:
                        pass
                continue
            it = work.pop()
            try:
                self.step_block(fr, it, loop, work, route)
            except PathEnd:
                pass
        return backs, exits

    def route_flag(self, b, br):
        """is the branch on a phi of this block that only tells where control came from?"""
        if br.a[0][1][0] != "loc":
            return False
        n = br.a[0][1][1]
        for ins in b.ins:
            if ins.res != n:
                continue
            ops = [(ins.ty, ("loc", n))] if ins.op == "phi" else list(ins.a[1:]) if ins.op == "icmp" else []
            locs = [o[1][1] for o in ops if isinstance(o, tuple) and o[1][0] == "loc"]
            if not locs or len(locs) > 1:
                return False
            for p in b.ins[:b.nphi]:
                if p.res == locs[0]:
                    return all(op[0] in ("int", "true", "false") for src, op in p.a)
        return False

    def phis(self, fr, it):
        b = fr.fn.blocks[it.block]
        if b.nphi and it.prev != "!merged":
            vals = []
            for ins in b.ins[:b.nphi]:
                for src, op in ins.a:
                    if src == it.prev:
                        vals.append((ins.res, self.val(it.st, it.env, ins.ty, op)))
                        break
                else:
                    raise Unsupported("phi without incoming %s" % it.prev)
            it.env = dict(it.env)
            for r, v in vals:
                it.env[r] = v
        it.idx = b.nphi

    def step_block(self, fr, it, loop, work, route):
        b = fr.fn.blocks[it.block]
        if it.idx == 0:
            self.phis(fr, it)
            it.env = dict(it.env)
        n = len(b.ins)
        while it.idx < n:
            ins = b.ins[it.idx]
            self.ninstr += 1
            try:
                if ins.op == "br":
                    if ins.a[0] is None:
                        route(it, it.block, ins.a[1])
                        return
                    c = self.val(it.st, it.env, *ins.a[0])
                    if isinstance(c, Undef):
                        c = fresh("undef", B)
                    if not isinstance(c, bool):
                        c = simp(c)
                    if isinstance(c, bool):
                        if loop is not None and (ins.a[1] not in loop.blocks or ins.a[2] not in loop.blocks) and \
                                not (it.block != loop.header and self.route_flag(b, ins)):
                            it.cex = True
                        route(it, it.block, ins.a[1] if c else ins.a[2])
                        return
                    d = self.decide(it.st, c)
                    route(it, it.block, ins.a[1] if d else ins.a[2])
                    return
                if ins.op == "switch":
                    t, op = ins.a[0]
                    c = self.ival(it.st, it.env, t, op)
                    for v, lab in ins.a[2]:
                        cc = self.eqv(c, self.sgn(v, t.a) if t.a > 1 else v, t.a)
                        if self.decide(it.st, cc):
                            route(it, it.block, lab)
                            return
                    route(it, it.block, ins.a[1])
                    return
                if ins.op == "ret":
                    v = None
                    if ins.a is not None:
                        v = self.val(it.st, it.env, *ins.a)
                    fr.outs.append(("ret", it.st, v))
                    return
                if ins.op == "resume":
                    fr.outs.append(("throw", it.st, it.env.get("!exc")))
                    return
                if ins.op == "unreachable":
                    self.prove(it.st, False, "unreachable-not-reached", "ub", fr.fn.demangled)
                    return
                if ins.op in ("call", "invoke"):
                    done = self.exec_call(fr, it, ins, work, route)
                    if done:
                        return
                    it.idx += 1
                    continue
                self.exec_ins(fr, it, ins)
                it.idx += 1
            except Fork as f:
                self.npaths += 1
                self.check_deadline()
                if self.npaths > self.opts["max_paths"] and not self.quiet:
                    raise Unsupported("too many paths")
                if self.npaths > 20 * self.opts["max_paths"]:
                    raise Unsupported("too many paths (probe)")
                for c in (b_not(f.cond), f.cond):
                    s2 = it.st.copy()
                    try:
                        s2.add(c)
                    except PathEnd:
                        continue
                    i2 = Item(it.block, it.idx, it.env.copy(), s2, it.prev, it.cex)
                    work.append(i2)
                return

    def eqv(self, c, v, bits):
        if self.bv and not conc(c):
            return c == z3.BitVecVal(v, bits)
        return cmpop("==", c, v)

    def exec_call(self, fr, it, ins, work, route):
        callee, args = ins.a[0], ins.a[1]
        st = it.st
        if callee[0] == "glob":
            name = callee[1]
            if name in self.mod.aliases and name not in self.mod.funcs:
                name = self.mod.aliases[name]
        else:
            fp = self.val(st, it.env, PTR, callee)
            if not isinstance(fp, FuncPtr):
                if isinstance(fp, Ptr) and fp.obj == 0:
                    self.prove(st, False, "no-null-call", "mem", fr.fn.demangled)
                    raise PathEnd()
                raise Unsupported("indirect call")
            name = fp.name
        if name.startswith("llvm.lifetime."):
            self.lifetime(st, self.val(st, it.env, PTR, args[1][1]), name.startswith("llvm.lifetime.start"))
        if name.startswith("llvm.lifetime") or name.startswith("llvm.experimental.noalias") or \
                name.startswith("llvm.dbg") or name.startswith("llvm.invariant") or name == "llvm.donothing":
            if ins.op == "invoke":
                route(it, it.block, ins.a[2])
                return True
            return False
        av = []
        for t, a in args:
            if t.k == "metadata":
                av.append(UNDEF)
            else:
                av.append(self.val(st, it.env, t, a))
        h = self.handler_for(name)
        if h is not None:
            self.curfn = fr.fn
            call = CallCtx(self, fr, it, ins, name, [t for t, _ in args])
            r = h(call, st, av)
            if isinstance(r, list):      # explicit outcomes
                outs = r
            else:
                if ins.res is not None:
                    it.env[ins.res] = r
                if ins.op == "invoke":
                    route(it, it.block, ins.a[2])
                    return True
                return False
        else:
            fn = self.mod.get(name)
            if fn is None:
                raise Unsupported("call to external function %s" % self.mod.dem.get(name, name))
            for i, (t, a) in enumerate(args):
                if isinstance(av[i], Concat) and False:
                    av[i] = self.concat_val(av[i], st)
            outs = self.run_function(fn, av, st, fr.depth + 1)
            if self.opts.get("merge") and len(outs) > 1:
                from . import merge
                outs = merge.outs(self, outs)
        if len(outs) == 1 and outs[0][0] == "ret":
            it.st = outs[0][1]
            if ins.res is not None:
                it.env[ins.res] = outs[0][2]
            if ins.op == "invoke":
                route(it, it.block, ins.a[2])
                return True
            return False
        for kind, s, v in outs:
            if kind == "throw":
                i2 = Item(it.block, it.idx + 1, dict(it.env), s, it.prev, it.cex)
                if ins.op == "invoke" and self.catches(fr, i2, ins.a[3], v):
                    route(i2, it.block, ins.a[3])
                else:
                    fr.outs.append(("throw", s, v))
                continue
            i2 = Item(it.block, it.idx + 1, dict(it.env), s, it.prev, it.cex)
            if ins.res is not None:
                i2.env[ins.res] = v
            if ins.op == "invoke":
                route(i2, it.block, ins.a[2])
            else:
                work.append(i2)
        return True

    def st_name(self, st, p):
        o = st.mem.get(p.obj) if isinstance(p, Ptr) else None
        return (o.name or "").lstrip("@") if o is not None else None

    def catches(self, fr, it, pad, exc):
        """does the landing pad take the exception (ptr, type)? binds its value"""
        lp = next(i for i in fr.fn.blocks[pad].ins if i.op == "landingpad")
        cl, cleanup = lp.a
        ptr, ty = exc if exc else (NULL, None)
        sel = 0
        for c in cl:
            if c is None or (ty is not None and typeid(c) in bases(ty)):
                sel = typeid_no(c)
                break
        else:
            if not cleanup:
                return False
        it.env["!exc"] = exc
        if lp.res is not None:
            it.env[lp.res] = (ptr, sel)
        return True

    # ---- plain instructions
    def exec_ins(self, fr, it, ins):
        op = ins.op
        st, env = it.st, it.env
        if op == "load":
            p = self.val(st, env, *ins.a[0])
            env[ins.res] = self.tobool(self.load(st, p, ins.ty, fr.fn.demangled), ins.ty)
            return
        if op == "store":
            (t, v), (pt, p) = ins.a
            vv = self.val(st, env, t, v)
            pp = self.val(st, env, pt, p)
            self.store(st, pp, t, vv, fr.fn.demangled)
            return
        if op == "gep":
            bt, args = ins.a
            base = self.val(st, env, *args[0])
            env[ins.res] = self.gep(st, bt, base, [(t, self.val(st, env, t, a)) for t, a in args[1:]])
            return
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a = self.val(st, env, *ins.a[0])
            b = self.val(st, env, *ins.a[1])
            if ins.ty.k == "vec":
                n, et = ins.ty.a
                a = a if isinstance(a, tuple) else tuple(self.coerce(UNDEF, et) for _ in range(n))
                b = b if isinstance(b, tuple) else tuple(self.coerce(UNDEF, et) for _ in range(n))
                f = {"fadd": T.r_add, "fsub": T.r_sub, "fmul": T.r_mul, "fdiv": T.r_div}[op]
                env[ins.res] = tuple(f(x, y) for x, y in zip(a, b))
                return
            a, b = self.coerce(a, DOUBLE), self.coerce(b, DOUBLE)
            env[ins.res] = {"fadd": T.r_add, "fsub": T.r_sub, "fmul": T.r_mul, "fdiv": T.r_div}[op](a, b)
            return
        if op == "fneg":
            a = self.coerce(self.val(st, env, *ins.a[0]), DOUBLE)
            env[ins.res] = -Fraction(a) if conc(a) else -a
            return
        if op == "frem":
            a = self.coerce(self.val(st, env, *ins.a[0]), DOUBLE)
            b = self.coerce(self.val(st, env, *ins.a[1]), DOUBLE)
            from . import lib
            env[ins.res] = lib.fmod_(self, st, a, b)
            return
        if op == "fcmp":
            pred, (t, a), (_, b) = ins.a
            a = self.coerce(self.val(st, env, t, a), DOUBLE)
            b = self.coerce(self.val(st, env, t, b), DOUBLE)
            env[ins.res] = self.fcmp(pred, a, b)
            return
        if op == "icmp":
            pred, (t, a), (_, b) = ins.a
            a = self.val(st, env, t, a)
            b = self.val(st, env, t, b)
            env[ins.res] = self.icmp(st, pred, t, a, b)
            return
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            t = ins.ty
            a = self.val(st, env, *ins.a[0])
            b = self.val(st, env, *ins.a[1])
            env[ins.res] = self.binop(st, op, t, a, b, ins.flags, fr)
            return
        if op == "select":
            (ct, c), (t, a), (_, b) = ins.a
            c = self.val(st, env, ct, c)
            if isinstance(c, Undef):
                c = fresh("undef", B)
            if not isinstance(c, bool):
                c = simp(c)
            if isinstance(c, bool):
                env[ins.res] = self.val(st, env, t, a if c else b)
                return
            a = self.val(st, env, t, a)
            b = self.val(st, env, t, b)
            if same(a, b):
                env[ins.res] = a
                return
            if t.k in ("ptr", "struct", "arr", "vec") or isinstance(a, (Undef, Concat)) or isinstance(b, (Undef, Concat)) \
                    or self.opts.get("fork_select"):
                env[ins.res] = a if self.decide(st, c) else b
                return
            if self.quick(st, c):
                env[ins.res] = a
                return
            if self.quick(st, b_not(c)):
                env[ins.res] = b
                return
            if t.k == "int" and t.a == 1:
                env[ins.res] = b_or(b_and(c, a), b_and(b_not(c), b))
                return
            if t.k in ("double", "float"):
                # keep real terms ite-free: fork
                env[ins.res] = a if self.decide(st, c) else b
                return
            if self.bv and conc(a) and conc(b):
                a = z3.BitVecVal(int(a), t.a)
            v = self.vite(c, a, b)
            env[ins.res] = v
            return
        if op in ("sext", "zext", "trunc"):
            (t, a), t2 = ins.a
            v = self.val(st, env, t, a)
            if isinstance(v, Concat):
                if op == "trunc":
                    for po, ps, pv in v.parts:
                        if po == 0 and ps * 8 == t2.a and not isinstance(pv, Undef):
                            env[ins.res] = pv
                            return
                v = self.concat_val(v, st)
            if isinstance(v, Undef):
                v = self.coerce(v, t)
            env[ins.res] = self.cast(st, op, v, t, t2)
            return
        if op in ("sitofp", "uitofp"):
            (t, a), t2 = ins.a
            v = self.ival(st, env, t, a)
            if self.bv and not conc(v) and not z3.is_bool(v):
                v = z3.BV2Int(v, op == "sitofp")
            elif op == "uitofp":
                if t.a == 1:
                    env[ins.res] = Fraction(int(v)) if isinstance(v, bool) else z3.If(v, z3.RealVal(1), z3.RealVal(0))
                    return
                v = self.uns(st, v, t.a)
            if not conc(v) and z3.is_bool(v):
                env[ins.res] = z3.If(v, z3.RealVal(-1), z3.RealVal(0))
                return
            env[ins.res] = T.i2r(v)
            return
        if op in ("fptosi", "fptoui"):
            (t, a), t2 = ins.a
            v = self.coerce(self.val(st, env, t, a), DOUBLE)
            if conc(v):
                q = int(v)   # truncation
                env[ins.res] = q
                return
            r = self.fresh_int("trunc", t2.a)
            # r = trunc(v)
            st.facts.append(z3.If(v >= 0, z3.And(z3.ToReal(r) <= v, v < z3.ToReal(r) + 1, r >= 0),
                                  z3.And(z3.ToReal(r) >= v, v > z3.ToReal(r) - 1, r <= 0)))
            lo, hi = -(1 << (t2.a - 1)), (1 << (t2.a - 1)) - 1
            if op == "fptoui":
                lo, hi = 0, (1 << t2.a) - 1
            if self.opts["overflow"]:
                self.prove(st, z3.And(v > lo - 1, v < hi + 1), "float-to-int-in-range", "ub", fr.fn.demangled)
            r2 = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            env[ins.res] = r2
            return
        if op in ("fpext", "fptrunc", "freeze"):
            env[ins.res] = self.coerce(self.val(st, env, *ins.a[0]), ins.a[0][0])
            return
        if op == "bitcast":
            (t, a), t2 = ins.a
            v = self.val(st, env, t, a)
            if t.k == t2.k:
                env[ins.res] = v
                return
            if conc(v):
                env[ins.res] = self.coerce(v, t2) if t2.k == "double" else self.f2bits(v)
                return
            if t2.k == "int" and t.k == "double":
                env[ins.res] = Concat([(0, 8, v)], 8)
                return
            if t2.k == "double" and isinstance(v, Concat) and len(v.parts) == 1:
                env[ins.res] = v.parts[0][2]
                return
            raise Unsupported("bitcast")
        if op == "ptrtoint":
            env[ins.res] = self.p2i(self.val(st, env, *ins.a[0][:2]))
            return
        if op == "inttoptr":
            v = self.val(st, env, *ins.a[0])
            if conc(v) and v == 0:
                env[ins.res] = NULL
                return
            if not conc(v) and not isinstance(v, Concat):
                fv = [x for x in T.freevars(v) if x.startswith("addr!")]
                if len(fv) == 1:
                    oid = int(fv[0][5:])
                    env[ins.res] = Ptr(oid, isimp(v - z3.Int(fv[0])))
                    return
            raise Unsupported("inttoptr")
        if op == "alloca":
            t, n = ins.a
            cnt = 1
            if n is not None:
                cnt = self.ival(st, env, *n)
            sz = T.i_mul(cnt, t.size())
            o = self.new_obj(st, "alloca:%s:%s" % (fr.fn.demangled[:40], ins.res), sz)
            if not conc(sz):
                o.kind = "region"
                o.cells = None
            elif ins.res in fr.fn.scoped():
                o.freed = True
            env[ins.res] = Ptr(o.id, 0)
            return
        if op == "extractvalue":
            v = self.val(st, env, *ins.a[0])
            for i in ins.a[1]:
                v = v[i] if isinstance(v, tuple) else UNDEF
            env[ins.res] = v
            return
        if op == "insertvalue":
            (t, v), e, idx = ins.a
            vv = self.val(st, env, t, v)
            ee = self.val(st, env, *e)

            def ins_(t, v, idx):
                n = len(t.a[0]) if t.k == "struct" else t.a[0]
                l = list(v) if isinstance(v, tuple) else [UNDEF] * n
                if len(idx) == 1:
                    l[idx[0]] = ee
                else:
                    t2 = t.a[0][idx[0]] if t.k == "struct" else t.a[1]
                    l[idx[0]] = ins_(t2, l[idx[0]], idx[1:])
                return tuple(l)
            env[ins.res] = ins_(t, vv, idx)
            return
        if op == "landingpad":
            return               # bound by catches()
        raise Unsupported("instruction " + str(ins))

    def f2bits(self, v):
        import struct
        return struct.unpack("<q", struct.pack("<d", float(v)))[0]

    def tobool(self, v, ty):
        if ty.k == "int" and ty.a == 1 and not isinstance(v, bool) and not isinstance(v, (Undef, Concat)):
            if conc(v):
                return bool(v & 1)
            if z3.is_bool(v):
                return v
            return cmpop("!=", v, 0)
        return v

    def fcmp(self, pred, a, b):
        if pred in ("ord", "uno"):
            return pred == "ord"
        if pred == "true" or pred == "false":
            return pred == "true"
        o = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[pred[1:]]
        return cmpop(o, a, b)

    def icmp(self, st, pred, t, a, b):
        if t.k == "ptr" or isinstance(a, (Ptr, FuncPtr)) or isinstance(b, (Ptr, FuncPtr)):
            if isinstance(a, Undef) or isinstance(b, Undef):
                return fresh("undef", B)
            if isinstance(a, FuncPtr) or isinstance(b, FuncPtr):
                e = same(a, b)
                return e if pred == "eq" else (not e)
            if a.obj != b.obj:
                if pred == "eq":
                    return False
                if pred == "ne":
                    return True
                raise Unsupported("ordering of unrelated pointers")
            if a.inst is not None:
                ei = cmpop("==", a.inst, b.inst)
                e = b_and(ei, cmpop("==", a.off, b.off))
                if pred == "eq":
                    return e
                if pred == "ne":
                    return b_not(e)
            x, y = a.off, b.off
            return cmpop({"eq": "==", "ne": "!=", "slt": "<", "ult": "<", "sle": "<=", "ule": "<=", "sgt": ">",
                          "ugt": ">", "sge": ">=", "uge": ">="}[pred], x, y)
        if isinstance(a, Concat):
            if isinstance(b, Concat) and pred in ("eq", "ne"):
                pass
            a = self.concat_val(a, st)
        if isinstance(b, Concat):
            b = self.concat_val(b, st)
        a = self.coerce(a, t)
        b = self.coerce(b, t)
        if t.a == 1:
            if pred == "eq":
                if isinstance(b, bool):
                    return a if b else b_not(a)
                if isinstance(a, bool):
                    return b if a else b_not(b)
                return a == b
            if pred == "ne":
                if isinstance(b, bool):
                    return b_not(a) if b else a
                if isinstance(a, bool):
                    return b_not(b) if a else b
                return a != b
            raise Unsupported("icmp i1 " + pred)
        if self.bv:
            if conc(a) and conc(b):
                if pred[0] == "u":
                    m = (1 << t.a) - 1
                    a, b = a & m, b & m
                    return {"ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[pred]
                return {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[pred]
            a = z3.BitVecVal(a, t.a) if conc(a) else a
            b = z3.BitVecVal(b, t.a) if conc(b) else b
            return {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b,
                    "sgt": lambda: a > b, "sge": lambda: a >= b, "ult": lambda: z3.ULT(a, b),
                    "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b)}[pred]()
        if pred[0] == "u":
            a, b = self.uns(st, a, t.a), self.uns(st, b, t.a)
        return cmpop({"eq": "==", "ne": "!=", "slt": "<", "ult": "<", "sle": "<=", "ule": "<=", "sgt": ">", "ugt": ">",
                      "sge": ">=", "uge": ">="}[pred], a, b)

    def binop(self, st, op, t, a, b, flags, fr):
        bits = t.a
        if isinstance(a, Concat):
            a = self.concat_val(a, st)
        if isinstance(b, Concat):
            b = self.concat_val(b, st)
        if isinstance(a, (Ptr, FuncPtr)):
            a = self.p2i(a)
        if isinstance(b, (Ptr, FuncPtr)):
            b = self.p2i(b)
        a = self.coerce(a, t)
        b = self.coerce(b, t)
        if bits == 1:
            if op == "and" or op == "mul":
                return b_and(a, b)
            if op == "or":
                return b_or(a, b)
            if op in ("xor", "add", "sub"):
                if isinstance(a, bool):
                    return b_not(b) if a else b
                if isinstance(b, bool):
                    return b_not(a) if b else a
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        if conc(a) and conc(b):
            return self.cbin(st, op, int(a), int(b), bits, flags, fr)
        if self.bv:
            return self.bvbin(st, op, a, b, bits, flags, fr)
        h = 1 << (bits - 1)
        if op in ("add", "sub", "mul"):
            r = T.i_add(a, b) if op == "add" else T.i_sub(a, b) if op == "sub" else T.i_mul(a, b)
            if not conc(r):
                s = z3.simplify(r)
                r = T.numval(s) if T.numval(s) is not None else r
            if conc(r):
                return self.sgn(int(r), bits)
            if "nsw" in flags:
                self.overflow(st, r, bits, op, fr)
                return r
            if any(x.startswith("addr!") for x in T.freevars(r)):
                return isimp(r)
            return self.wrapi(r, bits, st)
        if op in ("sdiv", "srem"):
            nz = cmpop("!=", b, 0)
            if nz is not True:
                self.prove(st, nz, "no-division-by-zero", "ub", fr.fn.demangled)
                if nz is False:
                    raise PathEnd()
                st.add(nz)
            A, Bz = zi(a), zi(b)
            pos = self.quick(st, z3.And(A >= 0, Bz > 0)) if not conc(b) else (b > 0 and self.quick(st, A >= 0))
            if pos:
                return A / Bz if op == "sdiv" else A % Bz
            absA = z3.If(A >= 0, A, -A)
            absB = z3.If(Bz >= 0, Bz, -Bz)
            q = absA / absB
            q = z3.If((A >= 0) == (Bz >= 0), q, -q)
            return q if op == "sdiv" else A - q * Bz
        if op in ("udiv", "urem"):
            if conc(b) and b != 0:
                pass
            else:
                nz = cmpop("!=", b, 0)
                self.prove(st, nz, "no-division-by-zero", "ub", fr.fn.demangled)
            ua, ub = zi(self.uns(st, a, bits)), zi(self.uns(st, b, bits))
            r = ua / ub if op == "udiv" else ua % ub
            return self.wrapi(r, bits, st)
        if op == "shl":
            if conc(b):
                r = T.i_mul(a, 1 << b)
                if "nsw" in flags:
                    self.overflow(st, r, bits, op, fr)
                    return r
                return self.wrapi(r, bits, st)
            if conc(a):
                r = T.i_mul(int(a), self.pow2(st, b, bits))
                return self.wrapi(r, bits, st)
            raise Unsupported("symbolic shl")
        if op == "lshr":
            if conc(b):
                return zi(self.uns(st, a, bits)) / (1 << b) if b else a
            raise Unsupported("symbolic lshr")
        if op == "ashr":
            if conc(b):
                return zi(a) / (1 << b)       # floor division
            raise Unsupported("symbolic ashr")
        if op == "and":
            if conc(a):
                a, b = b, a
            if conc(b):
                m = b & ((1 << bits) - 1)
                if m & (m + 1) == 0:           # low mask
                    r = zi(a) % (m + 1)
                    return self.wrapi(r, bits, st)
                nm = (~m) & ((1 << bits) - 1)
                if nm & (nm + 1) == 0:         # high mask
                    return zi(a) - zi(a) % (nm + 1)
        if op == "or" and "disjoint" in flags:
            return self.wrapi(T.i_add(a, b), bits, st)
        if op == "xor" and conc(b) and b == -1:
            return -zi(a) - 1
        ba, bb = bit_cond(a), bit_cond(b)
        if ba is not None and bb is not None:  # both 0 or 1
            r = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](zb(ba), zb(bb))
            return z3.If(simp(r), 1, 0) if not isinstance(simp(r), bool) else int(simp(r))
        # bit-level fallback
        x = z3.Int2BV(zi(a), bits)
        y = z3.Int2BV(zi(b), bits)
        r = {"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y}[op]()
        return z3.BV2Int(r, True)

    def pow2(self, st, b, bits):
        r = None
        for i in range(bits):
            r = z3.IntVal(1 << i) if r is None else z3.If(zi(b) == i, z3.IntVal(1 << i), r)
        return r

    def overflow(self, st, r, bits, op, fr):
        if not self.opts["overflow"]:
            return
        h = 1 << (bits - 1)
        lo, hi = self.rng_of(r)
        if lo is not None and hi is not None and -h <= lo and hi < h:
            return
        g = z3.And(r >= -h, r < h)
        if op == "mul" and z3.is_mul(r) and r.num_args() == 2:
            # |a| <= c and |b| <= c with c*c < h
            c = 46340 if bits == 32 else 3037000499 if bits == 64 else 0
            if c and all(self.quick(st, z3.And(x >= -c, x <= c)) for x in r.children()):
                if not self.quiet:
                    ob = Obligation("no-signed-overflow", "ub", fr.fn.demangled)
                    ob.status, ob.backend = "proved", "z3"
                    self.obls.append(ob)
                return
        if self.quick(st, g):
            if not self.quiet:
                ob = Obligation("no-signed-overflow", "ub", fr.fn.demangled)
                ob.status, ob.backend = "proved", "z3"
                self.obls.append(ob)
            return
        self.prove(st, g, "no-signed-overflow", "ub", fr.fn.demangled)
        st.add(g)

    def cbin(self, st, op, a, b, bits, flags, fr):
        m = (1 << bits) - 1
        if op in ("add", "sub", "mul"):
            r = a + b if op == "add" else a - b if op == "sub" else a * b
            s = self.sgn(r, bits)
            if "nsw" in flags and s != r and self.opts["overflow"]:
                self.prove(st, False, "no-signed-overflow", "ub", fr.fn.demangled)
            return s
        if op in ("sdiv", "srem", "udiv", "urem"):
            if b == 0:
                self.prove(st, False, "no-division-by-zero", "ub", fr.fn.demangled)
                raise PathEnd()
            if op[0] == "u":
                a, b = a & m, b & m
                return self.sgn(a // b if op == "udiv" else a % b, bits)
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return self.sgn(q if op == "sdiv" else a - q * b, bits)
        if op in ("shl", "lshr", "ashr"):
            if not 0 <= b < bits:
                self.prove(st, False, "shift-in-range", "ub", fr.fn.demangled)
                raise PathEnd()
            if op == "shl":
                return self.sgn(a << b, bits)
            if op == "lshr":
                return self.sgn((a & m) >> b, bits)
            return a >> b
        return self.sgn({"and": a & b, "or": a | b, "xor": a ^ b}[op], bits)

    def bvbin(self, st, op, a, b, bits, flags, fr):
        A = z3.BitVecVal(a, bits) if conc(a) else a
        Bv = z3.BitVecVal(b, bits) if conc(b) else b
        if op in ("shl", "lshr", "ashr"):
            g = z3.ULT(Bv, bits)
            if not self.quick(st, g):
                self.prove(st, g, "shift-in-range", "ub", fr.fn.demangled)
                st.add(g)
        if op in ("sdiv", "srem", "udiv", "urem"):
            g = Bv != 0
            self.prove(st, simp(g), "no-division-by-zero", "ub", fr.fn.demangled)
        if "nsw" in flags and op in ("add", "sub", "mul", "shl") and self.opts["overflow"]:
            g = {"add": lambda: z3.And(z3.BVAddNoOverflow(A, Bv, True), z3.BVAddNoUnderflow(A, Bv)),
                 "sub": lambda: z3.And(z3.BVSubNoOverflow(A, Bv), z3.BVSubNoUnderflow(A, Bv, True)),
                 "mul": lambda: z3.And(z3.BVMulNoOverflow(A, Bv, True), z3.BVMulNoUnderflow(A, Bv)),
                 "shl": lambda: z3.BoolVal(True)}[op]()
            self.prove(st, simp(g), "no-signed-overflow", "ub", fr.fn.demangled)
        r = {"add": lambda: A + Bv, "sub": lambda: A - Bv, "mul": lambda: A * Bv, "sdiv": lambda: A / Bv,
             "srem": lambda: z3.SRem(A, Bv), "udiv": lambda: z3.UDiv(A, Bv), "urem": lambda: z3.URem(A, Bv),
             "shl": lambda: A << Bv, "lshr": lambda: z3.LShR(A, Bv), "ashr": lambda: A >> Bv, "and": lambda: A & Bv,
             "or": lambda: A | Bv, "xor": lambda: A ^ Bv}[op]()
        r = z3.simplify(r)
        return r.as_signed_long() if z3.is_bv_value(r) else r

    def cast(self, st, op, v, t, t2):
        if t.a == 1:
            if isinstance(v, bool):
                return (-1 if op == "sext" else 1) if v else 0
            one = -1 if op == "sext" else 1
            if self.bv:
                return z3.If(v, z3.BitVecVal(one, t2.a), z3.BitVecVal(0, t2.a))
            return z3.If(v, z3.IntVal(one), z3.IntVal(0))
        if conc(v):
            if op == "sext":
                return v
            if op == "zext":
                return v & ((1 << t.a) - 1)
            if t2.a == 1:
                return bool(v & 1)
            return self.sgn(v, t2.a)
        if self.bv:
            if op == "sext":
                return z3.SignExt(t2.a - t.a, v)
            if op == "zext":
                return z3.ZeroExt(t2.a - t.a, v)
            if t2.a == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return z3.simplify(z3.Extract(t2.a - 1, 0, v))
        if op == "sext":
            return v
        if op == "zext":
            return self.uns(st, v, t.a)
        if t2.a == 1:
            # booleans stored as 0/1
            if self.quick(st, z3.And(v >= 0, v <= 1)):
                return cmpop("==", v, 1)
            return cmpop("==", zi(v) % 2, 1)
        return self.wrapi(v, t2.a, st)

    # ---------------------------------------------------------------- loops
    def policy(self, fr, L):
        for rx, pol in self.loop_policy:
            if rx.search(fr.fn.demangled):
                r = pol(fr, L) if callable(pol) else pol
                if r:
                    return r
        return "auto"

    def enter_loop(self, fr, L, item):
        cex = item.cex
        res = self.enter_loop2(fr, L, item)
        for e in res:
            e.cex = cex
        return res

    def enter_loop2(self, fr, L, item):
        pol = self.policy(fr, L)
        if pol != "cut":
            snap_ob = len(self.obls)
            snap_out = len(fr.outs)
            snap_np = self.npaths
            try:
                return self.unroll(fr, L, Item(item.block, 0, item.env, item.st.copy(), item.prev, False), pol)
            except CutNeeded as c:
                if c.loop is not L:
                    raise
                del self.obls[snap_ob:]
                del fr.outs[snap_out:]
                self.npaths = snap_np
        from . import loops
        return loops.cut(self, fr, L, item)

    def unroll(self, fr, L, item, pol):
        cur = [item]
        exits = []
        n = early = 0
        while cur:
            nxt = []
            left0 = len(exits) + len(fr.outs)
            for c in cur:
                c.cex = False
                b, e = self.explore(fr, [c], L)
                exits.extend(e)
                for x in b:
                    if not x.cex and pol == "auto":
                        raise CutNeeded(L)
                    nxt.append(x)
            cur = nxt
            n += 1
            if cur and len(exits) + len(fr.outs) > left0:
                # left by a condition on data while going on: unrolling multiplies the paths
                early += 1
                blk = fr.fn.blocks[L.header]
                data = any(not conc(c.env.get(i.res)) and not isinstance(c.env.get(i.res), Ptr)
                           for c in cur for i in blk.ins[:blk.nphi])
                if pol == "auto" and early > 2 and (len(cur) > 8 or (data and early > 8)):
                    raise CutNeeded(L)
            if n > self.opts["fuel"]:
                raise Unsupported("unroll fuel in " + fr.fn.demangled)
        return exits


def safe_check(s, to):
    """s.check() in a child that is ended when the solver overruns its time limit (its Groebner
    module does not look at the clock); a satisfiable answer has no model"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            r = s.check()
            os.write(wr, b"u" if r == z3.unsat else b"s" if r == z3.sat else b"?")
        finally:
            os._exit(0)
    os.close(wr)
    try:
        ok, _, _ = select.select([rd], [], [], to / 1000 * 1.5 + 2)
        c = os.read(rd, 1) if ok else b""
    finally:
        os.close(rd)
        if not ok:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    return {b"u": z3.unsat, b"s": z3.sat}.get(c, z3.unknown)


def apps(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            yield x
        todo.extend(x.children())


def first_cond(t):
    """an innermost condition of a conditional term"""
    seen = set()

    def rec(x):
        if x.get_id() in seen or not z3.is_app(x):
            return None
        seen.add(x.get_id())
        for c in x.children():
            r = rec(c)
            if r is not None:
                return r
        if x.decl().kind() == z3.Z3_OP_ITE:
            return x.arg(0)
        return None
    return rec(t)


class CallCtx:
    def __init__(self, ex, fr, it, ins, name, tys):
        self.ex, self.fr, self.it, self.ins, self.name, self.tys = ex, fr, it, ins, name, tys

    @property
    def where(self):
        return self.fr.fn.demangled
