"""Contracts of external functions: verification intrinsics, C/C++ run-time library and
libm.  Everything in here is trusted (listed in the evidence's trusted base) except the
vc_* intrinsics, which only create symbolic inputs and obligations."""
import re, math
from fractions import Fraction
import z3
from .llir import Unsupported, INT, DOUBLE, PTR
from . import terms as T
from . import polyid
from .terms import conc, zr, zi, zb, simp, isimp, cmpop, b_and, b_or, b_not, b_imp, fresh, I, R, B


def E():
    from . import engine
    return engine


# ------------------------------------------------------------------ helpers
def cstr(ex, st, p, maxn=4096):
    """concrete C string at p (raises Unsupported when not concrete)"""
    out = []
    o = st.mem[p.obj]
    off = p.off
    if not conc(off):
        raise Unsupported("symbolic string")
    for i in range(maxn):
        v = ex.load(st, type(p)(p.obj, off + i, p.inst), INT(8), "cstr")
        if isinstance(v, E().Concat):
            v = ex.concat_val(v, st)
        if not conc(v):
            raise Unsupported("symbolic string contents")
        if v == 0:
            return bytes(out)
        out.append(v & 255)
    raise Unsupported("long string")


def sname(ex, st, p):
    return cstr(ex, st, p).decode("latin1")


def uniq(ex, st, nm):
    """inputs are identified by name and occurrence on the path"""
    k = "n:" + nm
    c = st.notes.get(k, 0)
    st.notes[k] = c + 1
    return nm if c == 0 else "%s#%d" % (nm, c)


def rv(ex, v):
    return ex.coerce(v, DOUBLE)


# ------------------------------------------------------------------ real functions
def uf(ex, name, *args):
    if name == "sqrt" and conc(args[0]):
        q = Fraction(args[0])
        if q >= 0:
            n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
            if n * n == q.numerator and d * d == q.denominator:
                return Fraction(n, d)
    f = z3.Function(name, *([R] * len(args) + [R]))
    return f(*[zr(a) for a in args])


def isapp(t, name):
    return not conc(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() == name


def sqrt_(ex, st, x):
    r = uf(ex, "sqrt", x)
    if not conc(r):
        st.facts.append(r >= 0)
        st.facts.append(z3.Implies(zr(x) >= 0, r * r == zr(x)))
        if not conc(x):
            st.facts.append(z3.Implies(zr(x) > 0, r > 0))
    return r


def split_neg(x):
    """(sign, |x|-like term) for syntactic negation"""
    if conc(x):
        return (-1, -x) if x < 0 else (1, x)
    k = x.decl().kind()
    if k == z3.Z3_OP_UMINUS:
        return -1, x.arg(0)
    if k == z3.Z3_OP_MUL and x.num_args() == 2 and z3.is_rational_value(x.arg(0)):
        f = x.arg(0).as_fraction()
        if f < 0:
            return -1, T.r_mul(-Fraction(f), x.arg(1))
    return 1, x


def sin_(ex, st, x):
    if not conc(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        return T.ite(x.arg(0), zr(sin_(ex, st, x.arg(1))), zr(sin_(ex, st, x.arg(2))))
    s, x = split_neg(x)
    if conc(x) and x == 0:
        return Fraction(0)
    r = sin1(ex, st, x)
    if s < 0:
        return -r if not conc(r) else Fraction(-r)
    return r


def quarter(ex, x):
    """(k, rest) with x = k*pi/2 + rest, for the doubles that stand for multiples of pi/2"""
    if conc(x):
        c, rest = Fraction(x), None
    elif x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        c = None
        ch = x.children()
        for i, t in enumerate(ch):
            if z3.is_rational_value(t):
                c = Fraction(t.as_fraction())
                if i and x.decl().kind() == z3.Z3_OP_SUB:
                    c = -c
                break
        if c is None:
            return None
        rest = Fraction(0)
        for j, t in enumerate(ch):
            if j != i:
                rest = T.r_add(rest, t) if j == 0 or x.decl().kind() == z3.Z3_OP_ADD else T.r_sub(rest, t)
    else:
        return None
    k = round(float(c) / (math.pi / 2))
    if k == 0 or abs(k) > 8 or abs(float(c) - k * (math.pi / 2)) > 1e-14:
        return None
    ex.trusted_used.add("the doubles nearest to multiples of pi/2 stand for them in sin and cos")
    return k, Fraction(0) if rest is None else rest


def shifted(ex, st, which, k, rest):
    f = [(sin_, 1), (cos_, 1), (sin_, -1), (cos_, -1)][(k + (which == "cos")) % 4]
    r = f[0](ex, st, rest)
    return r if f[1] > 0 else T.r_sub(Fraction(0), r)


INVTRIG = ("atan2", "acos", "asin", "atan", "norm_angle")


def anglesum(x):
    """(a, b) with x = a + b when x is a sum with an inverse trigonometric term"""
    if conc(x) or not z3.is_app(x):
        return None
    k = x.decl().kind()
    ch = x.children()
    if k == z3.Z3_OP_SUB:
        ch = [ch[0]] + [T.r_sub(Fraction(0), c) for c in ch[1:]]
    elif k != z3.Z3_OP_ADD:
        return None

    def inv(c):
        _, c = split_neg(c)
        return not conc(c) and z3.is_app(c) and c.decl().name() in INVTRIG
    for i, c in enumerate(ch):
        if inv(c):
            rest = Fraction(0)
            for j, d in enumerate(ch):
                if j != i:
                    rest = T.r_add(rest, d)
            return c, rest
    return None


def sin1(ex, st, x):
    kq = quarter(ex, x)
    if kq:
        return shifted(ex, st, "sin", *kq)
    if isapp(x, "norm_angle"):
        return sin_(ex, st, x.arg(0))
    ab = anglesum(x)
    if ab:
        a, b = ab
        return T.r_add(T.r_mul(sin_(ex, st, a), cos_(ex, st, b)), T.r_mul(cos_(ex, st, a), sin_(ex, st, b)))
    if isapp(x, "atan2"):
        y, xx = x.children()
        return T.r_div(y, sqrt_(ex, st, y * y + xx * xx))
    if isapp(x, "acos"):
        a = x.arg(0)
        return sqrt_(ex, st, 1 - a * a)
    if isapp(x, "asin"):
        return x.arg(0)
    if isapp(x, "atan"):
        a = x.arg(0)
        return T.r_div(a, sqrt_(ex, st, 1 + a * a))
    r = uf(ex, "sin", x)
    trigfacts(ex, st, x)
    return r


def trigfacts(ex, st, x):
    s, c = uf(ex, "sin", x), uf(ex, "cos", x)
    st.facts.append(s * s + c * c == 1)


def cos_(ex, st, x):
    if not conc(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        return T.ite(x.arg(0), zr(cos_(ex, st, x.arg(1))), zr(cos_(ex, st, x.arg(2))))
    s, x = split_neg(x)
    if conc(x) and x == 0:
        return Fraction(1)
    kq = quarter(ex, x)
    if kq:
        return shifted(ex, st, "cos", *kq)
    if isapp(x, "norm_angle"):
        return cos_(ex, st, x.arg(0))
    ab = anglesum(x)
    if ab:
        a, b = ab
        return T.r_sub(T.r_mul(cos_(ex, st, a), cos_(ex, st, b)), T.r_mul(sin_(ex, st, a), sin_(ex, st, b)))
    if isapp(x, "atan2"):
        y, xx = x.children()
        return T.r_div(xx, sqrt_(ex, st, y * y + xx * xx))
    if isapp(x, "asin"):
        a = x.arg(0)
        return sqrt_(ex, st, 1 - a * a)
    if isapp(x, "acos"):
        return x.arg(0)
    if isapp(x, "atan"):
        a = x.arg(0)
        return T.r_div(Fraction(1), sqrt_(ex, st, 1 + a * a))
    r = uf(ex, "cos", x)
    trigfacts(ex, st, x)
    return r


PI = Fraction(math.pi)


def abs_(ex, st, x):
    if conc(x):
        return abs(Fraction(x))
    if ex.opts.get("merge"):        # one path
        for c, v in ((x >= 0, x), (x <= 0, -x)):
            if ex.quick(st, c):
                return v
        return simp(z3.If(x >= 0, x, -x))
    if ex.decide(st, x >= 0):
        return x
    return -x


def fmod_(ex, st, a, b):
    """a - trunc(a/b)*b"""
    if conc(a) and conc(b) and b != 0:
        q = Fraction(a) / Fraction(b)
        return Fraction(a) - int(q) * Fraction(b)
    q = T.r_div(a, b)
    neg = not ex.decide(st, cmpop(">=", q, Fraction(0)))
    n = z3.ToReal(z3.ToInt(-q if neg else zr(q)))
    n = -n if neg else n
    return zr(a) - n * zr(b)


def floor_(ex, st, a):
    if conc(a):
        return Fraction(math.floor(a))
    return z3.ToReal(z3.ToInt(a))


def pow_(ex, st, x, y):
    if conc(y) and Fraction(y).denominator == 1 and abs(y) <= 12:
        n = int(y)
        r = Fraction(1)
        for _ in range(abs(n)):
            r = T.r_mul(r, x)
        return T.r_div(Fraction(1), r) if n < 0 else r
    if conc(y) and Fraction(y) == Fraction(1, 2):
        return sqrt_(ex, st, x)
    if conc(y) and (2 * Fraction(y)).denominator == 1 and abs(y) <= 12:
        n = int(math.floor(y))
        return T.r_mul(pow_(ex, st, x, Fraction(n)), sqrt_(ex, st, x))
    if not conc(x):
        x = zr(simp(x))
    r = uf(ex, "pow", x, y)
    st.facts.append(z3.Implies(zr(x) > 0, r > 0))
    if conc(y) and y > 0 and not conc(x):
        # increasing: compared at one and at the constants this function compares with
        for c in [Fraction(1)] + fcmp_consts(ex):
            v = Fraction(float(c) ** float(y)) if c != 1 else Fraction(1)
            e = Fraction(1, 10**12) * v if c != 1 else 0
            st.facts.append(z3.Implies(x >= zr(c), r >= zr(v - e)))
            st.facts.append(z3.Implies(z3.And(x >= 0, x <= zr(c)), r <= zr(v + e)))
    return r


def fcmp_consts(ex):
    """positive constants compared with in the function calling the library"""
    fn = ex.curfn
    if fn is None:
        return []
    c = getattr(fn, "_fcmp", None)
    if c is None:
        c = set()
        for b in fn.blocks.values():
            for i in b.ins:
                if i.op == "fcmp":
                    for t, o in i.a[1:]:
                        try:
                            v = ex.val(None, {}, t, o)
                        except Exception:
                            continue
                        if isinstance(v, Fraction) and 0 < v < 10**9 and v != 1:
                            c.add(v)
        fn._fcmp = c = sorted(c)[:8]
    return c


def exp_(ex, st, x):
    if conc(x) and x == 0:
        return Fraction(1)
    if conc(x) and abs(x) < 700:
        return Fraction(math.exp(float(x)))
    r = uf(ex, "exp", x)
    st.facts.append(r > 0)
    return r


def rangefact(name, lo, hi, strict=False):
    def f(ex, st, *a):
        r = uf(ex, name, *a)
        if not conc(r):
            st.facts.append(z3.And(r >= zr(lo), r <= zr(hi)))
        return r
    return f


def engine_apps(x):
    from .engine import apps
    return apps(x)


def engine_positives(st, x):
    from .engine import positives
    return positives(st, x)


def invtrig(name, fn, lo, hi, rlo, rhi):
    """acos/asin: the inverse of cos/sin on its principal range"""
    rf = rangefact(name, rlo, rhi)

    def f(ex, st, x):
        if not conc(x):
            n = 0
            for t in engine_apps(x):
                if t.decl().name() == fn and t.num_args() == 1:
                    y = t.arg(0)
                    n += 1
                    if n > 4:
                        break
                    if polyid.prove_eq(zr(x), t, [], engine_positives(st, x)) and ex.entails(st, z3.And(y >= zr(lo), y <= zr(hi))):
                        return y
        return rf(ex, st, x)
    return f


def atan2_(ex, st, y, x):
    if conc(y) and conc(x) and y == 0 and x > 0:
        return Fraction(0)
    r = uf(ex, "atan2", y, x)
    st.facts.append(z3.And(r >= -zr(PI) - zr(Fraction(1, 10**12)), r <= zr(PI) + zr(Fraction(1, 10**12))))
    return r


def diff(t, x, memo=None):
    """d t / d x for a real constant x"""
    if memo is None:
        memo = {}
    if conc(t):
        return Fraction(0)
    k0 = t.get_id()
    if k0 in memo:
        return memo[k0][1]
    if x.decl().name() not in T.freevars(t):
        return Fraction(0)
    if t.eq(x):
        return Fraction(1)
    k = t.decl().kind()
    ch = t.children()
    D = lambda u: diff(u, x, memo)
    if k == z3.Z3_OP_ADD:
        r = Fraction(0)
        for c in ch:
            r = T.r_add(r, D(c))
    elif k == z3.Z3_OP_SUB:
        r = D(ch[0])
        for c in ch[1:]:
            r = T.r_sub(r, D(c))
    elif k == z3.Z3_OP_UMINUS:
        r = T.r_sub(Fraction(0), D(ch[0]))
    elif k == z3.Z3_OP_MUL:
        r = Fraction(0)
        for i in range(len(ch)):
            p = D(ch[i])
            for j in range(len(ch)):
                if j != i:
                    p = T.r_mul(p, ch[j])
            r = T.r_add(r, p)
    elif k == z3.Z3_OP_DIV:
        a, b = ch
        r = T.r_div(T.r_sub(T.r_mul(D(a), b), T.r_mul(a, D(b))), T.r_mul(b, b))
    elif k == z3.Z3_OP_ITE:
        r = T.ite(ch[0], zr(D(ch[1])), zr(D(ch[2])))
    elif k == z3.Z3_OP_UNINTERPRETED:
        n = t.decl().name()
        F = lambda nm, *a: z3.Function(nm, *([R] * (len(a) + 1)))(*a)
        if n == "sqrt":
            r = T.r_div(D(ch[0]), 2 * t)
        elif n == "sin":
            r = T.r_mul(F("cos", ch[0]), D(ch[0]))
        elif n == "cos":
            r = T.r_mul(-F("sin", ch[0]), D(ch[0]))
        elif n == "exp":
            r = T.r_mul(t, D(ch[0]))
        elif n == "log":
            r = T.r_div(D(ch[0]), ch[0])
        elif n == "atan2":
            y, xx = ch
            r = T.r_div(T.r_sub(T.r_mul(D(y), xx), T.r_mul(y, D(xx))), y * y + xx * xx)
        elif n == "kepler_E":
            # implicit differentiation of E - e sin E = M
            s, c = F("sin", t), F("cos", t)
            den = 1 - ch[0] * c
            r = T.r_div(T.r_add(T.r_mul(s, D(ch[0])), D(ch[1])), den)
        elif n in ("asin", "acos"):
            r = T.r_div(D(ch[0]), F("sqrt", 1 - ch[0] * ch[0]))
            if n == "acos":
                r = T.r_sub(Fraction(0), r)
        else:
            r = Fraction(0)
            for i, c in enumerate(ch):
                if c.sort() == R:
                    dc = D(c)
                    if not (conc(dc) and dc == 0):
                        fn = z3.Function("D%d_%s" % (i, n), *([R] * (len(ch) + 1)))
                        r = T.r_add(r, T.r_mul(fn(*ch), dc))
    else:
        raise Unsupported("derivative of " + str(t.decl()))
    memo[k0] = (t, r)
    return r


# ------------------------------------------------------------------ memory functions
def free_obj(ex, st, p, what):
    e = E()
    if isinstance(p, e.Undef):
        ex.prove(st, False, "no-free-of-uninitialised-pointer", "mem", what)
        raise e.PathEnd()
    if not isinstance(p, e.Ptr):
        raise Unsupported("free of non-pointer")
    if p.obj == 0:
        return
    o = st.mem[p.obj]
    ex.prove(st, bool(o.heap), "free-of-heap-object", "mem", what) if not o.heap else None
    c = cmpop("==", p.off, 0)
    if c is not True:
        ex.prove(st, c, "free-of-object-start", "mem", what)
    o = o.clone()
    if o.count is not None:
        conds = [cmpop("<=", 0, p.inst), cmpop("<", p.inst, o.count)]
        for fnc in (o.freed or ()):
            conds.append(b_not(fnc(p.inst)))
        g = b_and(*conds)
        if g is not True:
            ex.prove(st, g, "no-double-free", "mem", what)
        i0 = p.inst
        o.freed = tuple(o.freed or ()) + ((lambda inst, i0=i0: cmpop("==", inst, i0)),)
    else:
        if o.freed is not False:
            ex.prove(st, b_not(o.freed), "no-double-free", "mem", what)
        o.freed = True
    ex.wr(st, o)


def alloc(ex, st, size, name, call=None):
    e = E()
    if isinstance(size, e.Concat):
        size = ex.concat_val(size, st)
    LIM = 1 << 46
    if not conc(size):
        s = isimp(size)
        size = s
    if ex.bv and not conc(size):
        raise Unsupported("bv alloc size")
    if not ex.decide(st, cmpop("<=", 0, size)) or not ex.decide(st, cmpop("<=", size, LIM)):
        return None
    o = ex.new_obj(st, name, size, heap=True, kind="cells" if conc(size) and size <= 4096 else "region")
    o.vt = None
    return e.Ptr(o.id, 0)


def h_new(call, st, a):
    ex = call.ex
    p = alloc(ex, st, a[0], "new@" + short(call.where))
    if p is None:
        return [("throw", st, None)]
    return p


def short(s):
    return re.sub(r"[^\w:]", "", s.split("(")[0])[-40:]


def h_delete(call, st, a):
    free_obj(call.ex, st, a[0], call.where)
    return None


def h_malloc(call, st, a):
    ex = call.ex
    p = alloc(ex, st, a[0], "malloc@" + short(call.where))
    return p if p is not None else E().NULL


def do_memset(ex, st, p, byte, n, what):
    if isinstance(byte, E().Concat):
        byte = ex.concat_val(byte, st)
    if conc(n) and n == 0:
        return
    if not conc(byte):
        if not conc(n):
            raise Unsupported("memset symbolic byte and length")
        for i in range(n):
            ex.store(st, ex.padd(p, i), INT(8), byte, what)
        return
    if not conc(n):
        n = isimp(n)
    z = cmpop("==", n, 0)
    if z is not False and not conc(z):
        if ex.decide(st, z):
            return
    ex.check_access(st, p, n, what)
    o = st.mem[p.obj].clone()
    if o.const:
        ex.prove(st, False, "no-write-to-const", "mem", what)
        raise E().PathEnd()
    if o.kind == "cells":
        off = isimp(p.off)
        if not conc(off) or not conc(n):
            if not conc(n) or o.size is None:
                raise Unsupported("memset symbolic on cells")
            for i in range(n):
                ex.store(st, ex.padd(p, i), INT(8), byte, what)
            return
        for k in [k for k, (s, v) in o.cells.items() if k < off + n and off < k + s]:
            s, v = o.cells[k]
            if k >= off and k + s <= off + n:
                o.cells = dict(o.cells)
                del o.cells[k]
            else:
                o.cells = dict(o.cells)
                for b in range(k, k + s):
                    pass
                ex.cell_write(o, max(k, off), min(k + s, off + n) - max(k, off), 0 if byte == 0 else int.from_bytes(bytes([byte & 255]) * (min(k + s, off + n) - max(k, off)), "little", signed=True))
        o.cells = dict(o.cells)
        o.fill = o.fill + ((off, off + n, byte & 255),)
        ex.wr(st, o)
        return
    # region
    if o.stride is None:
        if byte == 0 and T.samet(isimp(p.off), 0):
            # type decided at first typed access: zero base on the prefix
            n0 = n
            o.fill = o.fill + ((0, n0, 0),)
            sz = o.size(p.inst) if callable(o.size) else o.size
            if T.samet(isimp(T.i_sub(sz, n)), 0):
                o.tag = "zero"
                ex.wr(st, o)
                return
        raise Unsupported("memset on untyped region")
    lo = ex.idx_of(p.off, o.stride)
    cnt = ex.idx_of(n, o.stride)
    if lo is None or cnt is None:
        raise Unsupported("memset misaligned")
    if byte != 0 and not (o.vt is not None and o.vt.k == "int"):
        raise Unsupported("memset nonzero on non-int region")
    if byte == 0:
        zero = Fraction(0) if o.vt is not None and o.vt.k in ("double", "float") else 0
    else:
        zero = ex.sgn(int.from_bytes(bytes([byte & 255]) * o.stride, "little"), o.stride * 8)
    hi = T.i_add(lo, cnt)
    i0 = p.inst

    def cf(inst, idx, lo=lo, hi=hi, i0=i0):
        c = b_and(cmpop("<=", lo, idx), cmpop("<", idx, hi))
        if i0 is not None:
            c = b_and(c, cmpop("==", inst, i0))
        return c
    o.log = o.log + (("m", cf, lambda inst, idx: zero),)
    ex.wr(st, o)


def do_memcpy(ex, st, d, s, n, what, name=""):
    e = E()
    if isinstance(n, e.Concat):
        n = ex.concat_val(n, st)
    if not conc(n):
        n = isimp(n)
    if conc(n) and n == 0:
        return
    if not conc(n):
        if ex.decide(st, cmpop("==", n, 0)):
            return
        ex.prove(st, cmpop(">=", n, 0), "copy-length-nonnegative", "mem", what)
    ex.check_access(st, d, n, what)
    ex.check_access(st, s, n, what)
    if d.obj == s.obj and not name.startswith("llvm.memmove") and name != "memmove":
        ov = b_or(cmpop("<=", T.i_add(s.off, n), d.off), cmpop("<=", T.i_add(d.off, n), s.off), cmpop("==", s.off, d.off))
        if s.inst is not None:
            ov = b_or(ov, cmpop("!=", s.inst, d.inst))
        if ov is not True:
            ex.prove(st, ov, "memcpy-no-overlap", "mem", what)
    so, do = st.mem[s.obj], st.mem[d.obj]
    if do.const:
        ex.prove(st, False, "no-write-to-const", "mem", what)
        raise e.PathEnd()
    if so.kind == "cells" and do.kind == "cells" and conc(n):
        soff, doff = isimp(s.off), isimp(d.off)
        if conc(soff) and conc(doff):
            items = []
            pos = soff
            for k, (sz, v) in sorted(so.cells.items()):
                if k + sz <= soff or k >= soff + n:
                    continue
                if k < soff or k + sz > soff + n:
                    # split
                    lo, hi = max(k, soff), min(k + sz, soff + n)
                    for b in range(lo, hi):
                        items.append((b - soff, 1, ex.cell_read(so, b, 1)))
                    continue
                items.append((k - soff, sz, v))
            fills = so.fill
            do = do.clone()
            do.cells = dict(do.cells)
            for k in [k for k, (sz, v) in do.cells.items() if k < doff + n and doff < k + sz]:
                sz, v = do.cells[k]
                if k >= doff and k + sz <= doff + n:
                    del do.cells[k]
                else:
                    lo, hi = max(k, doff), min(k + sz, doff + n)
                    for b in range(lo, hi):
                        ex.cell_write(do, b, 1, e.UNDEF)
            nf = [(None, None, None)] if False else []
            do.fill = tuple((lo, hi, b) for lo, hi, b in do.fill) + ((doff, doff + n, None),)
            for lo, hi, b in fills:
                l, h = max(lo, soff), min(hi, soff + n)
                if l < h:
                    do.fill = do.fill + ((l - soff + doff, h - soff + doff, b),)
            for k, sz, v in items:
                do.cells[doff + k] = (sz, v)
            ex.wr(st, do)
            return
        raise Unsupported("memcpy at symbolic cell offset")
    if conc(n) and n <= 1024 and (so.kind == "cells" or do.kind == "cells"):
        # element-wise with the stride of the region side
        stride = do.stride if do.kind == "region" else so.stride
        if stride is None:
            cand = [sz for k, (sz, v) in (so.cells if so.kind == "cells" else do.cells or {}).items()]
            stride = cand[0] if cand else 8
        if n % stride:
            raise Unsupported("memcpy stride")
        tyv = (do if do.kind == "region" else so).vt
        ty = tyv if tyv is not None else (INT(8 * stride) if stride != 8 else DOUBLE)
        vals = [ex.load(st, ex.padd(s, i * stride), ty, what) for i in range(n // stride)]
        for i, v in enumerate(vals):
            ex.store(st, ex.padd(d, i * stride), ty, v, what)
        return
    if so.kind == "region" and do.kind == "region":
        if so.stride is None and so.base is None and not so.log:
            if so.tag == "zero":
                do_memset(ex, st, d, 0, n, what)
                return
            if do.stride is None:
                return
            raise Unsupported("copy from untyped region")
        do = do.clone()
        if do.stride is None:
            do.stride = so.stride
            if do.tag == "zero":
                raise Unsupported("copy onto zeroed untyped")
            if so.vt is not None:
                do.base = ex.uf_base(do, so.vt)
        if do.stride != so.stride:
            raise Unsupported("memcpy of different strides")
        sl, dl, cnt = ex.idx_of(s.off, so.stride), ex.idx_of(d.off, so.stride), ex.idx_of(n, so.stride)
        if sl is None or dl is None or cnt is None:
            raise Unsupported("memcpy misaligned")
        i0, si = d.inst, s.inst
        hi = T.i_add(dl, cnt)
        ty = so.vt or (DOUBLE if so.stride == 8 else INT(8 * so.stride))

        def cf(inst, idx):
            c = b_and(cmpop("<=", dl, idx), cmpop("<", idx, hi))
            if i0 is not None:
                c = b_and(c, cmpop("==", inst, i0))
            return c

        def vf(inst, idx):
            return ex.region_read(None, so, T.i_add(T.i_sub(idx, dl), sl), si, ty, pure=True)
        do.log = do.log + (("m", cf, vf),)
        do.vt = do.vt or so.vt
        ex.wr(st, do)
        return
    raise Unsupported("memcpy %s->%s %s" % (so.kind, do.kind, n))


# ------------------------------------------------------------------ intrinsics
def install(ex):
    e = E()
    on = ex.on

    # --- catch-all low priority first (later registrations take precedence)
    on(r"llvm\.(lifetime|dbg|experimental|invariant|assume|prefetch|var\.annotation|donothing).*", lambda c, st, a: None)

    def vc_int(c, st, a):
        nm = uniq(ex, st, sname(ex, st, a[0]))
        lo, hi = a[1], a[2]
        bits = 64
        if ex.bv:
            v = z3.BitVec(nm, bits)
            ex.inputs[nm] = v
            st.add(z3.And(v >= zbv(lo, bits), v <= zbv(hi, bits)))
            return v
        v = z3.Int(nm)
        ex.inputs[nm] = v
        if conc(lo) and conc(hi):
            old = ex.rng.get(nm)
            ex.rng[nm] = (lo, hi) if old is None else (min(lo, old[0]), max(hi, old[1]))
        for g in (cmpop("<=", lo, v), cmpop("<=", v, hi)):
            st.add(g)
        return v

    def zbv(v, bits):
        return z3.BitVecVal(v, bits) if conc(v) else v
    on("vc_int|vc_intr|vc_forall", vc_int)

    def vc_real(c, st, a):
        nm = uniq(ex, st, sname(ex, st, a[0]))
        v = z3.Real(nm)
        ex.inputs[nm] = v
        return v

    def vc_realr(c, st, a):
        v = vc_real(c, st, a)
        st.add(cmpop("<=", a[1], v))
        st.add(cmpop("<=", v, a[2]))
        return v
    on("vc_real", vc_real)
    on("vc_realr", vc_realr)

    def vc_bool(c, st, a):
        nm = uniq(ex, st, sname(ex, st, a[0]))
        v = z3.Bool(nm)
        ex.inputs[nm] = v
        return v
    on("vc_bool", vc_bool)

    def arr(ty, sz):
        def f(c, st, a):
            nm = uniq(ex, st, sname(ex, st, a[0]))
            n = a[1]
            o = ex.new_obj(st, nm, T.i_mul(n, sz), heap=True, kind="region", stride=sz)
            o.tag = "input"
            if conc(n) and n <= 64:
                o.kind = "cells"
                o.cells = {}
                for i in range(n):
                    q = "%s[%d]" % (nm, i)
                    v = z3.Real(q) if ty.k == "double" else (z3.BitVec(q, ty.a) if ex.bv else z3.Int(q))
                    ex.inputs[q] = v
                    if ty.k == "int" and not ex.bv:
                        lo, hi = a[2], a[3]
                        ex.rng[q] = (lo, hi)
                        st.add(v >= lo)
                        st.add(v <= hi)
                    o.cells[i * sz] = (sz, v)
            else:
                b = ex.uf_base(o, ty, nm)
                o.base = b
                if ty.k == "int" and not ex.bv:
                    lo, hi = a[2], a[3]
                    ex.rng[nm] = (lo, hi)
                    st.notes[("ufrng", nm)] = (lo, hi)

                def mod(m, b=b, n=n):
                    k = n if conc(n) else m.eval(zi(n), model_completion=True).as_long()
                    out = []
                    for i in range(min(k, 200)):
                        v = T.numval(m.eval(b(None, i), model_completion=True))
                        out.append(float(v) if isinstance(v, Fraction) else v)
                    return out
                ex.inputs[nm] = mod
            ex.wr(st, o)
            return e.Ptr(o.id, 0)
        return f
    on("vc_darr", arr(DOUBLE, 8))

    def sorted_darr(c, st, a):
        """strictly increasing table"""
        p = arr(DOUBLE, 8)(c, st, a)
        o = st.mem[p.obj]
        n = a[1]
        if o.kind == "cells":
            for i in range(1, n):
                st.add(o.cells[8 * i][1] > o.cells[8 * i - 8][1])
            return p
        b = o.base
        i, j = z3.Ints("s?i s?j")
        f = b(None, i).decl()
        st.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < zi(n)), b(None, i) < b(None, j)),
                                  patterns=[z3.MultiPattern(b(None, i), b(None, j))]))

        def inst(ex, st2, goal):
            idx = {}
            todo = list(st2.pc) + ([goal] if not isinstance(goal, bool) else [])
            seen = set()
            while todo:
                t = todo.pop()
                if t.get_id() in seen or z3.is_quantifier(t):
                    continue
                seen.add(t.get_id())
                if z3.is_app(t):
                    if t.decl().eq(f):
                        idx[t.arg(0).get_id()] = t.arg(0)
                    todo.extend(t.children())
            l = list(idx.values())[:14]
            out = []
            for x in l:
                for y in l:
                    if not x.eq(y):
                        out.append(z3.Implies(z3.And(0 <= x, x < y, y < zi(n)), f(x) < f(y)))
            return out
        ex.axiom_fns.append(inst)
        return p
    on("vc_sorted_darr", sorted_darr)
    on("vc_barr", arr(INT(8), 1))
    on("vc_iarr", arr(INT(32), 4))

    def vc_assume(c, st, a):
        v = a[0]
        if isinstance(v, bool):
            if not v:
                raise e.PathEnd()
            return None
        v = simp(v)
        st.add(v)
        return None
    on("vc_assume", vc_assume)

    def vc_assert(c, st, a):
        v = a[0]
        nm = sname(ex, st, a[1])
        if not isinstance(v, bool):
            v = simp(v)
        ex.prove(st, v, nm, "assert", c.where)
        return None
    on("vc_assert", vc_assert)

    def vc_eq(c, st, a):
        x, y = rv(ex, a[0]), rv(ex, a[1])
        nm = sname(ex, st, a[3])
        g = cmpop("==", x, y)
        if g is False and conc(x) and conc(y) and abs(x - y) <= Fraction(1, 10**11) * max(abs(x), abs(y)):
            g = True
        ex.prove(st, g, nm, "assert", c.where)
        return None
    on("vc_eq", vc_eq)

    def vc_le(c, st, a):
        x, y = rv(ex, a[0]), rv(ex, a[1])
        nm = sname(ex, st, a[3])
        ex.prove(st, cmpop("<=", x, y), nm, "assert", c.where)
        return None
    on("vc_le", vc_le)

    def vc_cover(c, st, a):
        nm = sname(ex, st, a[0])
        ex.covers.setdefault(nm, []).append(st.copy())
        return None
    on("vc_cover", vc_cover)

    if ex.opts.get("siplip"):
        # |cos| <= 1 and |sin a - sin b| <= |a - b| for the arguments in the query
        def siplip(e_, st, goal):
            out = []
            args = {}
            seen = set()
            todo = [c for c in st.pc] + ([goal] if not isinstance(goal, bool) else [])
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    if x.num_args() == 1 and x.decl().name() in ("sin", "cos"):
                        args.setdefault(x.decl().name(), {})[x.get_id()] = x
                    todo.extend(x.children())
            for d in args.values():
                for x in d.values():
                    out.append(z3.And(x <= 1, x >= -1))
            l = list(args.get("sin", {}).values())
            for i in range(len(l)):
                for j in range(i):
                    da, ds = l[i].arg(0) - l[j].arg(0), l[i] - l[j]
                    out.append(z3.Or(z3.And(da >= 0, ds <= da, ds >= -da), z3.And(da <= 0, ds >= da, ds <= -da)))
            return out
        ex.axiom_fns.append(siplip)
        ex.trusted_used.add("axiom: |cos x| <= 1 and |sin a - sin b| <= |a - b|")

    def vc_ufn(c, st, a):
        nm = sname(ex, st, a[0])
        args = [rv(ex, x) for x in a[1:]]
        return z3.Function(nm, *([R] * (len(args) + 1)))(*[zr(x) for x in args])
    on(r"vc_uf[1-9]", vc_ufn)

    def norm_angle(c, st, a):
        r = uf(ex, "norm_angle", rv(ex, a[0]))
        st.facts.append(z3.And(r >= 0, r < zr(2 * PI)))
        ex.trusted_used.add("norm_angle: the angle up to whole turns, in [0, 2pi)")
        return r
    on("vc_norm_angle", norm_angle)

    def vc_diff(c, st, a):
        x = a[1]
        if conc(x) or x.num_args():
            raise Unsupported("vc_diff by non-variable")
        return diff(rv(ex, a[0]), x)
    on("vc_diff", vc_diff)

    def vc_live_mark(c, st, a):
        st.notes["livemark"] = ex.nextobj
        st.notes["liveset"] = frozenset(st.mem)
        return None
    on("vc_live_mark", vc_live_mark)

    def vc_noleak(c, st, a):
        nm = sname(ex, st, a[0])
        base = st.notes.get("liveset", frozenset())
        conds = []
        for oid, o in st.mem.items():
            if oid in base or not o.heap or o.tag == "input":
                continue
            if o.count is not None:
                i = fresh("inst", I)
                fr = [f(i) for f in (o.freed or ())]
                conds.append(b_imp(b_and(cmpop("<=", 0, i), cmpop("<", i, o.count)), b_or(*fr)))
            else:
                conds.append(o.freed if o.freed is not False else False)
        g = b_and(*conds)
        ex.prove(st, g, nm, "assert", c.where)
        return None
    on("vc_noleak", vc_noleak)

    def fill_rows(c, st, a):
        # arbitrary contents for the rows of an array of pointers
        p = ex.load(st, a[0], PTR, c.where)
        o = st.mem[p.obj].clone()
        nm = uniq(ex, st, "rows")
        o.stride, o.vt = 8, DOUBLE
        o.base = ex.uf_base(o, DOUBLE, T.fresh_name(nm))
        o.log = ()
        ex.wr(st, o)
        if o.count is None:
            raise Unsupported("vc_fill_rows on a single row")
        return None
    on("vc_fill_rows", fill_rows)

    def vc_dead(c, st, a):
        raise e.PathEnd()
    on("vc_stop", vc_dead)

    def vc_note(c, st, a):
        return None
    on("vc_note.*", vc_note)

    # --- memory
    TR = "C/C++ heap (operator new succeeds below 2^46 bytes; delete/free release exactly the block)"
    on(r"operator new(\[\])?\(unsigned long(, std::align_val_t)?\)", h_new, TR)
    on(r"operator delete(\[\])?\(void\*(, unsigned long)?(, std::align_val_t)?\)", h_delete, TR)
    on("malloc|aligned_alloc", lambda c, st, a: h_malloc(c, st, a[-1:]), TR)

    def calloc(c, st, a):
        n = T.i_mul(a[0], a[1])
        p = h_malloc(c, st, [n])
        if p.obj:
            do_memset(ex, st, p, 0, n, c.where)
        return p
    on("calloc", calloc, TR)
    on("free", h_delete, TR)

    def memcpy(c, st, a):
        do_memcpy(ex, st, a[0], a[1], a[2], c.where, c.name)
        return a[0]
    on(r"llvm\.mem(cpy|move)\..*|memcpy|memmove", memcpy)

    def memset(c, st, a):
        n = a[2]
        if isinstance(n, e.Concat):
            n = ex.concat_val(n, st)
        do_memset(ex, st, a[0], a[1], n, c.where)
        return a[0]
    on(r"llvm\.memset\..*|memset", memset)

    def ovf(c, st, a):
        m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)", c.name)
        bits = int(m.group(3))
        x, y = a
        if ex.bv:
            raise Unsupported("overflow intrinsic in bv mode")
        if m.group(1) == "u":
            x, y = ex.uns(st, x, bits), ex.uns(st, y, bits)
        r = {"add": T.i_add, "sub": T.i_sub, "mul": T.i_mul}[m.group(2)](x, y)
        if not conc(r):
            r = isimp(r)
        if m.group(1) == "u":
            ok = b_and(cmpop("<=", 0, r), cmpop("<", r, 1 << bits))
        else:
            ok = b_and(cmpop("<=", -(1 << (bits - 1)), r), cmpop("<", r, 1 << (bits - 1)))
        if ex.decide(st, ok):
            return (ex.wrapi(r, bits, st), False)
        return (ex.wrapi(r, bits, st), True)
    on(r"llvm\.[us](add|sub|mul)\.with\.overflow\.i\d+", ovf)

    # --- aborts
    def assert_fail(c, st, a):
        try:
            msg = sname(ex, st, a[0])
        except Exception:
            msg = "?"
        ex.prove(st, False, "assertion-holds", "assertion", c.where + ": " + msg)
        raise e.PathEnd()
    on("__assert_fail", assert_fail)

    def terminate(c, st, a):
        ex.prove(st, False, "no-abnormal-termination", "assertion", c.where + " -> " + c.name)
        raise e.PathEnd()
    on(r"abort|std::terminate\(\)|__clang_call_terminate|exit|_exit|llvm\.trap|__cxa_pure_virtual|"
       r"std::__throw_.*|std::__glibcxx_assert_fail.*", terminate)

    def throw(c, st, a):
        ty = a[1] if len(a) > 1 else None
        nm = getattr(ty, "name", None) or (ex.st_name(st, ty) if len(a) > 1 else None)
        return [("throw", st, (a[0] if a else e.NULL, nm))]

    def typeid_for(c, st, a):
        return e.typeid_no(ex.st_name(st, a[0]))
    on("llvm.eh.typeid.for.*", typeid_for)
    on("__cxa_throw|__cxa_rethrow|__cxa_throw_bad_array_new_length", throw)
    on("__cxa_free_exception|__cxa_begin_catch|__cxa_end_catch", lambda c, st, a: e.NULL)

    def exc_alloc(c, st, a):
        o = ex.new_obj(st, "exception", a[0])
        return e.Ptr(o.id, 0)
    on("__cxa_allocate_exception", exc_alloc)
    on(r"std::(runtime_error|logic_error|out_of_range|invalid_argument|length_error|domain_error|range_error|exception|bad_alloc)::"
       r"~?(runtime_error|logic_error|out_of_range|invalid_argument|length_error|domain_error|range_error|exception|bad_alloc)\(.*\)",
       lambda c, st, a: None)

    def guard_acq(c, st, a):
        v = ex.load(st, a[0], INT(8))
        return 1 if (conc(v) and v == 0) else 0

    def guard_rel(c, st, a):
        ex.store(st, a[0], INT(8), 1)
        return None
    on("__cxa_guard_acquire", guard_acq)
    on("__cxa_guard_release", guard_rel)
    on("__cxa_atexit|atexit", lambda c, st, a: 0)

    # --- output is ignored
    OUT = "formatted output (printf family, iostream operator<<) has no effect on program state"
    on(r"printf|puts|putchar|fputs|fputc|fwrite|fflush|perror|vfprintf|vprintf", lambda c, st, a: 0, OUT)
    on("fprintf", lambda c, st, a: 0, OUT)
    on(r"std::basic_ostream<char, std::char_traits<char> ?>::operator<<.*", lambda c, st, a: a[0], OUT)
    on(r".*std::operator<<.*", lambda c, st, a: a[0], OUT)
    on(r"std::basic_ostream<char, std::char_traits<char> ?>&? ?(& )?std::(endl|flush|__ostream_insert).*", lambda c, st, a: a[0], OUT)
    on(r"std::basic_ostream<char, std::char_traits<char> ?>::(put|flush|_M_insert).*", lambda c, st, a: a[0], OUT)
    on(r"std::ios_base::Init::.*", lambda c, st, a: None, OUT)

    # --- math
    ML = "libm over the reals (sqrt, sin, cos, tan, atan2, asin, acos, atan, exp, log, pow, fmod, floor, ceil, fabs) by their defining identities; no rounding, no NaN/Inf"

    def m1(f):
        def h(c, st, a):
            return f(ex, st, *[rv(ex, x) for x in a])
        return h
    on(r"sqrt|llvm\.sqrt\.f64|std::sqrt\(.*", m1(sqrt_), ML)
    on(r"sin|llvm\.sin\.f64", m1(sin_), ML)
    on(r"cos|llvm\.cos\.f64", m1(cos_), ML)
    on(r"tan|llvm\.tan\.f64", m1(lambda ex, st, x: T.r_div(sin_(ex, st, x), cos_(ex, st, x))), ML)
    on(r"atan2", m1(atan2_), ML)
    on(r"asin", m1(invtrig("asin", "sin", -PI / 2, PI / 2, -PI / 2 - Fraction(1, 10**12), PI / 2 + Fraction(1, 10**12))), ML)
    on(r"acos", m1(invtrig("acos", "cos", Fraction(0), PI, 0, PI + Fraction(1, 10**12))), ML)
    on(r"atan", m1(rangefact("atan", -PI / 2, PI / 2)), ML)
    on(r"exp|llvm\.exp\.f64", m1(exp_), ML)
    on(r"log|llvm\.log\.f64", m1(lambda ex, st, x: Fraction(0) if conc(x) and x == 1 else Fraction(math.log(float(x))) if conc(x) and x > 0 else uf(ex, "log", x)), ML)
    on(r"log10|sinh|cosh|tanh|cbrt|log2", lambda c, st, a: uf(ex, c.name, rv(ex, a[0])), ML)
    on(r"pow|llvm\.pow\.f64", m1(pow_), ML)

    def powi(c, st, a):
        return pow_(ex, st, rv(ex, a[0]), Fraction(a[1]) if conc(a[1]) else z3.ToReal(a[1]))
    on(r"llvm\.powi\.f64\.i32", powi, ML)
    on(r"fabs|llvm\.fabs\.f64", m1(abs_), ML)
    on(r"fmod", m1(fmod_), ML)
    on(r"floor|llvm\.floor\.f64", m1(floor_), ML)
    on(r"ceil|llvm\.ceil\.f64", m1(lambda ex, st, x: Fraction(math.ceil(x)) if conc(x) else -z3.ToReal(z3.ToInt(-x))), ML)
    on(r"trunc|llvm\.trunc\.f64", m1(lambda ex, st, x: Fraction(int(x)) if conc(x) else (
        z3.ToReal(z3.ToInt(x)) if ex.decide(st, x >= 0) else -z3.ToReal(z3.ToInt(-x)))), ML)
    on(r"hypot", m1(lambda ex, st, x, y: sqrt_(ex, st, T.r_add(T.r_mul(x, x), T.r_mul(y, y)))), ML)
    on(r"fmax|llvm\.maxnum\.f64", m1(lambda ex, st, x, y: x if ex.decide(st, cmpop(">=", x, y)) else y), ML)
    on(r"fmin|llvm\.minnum\.f64", m1(lambda ex, st, x, y: x if ex.decide(st, cmpop("<=", x, y)) else y), ML)

    def copysign(ex_, st, x, y):
        ax = abs_(ex, st, x)
        if ex.decide(st, cmpop(">=", y, Fraction(0))):
            return ax
        return -ax
    on(r"copysign|llvm\.copysign\.f64", m1(copysign), ML)

    def round_(ex_, st, x):
        if conc(x):
            return Fraction(math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1))
        if ex.decide(st, x >= 0):
            return z3.ToReal(z3.ToInt(x + zr(Fraction(1, 2))))
        return -z3.ToReal(z3.ToInt(-x + zr(Fraction(1, 2))))
    on(r"round|llvm\.round\.f64", m1(round_), ML)

    def modf(c, st, a):
        x = rv(ex, a[0])
        if conc(x):
            ip = Fraction(int(x))
        elif ex.decide(st, x >= 0):
            ip = z3.ToReal(z3.ToInt(x))
        else:
            ip = -z3.ToReal(z3.ToInt(-x))
        ex.store(st, a[1], DOUBLE, ip, c.where)
        return T.r_sub(x, ip)
    on("modf", modf, ML)

    def sincos(c, st, a):
        x = rv(ex, a[0])
        ex.store(st, a[1], DOUBLE, sin_(ex, st, x), c.where)
        ex.store(st, a[2], DOUBLE, cos_(ex, st, x), c.where)
        return None
    on("sincos", sincos, ML)

    def isnan(c, st, a):
        return 0
    on("isnan|__isnan|__isinf|isinf", isnan, ML)

    # integer min/max/abs intrinsics
    def mm(c, st, a):
        m = re.match(r"llvm\.([su])(min|max)\.i(\d+)", c.name)
        x, y = a
        x, y = ex.coerce(ex.concat_val(x, st), INT(int(m.group(3)))), ex.coerce(ex.concat_val(y, st), INT(int(m.group(3))))
        cnd = ex.icmp(st, m.group(1) + ("lt" if m.group(2) == "min" else "gt"), INT(int(m.group(3))), x, y)
        return ex.vite(cnd, x, y)
    on(r"llvm\.[su](min|max)\.i\d+", mm)

    def iabs(c, st, a):
        x = ex.concat_val(a[0], st)
        if conc(x):
            return abs(x)
        if ex.bv:
            return z3.If(x < 0, -x, x)
        return z3.If(x < 0, -x, x)
    on(r"llvm\.abs\.i\d+|abs|labs", iabs)

    def ctpop(c, st, a):
        x = a[0]
        if conc(x):
            return bin(x & ((1 << 64) - 1)).count("1")
        raise Unsupported("ctpop")
    on(r"llvm\.ctpop\..*", ctpop)
    on(r"llvm\.expect\..*", lambda c, st, a: a[0])
    on(r"llvm\.is\.constant\..*", lambda c, st, a: False)
    on(r"llvm\.objectsize\..*", lambda c, st, a: -1)
    on(r"llvm\.threadlocal\.address\..*", lambda c, st, a: a[0])
    on(r"llvm\.stacksave.*|llvm\.stackrestore.*", lambda c, st, a: e.NULL)

    # --- strings
    install_strings(ex)


def install_strings(ex):
    e = E()
    on = ex.on
    TS = "C string functions (strlen, strcmp, strncmp, ...) by their standard definition"

    def ld(st, p, i):
        v = ex.load(st, ex.padd(p, i), INT(8), "string function")
        return ex.concat_val(v, st) if isinstance(v, e.Concat) else v

    def strlen(c, st, a):
        p = a[0]
        i = 0
        while True:
            v = ld(st, p, i)
            if ex.decide(st, ex.eqv(v, 0, 8)):
                return i
            i += 1
            if i > 400:
                raise Unsupported("strlen")
    on("strlen", strlen, TS)

    def strncmp(c, st, a):
        n = a[2] if len(a) > 2 else None
        i = 0
        while True:
            if n is not None:
                if conc(n):
                    if i >= n:
                        return 0
                elif ex.decide(st, cmpop("<=", n, i)):
                    return 0
            x, y = ld(st, a[0], i), ld(st, a[1], i)
            xu, yu = (ex.uns(st, x, 8), ex.uns(st, y, 8)) if not ex.bv else (x, y)
            eq = (x == y) if (conc(x) and conc(y)) else (ex.eqv(x, y, 8) if conc(y) else ex.eqv(y, x, 8) if conc(x) else x == y)
            if not ex.decide(st, eq):
                if ex.bv:
                    raise Unsupported("strcmp bv")
                return -1 if ex.decide(st, cmpop("<", xu, yu)) else 1
            if c.name != "memcmp" and ex.decide(st, ex.eqv(x, 0, 8)):
                return 0
            i += 1
            if i > 400:
                raise Unsupported("strncmp")
    on("strncmp|strcmp|memcmp|bcmp", strncmp, TS)

    def strcpy(c, st, a):
        i = 0
        n = a[2] if len(a) > 2 else None
        if n is not None and not conc(n):
            raise Unsupported("strncpy symbolic n")
        while True:
            if n is not None and i >= n:
                return a[0]
            v = ld(st, a[1], i)
            ex.store(st, ex.padd(a[0], i), INT(8), v, c.where)
            i += 1
            if ex.decide(st, ex.eqv(v, 0, 8)):
                if n is not None:
                    while i < n:
                        ex.store(st, ex.padd(a[0], i), INT(8), 0, c.where)
                        i += 1
                return a[0]
            if i > 400:
                raise Unsupported("strcpy")
    on("strcpy|strncpy", strcpy, TS)

    def isspace(c, st, a):
        v = a[0]
        return ex.vite(b_or(cmpop("==", v, 32), b_and(cmpop("<=", 9, v), cmpop("<=", v, 13))), 1, 0)
    on("isspace", isspace, TS)

    def isdigit(c, st, a):
        v = a[0]
        return ex.vite(b_and(cmpop("<=", 48, v), cmpop("<=", v, 57)), 1, 0)
    on("isdigit", isdigit, TS)

    def errno(c, st, a):
        k = "errno"
        oid = st.notes.get(k)
        if oid is None:
            o = ex.new_obj(st, "errno", 4)
            o.cells[0] = (4, 0)
            st.notes[k] = oid = o.id
        return e.Ptr(oid, 0)
    on("__errno_location", errno)
