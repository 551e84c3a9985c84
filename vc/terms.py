"""Term helpers: concrete Python numbers stay concrete; everything else is a z3 term.
Integers are mathematical (with explicit wrap terms / range obligations) or, in bv mode,
bit-vectors; doubles are mathematical reals."""
import z3
from fractions import Fraction

_ctr = [0]


def fresh(prefix, sort):
    _ctr[0] += 1
    return z3.Const("%s!%d" % (prefix, _ctr[0]), sort)


def fresh_name(prefix):
    _ctr[0] += 1
    return "%s!%d" % (prefix, _ctr[0])


I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def conc(x):
    return isinstance(x, (int, bool, Fraction))


def zr(x):
    """to z3 Real"""
    if isinstance(x, Fraction):
        return z3.RealVal("%d/%d" % (x.numerator, x.denominator)) if x.denominator != 1 else z3.RealVal(x.numerator)
    if isinstance(x, int):
        return z3.RealVal(x)
    return x


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def numval(t):
    """python value of a z3 numeral or None"""
    if conc(t):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return None


def simp(t):
    if conc(t):
        return t
    s = z3.simplify(t)
    v = numval(s)
    if v is not None:
        return v
    return s


def isimp(t):
    """normalise an integer term"""
    if conc(t):
        return t
    s = z3.simplify(t, som=True)
    v = numval(s)
    return s if v is None else v


def b_not(c):
    if isinstance(c, bool):
        return not c
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def b_and(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
        else:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
        else:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_imp(a, b):
    return b_or(b_not(a), b)


def samet(a, b):
    if conc(a) or conc(b):
        return conc(a) and conc(b) and a == b
    return a.eq(b)


def i_add(a, b):
    if conc(a) and conc(b):
        return int(a) + int(b)
    if conc(a) and a == 0:
        return b
    if conc(b) and b == 0:
        return a
    return zi(a) + zi(b)


def i_sub(a, b):
    if conc(a) and conc(b):
        return int(a) - int(b)
    if conc(b) and b == 0:
        return a
    if samet(a, b):
        return 0
    return zi(a) - zi(b)


def i_mul(a, b):
    if conc(a) and conc(b):
        return int(a) * int(b)
    if conc(a):
        a, b = b, a
    if conc(b):
        if b == 0:
            return 0
        if b == 1:
            return a
    return zi(a) * zi(b)


def cmpop(op, a, b):
    """int/real comparison on mathematical values"""
    if conc(a) and conc(b):
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if samet(a, b):
        return op in ("==", "<=", ">=")
    if conc(a):
        a = zr(a) if b.sort() == R else zi(a)
    elif conc(b):
        b = zr(b) if a.sort() == R else zi(b)
    if a.sort() != b.sort():
        if a.sort() == I:
            a = z3.ToReal(a)
        if b.sort() == I:
            b = z3.ToReal(b)
    if op == "==":
        return a == b
    if op == "!=":
        return a != b
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    return a >= b


def r_add(a, b):
    if conc(a) and conc(b):
        return Fraction(a) + Fraction(b)
    if conc(a) and a == 0:
        return b
    if conc(b) and b == 0:
        return a
    return zr(a) + zr(b)


def r_sub(a, b):
    if conc(a) and conc(b):
        return Fraction(a) - Fraction(b)
    if conc(b) and b == 0:
        return a
    if conc(a) and a == 0:
        return -zr(b)
    return zr(a) - zr(b)


def r_mul(a, b):
    if conc(a) and conc(b):
        return Fraction(a) * Fraction(b)
    for x, y in ((a, b), (b, a)):
        if conc(x):
            if x == 0:
                return Fraction(0)
            if x == 1:
                return y
    return zr(a) * zr(b)


def r_div(a, b):
    if conc(b) and b != 0:
        if conc(a):
            return Fraction(a) / Fraction(b)
        if b == 1:
            return a
    return zr(a) / zr(b)


def i2r(a):
    if conc(a):
        return Fraction(int(a))
    return z3.ToReal(a)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if conc(a) and conc(b) and a == b:
        return a
    if conc(a) and isinstance(a, bool):
        a = zb(a)
    if conc(b) and isinstance(b, bool):
        b = zb(b)
    if conc(a) and not conc(b):
        a = zr(a) if b.sort() == R else zi(a)
    elif conc(b) and not conc(a):
        b = zr(b) if a.sort() == R else zi(b)
    elif conc(a) and conc(b):
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            a, b = zr(a), zr(b)
        else:
            a, b = zi(a), zi(b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


_fvcache = {}


def freevars(t):
    """set of ids/names of uninterpreted constants AND function names of t"""
    if conc(t):
        return frozenset()
    key = t.get_id()
    r = _fvcache.get(key)
    if r is not None and r[0].eq(t):
        return r[1]
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            st.extend(x.children())
    out = frozenset(out)
    _fvcache[key] = (t, out)
    return out


def subst(t, pairs):
    if conc(t):
        return t
    return simp_light(z3.substitute(t, *[(a, (zr(b) if a.sort() == R else zi(b) if a.sort() == I else b)) for a, b in pairs]))


def simp_light(t):
    v = numval(t)
    return t if v is None else v
