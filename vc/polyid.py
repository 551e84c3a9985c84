"""Decision procedure for identities of real terms built from +,-,*,/ over atoms, modulo the
algebraic relations of sqrt and of sin/cos.

Polynomials are dicts {packed monomial: coefficient}; a monomial packs the exponent of atom i in
bits [SH*i, SH*(i+1)).  A term is normalised to num / prod(factor^k); a == b is accepted iff the
cross-multiplied difference reduces to the zero polynomial (coefficients compared with a
relative tolerance, for literals rounded by the compiler).

Sound reading: identities hold wherever the denominators are non-zero and the arguments of the
square roots are non-negative; sqrt(q^2) becomes q only where q >= 0 is known (positivity of
inputs asserted on the path, sums of positive terms)."""
import z3, math, itertools
from fractions import Fraction
from .terms import conc

TOL = Fraction(1, 10 ** 11)
MAXTERMS = 120000
SH = 12
MASK = (1 << SH) - 1
R = z3.RealSort()


class TooBig(Exception):
    pass


def q(c):
    """coefficient: int when integral"""
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def qdiv(a, b):
    return q(Fraction(a) / Fraction(b))


def padd(a, b, s=1):
    if not a:
        return dict(b) if s == 1 else {m: c * s for m, c in b.items()}
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c if s == 1 else c * s
        else:
            v = v + c if s == 1 else v + c * s
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 8000000:
        raise TooBig()
    if len(a) == 1:
        (m1, c1), = a.items()
        if c1 == 1:
            return {m1 + m: c for m, c in b.items()} if m1 else dict(b)
        return {m1 + m: q(c1 * c) for m, c in b.items()}
    r = {}
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            v = get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
    r = {m: q(c) for m, c in r.items() if c}
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def ppow(a, n):
    r = {0: 1}
    while n:
        if n & 1:
            r = pmul(r, a)
        n >>= 1
        if n:
            a = pmul(a, a)
    return r


def pscale(a, c):
    return {m: q(v * c) for m, v in a.items()}


ONE = {0: 1}


def exps(m):
    out = []
    i = 0
    while m:
        e = m & MASK
        if e:
            out.append((i, e))
        m >>= SH
        i += 1
    return out


def divides(m1, m2):
    """monomial m1 | m2"""
    while m1:
        if (m1 & MASK) > (m2 & MASK):
            return False
        m1 >>= SH
        m2 >>= SH
    return True


def mono_gcd(p):
    """largest monomial dividing every term"""
    it = iter(p)
    g = next(it)
    ge = exps(g)
    for m in it:
        if not ge:
            return 0
        ge = [(i, min(e, (m >> (SH * i)) & MASK)) for i, e in ge]
        ge = [(i, e) for i, e in ge if e]
    return sum(e << (SH * i) for i, e in ge)


def rsqrt(c):
    """(a, b) with c = a^2 * b, b square-free up to small primes"""
    c = Fraction(c)
    n = c.numerator * c.denominator
    a = 1
    s = math.isqrt(n)
    if s * s == n:
        return q(Fraction(s, c.denominator)), 1
    for p in (2, 3, 5, 7, 11, 13):
        while n % (p * p) == 0:
            n //= p * p
            a *= p
    return q(Fraction(a, c.denominator)), n


class Normalizer:
    def __init__(self, assume_eqs=(), pos=()):
        self.atoms = {}       # z3 term id -> atom index
        self.atomterm = []    # atom index -> term (or a key tuple)
        self.keep = []
        self.rel = {}         # atom idx -> ('sqrt', poly) | ('cos', idxsin)
        self.relmask = []
        self.cache = {}
        self.eqsub = {}
        self.factors = []     # factor polynomials
        self.fkey = {}
        self.posatoms = set()
        self.pospolys = set()
        self.posmonos = set()
        self.sqrtkey = {}
        self.trigs = None
        self.trigunit = {}
        self.lin = {}
        for a, b in assume_eqs:
            self.eqsub[a.get_id()] = b
            self.keep.append((a, b))
        self.pos = list(pos)
        self.ready = False

    # ------------------------------------------------------------- positivity
    def addpos(self, t):
        try:
            n, d = self.norm(t)
        except TooBig:
            return
        s = 1
        for f, e in d.items():
            if e % 2 and not self.ispos(self.factors[f]):
                if self.ispos(pscale(self.factors[f], -1)):
                    s = -s
                else:
                    return
        n = pscale(n, s)
        self.addpoly(n)
        if n.get(0, 0) < 0:
            # n >= 0 with a negative constant: the rest is positive
            self.addpoly({m: c for m, c in n.items() if m})

    def addpoly(self, n):
        if len(n) == 1:
            (m, c), = n.items()
            ex = exps(m)
            odd = [i for i, e in ex if e % 2 and i not in self.posatoms]
            if c > 0 and len(odd) == 1:
                self.posatoms.add(odd[0])
            elif odd:
                self.posmonos.add((frozenset(odd), c > 0))
        elif n:
            g = mono_gcd(n)
            if g:
                r = {m - g: c for m, c in n.items()}
                for k in (1, -1):
                    if self.ispos({g: k}):
                        n = pscale(r, k)
            self.pospolys.add(self.canon(n)[0])

    def canon(self, p):
        lead = max(p)
        c = abs(Fraction(p[lead]))
        return frozenset((m, q(v / c)) for m, v in p.items()), c

    def ispos(self, p):
        """known non-negative (positive where non-zero)"""
        if not p:
            return True
        if len(p) > 1:
            if self.canon(p)[0] in self.pospolys:
                return True
            g = mono_gcd(p)
            if g:
                r = {m - g: c for m, c in p.items()}
                for s in (1, -1):
                    if self.ispos({g: s}) and self.ispos(pscale(r, s)):
                        return True
        for m, c in p.items():
            odd = frozenset(i for i, e in exps(m) if e % 2 and i not in self.posatoms)
            if not odd:
                if c < 0:
                    return False
            elif (odd, c > 0) not in self.posmonos:
                return False
        return True

    # ------------------------------------------------------------- atoms
    def newatom(self, t):
        i = len(self.atomterm)
        self.atomterm.append(t)
        return i

    def atom(self, t):
        i = self.atoms.get(t.get_id())
        if i is None:
            i = self.newatom(t)
            self.atoms[t.get_id()] = i
            self.keep.append(t)
        return i

    def uf_atom(self, name, args, t):
        """atom for an uninterpreted application, canonical up to provable equality of args"""
        i = self.atoms.get(t.get_id())
        if i is not None:
            return i
        for j, u in enumerate(self.atomterm):
            if not z3.is_expr(u):
                continue
            if u.decl().name() == name and u.num_args() == len(args) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if all(self.equal_arg(u.arg(k), args[k]) for k in range(len(args))):
                    self.atoms[t.get_id()] = j
                    self.keep.append(t)
                    return j
        return self.atom(t)

    def equal_arg(self, a, b):
        if a.eq(b):
            return True
        if a.sort() != b.sort():
            return False
        if a.sort() == R:
            return self.equal(a, b)
        if a.sort() == z3.IntSort():
            s = z3.simplify(a - b, som=True)
            return z3.is_int_value(s) and s.as_long() == 0
        return False

    def mono(self, i):
        return ({1 << (SH * i): 1}, {})

    def setrel(self, i, r):
        self.rel[i] = r
        self.relmask.append((SH * i, i))

    # ------------------------------------------------------------- fractions: (num, {factor: exp})
    def factor_of(self, p):
        """(sign-scalar c, monomial factors, factor id) for a denominator polynomial p"""
        out = {}
        g = mono_gcd(p)
        if g:
            p = {m - g: c for m, c in p.items()}
            for i, e in exps(g):
                f = self.fid({1 << (SH * i): 1})
                out[f] = out.get(f, 0) + e
        if len(p) == 1:
            return q(Fraction(p[0])), out
        lead = p[max(p)]
        p = {m: qdiv(c, lead) for m, c in p.items()}
        # sqrt / even-power of an existing factor
        f = self.fid(p)
        out[f] = out.get(f, 0) + 1
        return lead, out

    def fid(self, p):
        k = frozenset(p.items())
        f = self.fkey.get(k)
        if f is None:
            f = len(self.factors)
            self.factors.append(p)
            self.fkey[k] = f
        return f

    def cancelmono(self, n, d):
        """cancel denominator factors that divide the numerator"""
        if not n:
            return {}, {}
        if not d:
            return n, d
        for f in list(d):
            # an even power of a root is a power of its radicand
            if d[f] >= 2 and len(self.factors[f]) == 1:
                (m, _), = self.factors[f].items()
                r = self.rel.get((m.bit_length() - 1) // SH)
                if r and r[0] == "sqrt" and (m.bit_length() - 1) % SH == 0:
                    h = d[f] // 2
                    c, fs = self.factor_of(r[1])
                    d = dict(d)
                    d[f] -= 2 * h
                    if not d[f]:
                        del d[f]
                    for g, e in fs.items():
                        d[g] = d.get(g, 0) + h * e
                    n = pscale(n, qdiv(1, q(Fraction(c) ** h)))
        for f in list(d):
            p = self.factors[f]
            if len(p) == 1:
                (m, _), = p.items()
                sh = m.bit_length() - 1
                k = min(((x >> sh) & MASK) for x in n)
                k = min(k, d[f])
                if k:
                    n = {x - (k << sh): c for x, c in n.items()}
                    d = dict(d)
                    d[f] -= k
                    if not d[f]:
                        del d[f]
            else:
                while d.get(f):
                    r = self.exactdiv(n, p)
                    if r is None:
                        break
                    n = r
                    d = dict(d)
                    d[f] -= 1
                    if not d[f]:
                        del d[f]
        return n, d

    def exactdiv(self, n, p):
        if len(n) < len(p) or len(n) > 3000:
            return None
        lp = max(p)
        cp = p[lp]
        ps = [(m, c) for m, c in p.items() if m != lp]
        r = dict(n)
        out = {}
        cnt = 0
        while r:
            l = max(r)
            if l < lp or not divides(lp, l):
                return None
            m = l - lp
            c = qdiv(r.pop(l), cp)
            out[m] = c
            for mm, cc in ps:
                k = m + mm
                v = r.get(k, 0) - c * cc
                if v == 0:
                    r.pop(k, None)
                else:
                    r[k] = q(v)
            cnt += 1
            if cnt > 2000:
                return None
        return out

    def fmul(self, a, b):
        n = self.reduce(pmul(a[0], b[0]))
        if not n:
            return {}, {}
        d = a[1]
        if b[1]:
            d = dict(d)
            for f, e in b[1].items():
                d[f] = d.get(f, 0) + e
        return self.cancelmono(n, d)

    def finv(self, a):
        n, d = a
        if not n:
            raise ZeroDivisionError()
        c, fs = self.factor_of(n)
        num = {0: qdiv(1, c)}
        for f, e in d.items():
            k = min(e, fs.get(f, 0))
            if k:
                fs[f] -= k
                if not fs[f]:
                    del fs[f]
                e -= k
            if e:
                num = self.reduce(pmul(num, ppow(self.factors[f], e)))
        return num, fs

    def fadd(self, a, b, s=1):
        n, d = a
        n2, d2 = b
        if not n2:
            return a
        if not n:
            return (n2 if s == 1 else pscale(n2, s)), d2
        if d == d2:
            r = padd(n, n2, s)
            return self.cancelmono(r, d)
        l = dict(d)
        for f, e in d2.items():
            if e > l.get(f, 0):
                l[f] = e
        n = self.lift(n, d, l)
        n2 = self.lift(n2, d2, l)
        return self.cancelmono(padd(n, n2, s), l)

    def lift(self, n, d, l):
        for f, e in l.items():
            k = e - d.get(f, 0)
            if k:
                n = self.reduce(pmul(n, ppow(self.factors[f], k)))
        return n

    # ------------------------------------------------------------- normal form
    def prepare(self, terms):
        """collect the arguments of sin/cos, so that commensurable ones are expanded"""
        seen = set()
        todo = list(terms)
        args = {}
        while todo:
            t = todo.pop()
            if conc(t) or t.get_id() in seen:
                continue
            seen.add(t.get_id())
            e = self.eqsub.get(t.get_id())
            if e is not None and not conc(e):
                todo.append(e)
            if z3.is_app(t):
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.decl().name() in ("sin", "cos"):
                    args[t.arg(0).get_id()] = t.arg(0)
                todo.extend(t.children())
        self.trigargs = list(args.values())
        self.trigdone = False

    def trigprep(self):
        if self.trigdone:
            return
        self.trigdone = True
        lins = []
        for a in self.trigargs:
            n, d = self.norm(a)
            if not d and n:
                lins.append(n)
        distinct = []
        for n in lins:
            if n not in distinct and pscale(n, -1) not in distinct:
                distinct.append(n)
        use = {}
        for n in distinct:
            for m in n:
                use.setdefault(m, []).append(n)
        # groups sharing a monomial are expanded into its base unit
        self.expand = set()
        for m, ns in use.items():
            if len(ns) > 1:
                self.expand.add(m)
        for m in self.expand:
            u = Fraction(0)
            for n in use[m]:
                c = abs(Fraction(n[m]))
                u = c if u == 0 else Fraction(math.gcd(u.numerator * c.denominator, c.numerator * u.denominator), u.denominator * c.denominator)
            self.trigunit[m] = u

    def trigpair(self, key):
        """atoms (sin, cos) of an argument polynomial"""
        k = ("trig", key)
        r = self.sqrtkey.get(k)
        if r is None:
            s = self.newatom(("sin", key))
            c = self.newatom(("cos", key))
            self.setrel(c, ("cos", s))
            r = self.sqrtkey[k] = (s, c)
        return r

    def trig(self, which, arg):
        self.trigprep()
        n, d = self.norm(arg)
        if not n:
            return ({}, {}) if which == "sin" else (dict(ONE), {})
        sgn = 1
        parts = []
        rest = {}
        if d:
            rest = None
        else:
            for m, c in n.items():
                if m in self.expand:
                    parts.append((m, Fraction(c) / self.trigunit[m]))
                else:
                    rest[m] = c
        if rest is None:
            lead = n[max(n)]
            if lead < 0:
                n = pscale(n, -1)
                sgn = -1
            key = (frozenset(n.items()), tuple(sorted(d.items())))
            s, c = self.trigpair(key)
            i = s if which == "sin" else c
            return ({1 << (SH * i): sgn if which == "sin" else 1}, {})
        comp = []
        if rest:
            lead = rest[max(rest)]
            k = 1
            if lead < 0:
                rest = pscale(rest, -1)
                k = -1
            comp.append(((frozenset(rest.items()), ()), k))
        for m, k in parts:
            if k.denominator != 1 or abs(k) > 12:
                raise TooBig()
            comp.append(((frozenset({m: q(self.trigunit[m])}.items()), ()), int(k)))
        S, C = {}, dict(ONE)
        for key, k in comp:
            s, c = self.trigpair(key)
            ps, pc = {1 << (SH * s): 1}, {1 << (SH * c): 1}
            ks, kc = {}, dict(ONE)
            for _ in range(abs(k)):
                ks, kc = (self.reduce(padd(pmul(ks, pc), pmul(kc, ps))), self.reduce(padd(pmul(kc, pc), pmul(ks, ps), -1)))
            if k < 0:
                ks = pscale(ks, -1)
            S, C = (self.reduce(padd(pmul(S, kc), pmul(C, ks))), self.reduce(padd(pmul(C, kc), pmul(S, ks), -1)))
        return (S if which == "sin" else C), {}

    def norm(self, t):
        if conc(t):
            return ({0: q(Fraction(t))} if t != 0 else {}), {}
        key = t.get_id()
        r = self.cache.get(key)
        if r is None:
            r = self._norm(t)
            self.cache[key] = r
            self.keep.append(t)
        return r

    def _norm(self, t):
        e = self.eqsub.get(t.get_id())
        if e is not None:
            return self.norm(e)
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = Fraction(t.as_fraction()) if z3.is_rational_value(t) else Fraction(t.as_long())
            return ({0: q(f)} if f != 0 else {}), {}
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.fadd(r, self.norm(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.fadd(r, self.norm(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.norm(ch[0])
            return pscale(n, -1), d
        if k == z3.Z3_OP_MUL:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.fmul(r, self.norm(c))
            return r
        if k == z3.Z3_OP_DIV:
            b = self.norm(ch[1])
            if not b[0]:
                i = self.atom(t)
                return self.mono(i)
            return self.fmul(self.norm(ch[0]), self.finv(b))
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]):
            b = self.norm(ch[0])
            e = ch[1].as_long()
            if e < 0:
                b, e = self.finv(b), -e
            r = (dict(ONE), {})
            for _ in range(e):
                r = self.fmul(r, b)
            return r
        if k == z3.Z3_OP_TO_REAL:
            c = ch[0]
            kk = c.decl().kind()
            if kk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                cc = [z3.ToReal(x) for x in c.children()]
                r = cc[0]
                if kk == z3.Z3_OP_UMINUS:
                    return self.norm(-r)
                for x in cc[1:]:
                    r = r + x if kk == z3.Z3_OP_ADD else r - x if kk == z3.Z3_OP_SUB else r * x
                self.keep.append(r)
                return self.norm(r)
            if z3.is_int_value(c):
                f = c.as_long()
                return ({0: f} if f else {}), {}
            s = z3.simplify(t, som=True)
            if not s.eq(t) and s.decl().kind() != z3.Z3_OP_TO_REAL:
                self.keep.append(s)
                return self.norm(s)
            return self.mono(self.atom(t))
        if k == z3.Z3_OP_UNINTERPRETED and ch:
            name = t.decl().name()
            if name in ("sin", "cos") and len(ch) == 1:
                return self.trig(name, ch[0])
            if name == "sqrt" and len(ch) == 1:
                return self.sqrt(ch[0])
            i = self.uf_atom(name, ch, t)
            if name == "exp":
                self.posatoms.add(i)
            return self.mono(i)
        return self.mono(self.atom(t))

    def sqrt(self, arg):
        n, d = self.norm(arg)
        if not n:
            return {}, {}
        # sqrt(N/D) = sqrt(N*prod f^odd)/prod f^ceil
        outd = {}
        neg = False
        ok = True
        for f, e in d.items():
            h = (e + 1) // 2
            p = self.factors[f]
            if e % 2:
                n = self.reduce(pmul(n, p))
            if h % 1 == 0:
                if not self.ispos(p):
                    if self.ispos(pscale(p, -1)):
                        if h % 2:
                            neg = not neg
                    elif h % 2:
                        ok = False
            outd[f] = h
        coef, pulled, rest = 1, dict(ONE), n
        if ok:
            pulled, rest = self.squares(n)
            if neg:
                pulled = pscale(pulled, -1)
        if rest == ONE:
            return self.fmul((pulled, {}), (dict(ONE), outd))
        if ok and len(rest) > 1:
            # sqrt(P*Q) = sqrt(P)*sqrt(Q) for a radicand P met before
            for k, i in list(self.sqrtkey.items()):
                if k[0] == "sqrt" and k[2] is None and len(k[1]) > 1 and len(rest) > len(k[1]):
                    Q = self.exactdiv(rest, dict(k[1]))
                    if Q is not None:
                        p2, r2 = self.squares(Q)
                        pulled = self.reduce(pmul(pulled, p2))
                        pulled = self.reduce(pmul(pulled, {1 << (SH * i): 1}))
                        rest = r2
                        if rest == ONE:
                            return self.fmul((pulled, {}), (dict(ONE), outd))
        key = ("sqrt", frozenset(rest.items()), None if ok else tuple(sorted(outd.items())))
        i = self.sqrtkey.get(key)
        if i is None:
            i = self.newatom(key)
            self.setrel(i, ("sqrt", rest))
            if ok:
                self.posatoms.add(i)
                if len(rest) > 1:
                    self.pospolys.add(self.canon(rest)[0])
            self.sqrtkey[key] = i
        return self.fmul((pulled, {}), ({1 << (SH * i): 1}, outd))

    def squares(self, p):
        """p = out^2 * rest with out >= 0 known"""
        if len(p) > 1:
            g = mono_gcd(p)
            ex = exps(g)
            if all(e % 2 == 0 for _, e in ex):
                prim = {m - g: c for m, c in p.items()} if g else p
                num, den = 0, 1
                for c in prim.values():
                    c = Fraction(c)
                    num = math.gcd(num, abs(c.numerator))
                    den = den * c.denominator // math.gcd(den, c.denominator)
                cont = Fraction(num, den)
                ra, rb = rsqrt(cont)
                r = self.psqrt(pscale(prim, 1 / cont))
                if r is not None:
                    h = {sum((e // 2) << (SH * i) for i, e in ex): ra}
                    r = self.reduce(pmul(h, r))
                    for s in (1, -1):
                        if self.ispos(pscale(r, s)):
                            return pscale(r, s), {0: rb}
        out = dict(ONE)
        g = mono_gcd(p)
        if g:
            take = sum((e // 2) << (SH * i) for i, e in exps(g))
            sg = 1
            if not self.ispos({take: 1}) and self.ispos({take: -1}):
                sg = -1
            for i, e in exps(g) if not self.ispos({take: sg}) else ():
                if (i, e) == exps(g)[0]:
                    take = 0
                if e >= 2 and i in self.posatoms or e >= 4:
                    k = e // 2 if i in self.posatoms else (e // 4) * 2
                    take += k << (SH * i)
            if take:
                p = {m - 2 * take: c for m, c in p.items()}
                out = {take: sg}
        # numeric content
        cs = [Fraction(c) for c in p.values()]
        num = 0
        den = 1
        for c in cs:
            num = math.gcd(num, abs(c.numerator))
            den = den * c.denominator // math.gcd(den, c.denominator)
        cont = Fraction(num, den)
        a, b = rsqrt(cont)
        if a != 1:
            out = pscale(out, a)
            p = pscale(p, Fraction(1) / (Fraction(a) * a))
        if len(p) > 1:
            g = mono_gcd(p)
            prim = {m - g: c for m, c in p.items()} if g else p
            l = prim[max(prim)]
            r = self.psqrt(prim)
            if r is not None:
                for s in (1, -1):
                    rr = pscale(r, s)
                    if self.ispos(rr):
                        out = self.reduce(pmul(out, rr))
                        p = {g: 1} if g else dict(ONE)
                        break
        elif p == ONE:
            pass
        return out, p

    def psqrt(self, p):
        """polynomial square root modulo the trig relations, or None"""
        if len(p) > 400:
            return None
        pairs = []
        for i, r in list(self.rel.items()):
            if r[0] == "cos":
                s = r[1]
                ms = [m for m in p if (m >> (SH * s)) & MASK >= 2]
                if ms:
                    pairs.append((s, i))
        pairs = pairs[:3]
        for sel in itertools.product((0, 1, 2), repeat=len(pairs)):
            x = p
            for (s, c), k in zip(pairs, sel):
                if k == 1:
                    x = self.swap(x, s, c)
                elif k == 2:
                    x = self.homog(x, s, c)
                if x is None:
                    break
            if not x:
                continue
            r = self.psqrt0(x)
            if r is not None:
                return self.reduce(r)
        return None

    def homog(self, p, s, c):
        """terms raised to one degree in (sin, cos) by 1 = sin^2 + cos^2"""
        deg = {m: ((m >> (SH * s)) & MASK) + ((m >> (SH * c)) & MASK) for m in p}
        D = max(deg.values())
        if any((D - e) % 2 for e in deg.values()) or D > 4:
            return None
        one = {2 << (SH * s): 1, 2 << (SH * c): 1}
        out = {}
        for m, v in p.items():
            out = padd(out, pmul({m: v}, ppow(one, (D - deg[m]) // 2)))
        return out

    def swap(self, p, s, c):
        """sin^2 -> 1 - cos^2"""
        out = {}
        for m, v in p.items():
            e = (m >> (SH * s)) & MASK
            if e < 2:
                out = padd(out, {m: v})
                continue
            base = m - ((e - e % 2) << (SH * s))
            w = ppow({0: 1, 2 << (SH * c): -1}, e // 2)
            out = padd(out, pmul({base: v}, w))
        return out

    def psqrt0(self, p):
        l = max(p)
        if any(e % 2 for _, e in exps(l)) or p[l] < 0:
            return None
        a, b = rsqrt(p[l])
        if b != 1:
            return None
        lm = sum((e // 2) << (SH * i) for i, e in exps(l))
        qv = {lm: a}
        r = dict(p)
        del r[l]
        cnt = 0
        while r:
            m = max(r)
            if m < lm or not divides(lm, m):
                return None
            t, c = m - lm, qdiv(r[m], 2 * a)
            if t >= lm and t not in qv and t > lm:
                return None
            # r -= 2 q t + t^2
            for mm, cc in qv.items():
                k = mm + t
                v = r.get(k, 0) - 2 * cc * c
                if v == 0:
                    r.pop(k, None)
                else:
                    r[k] = q(v)
            k = 2 * t
            v = r.get(k, 0) - c * c
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = q(v)
            qv[t] = q(qv.get(t, 0) + c)
            cnt += 1
            if cnt > 60:
                return None
        return qv

    def reduce(self, p):
        """apply sqrt^2 and cos^2 relations"""
        while True:
            hit = None
            for sh, i in self.relmask:
                for m in p:
                    if (m >> sh) & MASK >= 2:
                        hit = (sh, i)
                        break
                if hit:
                    break
            if not hit:
                return p
            sh, i = hit
            r = self.rel[i]
            byp = {}
            for m, c in p.items():
                e = (m >> sh) & MASK
                h = e // 2
                byp.setdefault(h, {})[m - ((2 * h) << sh)] = c
            base = r[1] if r[0] == "sqrt" else {0: 1, 2 << (SH * r[1]): -1}
            out = byp.pop(0, {})
            for h, pp in byp.items():
                out = padd(out, pmul(pp, ppow(base, h)))
            p = out
            if len(p) > MAXTERMS:
                raise TooBig()

    def equal(self, a, b):
        x = self.norm(a)
        y = self.norm(b)
        if x == y:
            return True
        l = dict(x[1])
        for f, e in y[1].items():
            if e > l.get(f, 0):
                l[f] = e
        p = self.lift(x[0], x[1], l)
        r = self.lift(y[0], y[1], l)
        diff = padd(p, r, -1)
        if not diff:
            return True
        ref = {}
        for w in (p, r):
            for m, c in w.items():
                c = abs(c)
                if c > ref.get(m, 0):
                    ref[m] = c
        for m, c in diff.items():
            if m not in ref or abs(c) > TOL * ref[m]:
                return False
        return True


def prove_eq(a, b, eqs=(), pos=()):
    try:
        nz = Normalizer(assume_eqs=eqs, pos=pos)
        nz.prepare([a, b] + list(pos))
        for _ in range(2):
            for t in pos:
                nz.addpos(t)
        return nz.equal(a, b)
    except (TooBig, RecursionError, ZeroDivisionError):
        return None
