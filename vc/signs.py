"""Proof of comparisons between algebraic expressions: every real comparison on the path and
in the goal becomes a condition on the sign of a polynomial over the normaliser's atoms
(denominators multiplied out, roots squared away, common factors split off); polynomials that
agree up to a positive factor share one sign variable, and the remaining Boolean problem goes
to z3.  Only true facts are used to relate sign variables, so a proof found is a proof."""
from fractions import Fraction
import z3
from . import polyid
from .polyid import Normalizer, TooBig, pscale, padd, pmul, mono_gcd, exps, SH, MASK, TOL
from .terms import conc

R = z3.RealSort()


class Signs:
    def __init__(self, nz, zeros=False):
        self.zeros = zeros     # case of a vanishing root set apart
        self.nz = nz
        self.polys = []        # (poly, z3 var)
        self.side = []
        self.cache = {}
        self.depth = 0
        self.known = []        # factors tried by exact division

    # ---------------------------------------------------------------- polynomials
    def var(self, p):
        """sign variable of p: (v, s) with sign(p) = s*sign(v)"""
        lead = p[max(p)]
        s = 1 if lead > 0 else -1
        p = {m: Fraction(c) / abs(Fraction(lead)) * s for m, c in p.items()}
        for pp, v in self.polys:
            if len(pp) == len(p) and all(m in p and abs(p[m] - c) <= TOL * abs(c) for m, c in pp.items()):
                return v, s
        v = z3.Real("sgn!%d" % len(self.polys))
        self.polys.append((p, v))
        if self.nz.ispos(p):
            self.side.append(v >= 0)
        elif self.nz.ispos(pscale(p, -1)):
            self.side.append(v <= 0)
        if len(p) == 1 and len(exps(max(p))) == 1:
            (m, c), = p.items()
            (i, e), = exps(m)
            r = self.nz.rel.get(i)
            if r and r[0] == "sqrt" and e == 1:
                self.side.append((v == 0) == self.lit(r[1], "=="))
        if len(p) == 2 and 0 in p and len(exps(max(p))) == 1 and exps(max(p))[0][1] == 1:
            # sine or cosine plus a constant: both lie in [-1,1], and at the ends the other one is zero
            i, c = exps(max(p))[0][0], p[0]
            for a, r in self.nz.rel.items():
                if r[0] == "cos" and i in (a, r[1]):
                    o = r[1] if i == a else a
                    if abs(c) > 1:
                        self.side.append(v > 0 if c > 0 else v < 0)
                    elif abs(c) == 1:
                        self.side.append(v >= 0 if c > 0 else v <= 0)
                        self.side.append(z3.Implies(v == 0, self.lit({1 << (SH * o): 1}, "==")))
        return v, s

    def lit(self, p, rel):
        """p rel 0 as a condition on sign variables; rel in <=, <, =="""
        p = {m: c for m, c in p.items() if c != 0}
        if not p:
            return z3.BoolVal(rel != "<")
        if len(p) == 1 and 0 in p:
            return z3.BoolVal(p[0] < 0 if rel != "==" else False)
        key = (frozenset(p.items()), rel)
        if key in self.cache:
            return self.cache[key]
        self.depth += 1
        if self.depth > 60:
            raise TooBig()
        r = self.lit0(p, rel)
        self.depth -= 1
        self.cache[key] = r
        return r

    def product(self, fs, rel):
        """sign of a product of polynomials"""
        if rel == "==":
            return z3.Or([self.lit(f, "==") for f in fs])
        nz = z3.And([z3.Not(self.lit(f, "==")) for f in fs])
        neg = z3.BoolVal(False)
        for f in fs:
            neg = z3.Xor(neg, self.lit(f, "<"))
        lt = z3.And(nz, neg)
        return lt if rel == "<" else z3.Or(lt, z3.Not(nz))

    def lit0(self, p, rel):
        nz = self.nz
        g = mono_gcd(p)
        if g and not (len(p) == 1 and len(exps(g)) == 1 and exps(g)[0][1] == 1):
            r = {m - g: c for m, c in p.items()}
            fs = []
            for i, e in exps(g):
                a = {1 << (SH * i): 1}
                fs.append(a)
                if e % 2 == 0:
                    fs.append(a)
            fs.append(r)
            return self.product(fs, rel)
        if len(p) > 1:
            for f in self.known:
                if len(f) > 1 and len(f) < len(p):
                    q = nz.exactdiv(p, f)
                    if q is not None:
                        return self.product([f, q], rel)
            # roots
            roots = set()
            for m in p:
                for i, e in exps(m):
                    if i in nz.rel and nz.rel[i][0] == "sqrt" and e % 2:
                        roots.add(i)
            if roots:
                i = max(roots)
                sh = SH * i
                u, w = {}, {}
                for m, c in p.items():
                    if (m >> sh) & MASK:
                        u[m - (1 << sh)] = c
                    else:
                        w[m] = c
                A = nz.rel[i][1]
                if len(p) <= 60:
                    # u*s + w with s = sqrt(A) >= 0
                    uA = nz.reduce(pmul(nz.reduce(pmul(u, u)), A))
                    d = padd(uA, nz.reduce(pmul(w, w)), -1)      # u^2 A - w^2
                    mu, mw, md = pscale(u, -1), pscale(w, -1), pscale(d, -1)
                    if rel == "==":
                        opp = z3.Or(z3.And(self.lit(u, "<="), self.lit(mw, "<=")), z3.And(self.lit(mu, "<="), self.lit(w, "<=")))
                        r = z3.And(opp, self.lit(d, "=="))
                        return z3.If(self.lit(A, "=="), self.lit(w, "=="), r) if self.zeros else r
                    le, ln = (self.lit(d, rel), self.lit(md, rel))
                    # u>=0: us <= -w  <=>  w<=0 and u^2 A <= w^2 ;  u<=0: w <= -us  <=>  w<=0 or w^2 <= u^2 A
                    wl = self.lit(w, rel)
                    r = z3.If(self.lit(mu, "<="), z3.And(self.lit(w, "<="), le) if rel == "<=" else z3.And(self.lit(w, "<"), le),
                                 z3.Or(wl, ln) if rel == "<=" else z3.Or(self.lit(w, "<"), ln))
                    return z3.If(self.lit(A, "=="), wl, r) if self.zeros else r
        v, s = self.var(p)
        if rel == "==":
            return v == 0
        if s < 0:
            v = -v
        return v <= 0 if rel == "<=" else v < 0

    # ---------------------------------------------------------------- terms
    def cmp(self, a, b, rel):
        nz = self.nz
        n, d = nz.fadd(nz.norm(a), nz.norm(b), -1)
        fs = [n]
        for f, e in d.items():
            p = nz.factors[f]
            if p not in self.known:
                self.known.append(p)
                self.side.append(z3.Not(self.lit(p, "==")))
            if e % 2:
                fs.append(p)
        if len(fs) == 1 or rel == "==":
            return self.lit(n, rel)
        return self.product(fs, rel)

    def form(self, t):
        if not z3.is_app(t):
            return t
        k = t.decl().kind()
        ch = t.children()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or \
                (k in (z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_IFF) and ch[-1].sort() == z3.BoolSort()):
            cc = [self.form(c) for c in ch]
            return {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_NOT: z3.Not, z3.Z3_OP_IMPLIES: z3.Implies,
                    z3.Z3_OP_XOR: z3.Xor, z3.Z3_OP_ITE: z3.If}.get(k, lambda x, y: x == y)(*cc)
        if len(ch) == 2 and ch[0].sort() == R:
            a, b = ch
            if k == z3.Z3_OP_LE:
                return self.cmp(a, b, "<=")
            if k == z3.Z3_OP_LT:
                return self.cmp(a, b, "<")
            if k == z3.Z3_OP_GE:
                return self.cmp(b, a, "<=")
            if k == z3.Z3_OP_GT:
                return self.cmp(b, a, "<")
            if k == z3.Z3_OP_EQ:
                return self.cmp(a, b, "==")
        return t


def prove(pc, goal, pos=()):
    return prove1(pc, goal, pos, False) or prove1(pc, goal, pos, True)


def prove1(pc, goal, pos, zeros):
    """True when the path condition entails the goal by signs of polynomials"""
    try:
        nz = Normalizer(pos=pos)
        real = [c for c in pc if z3.is_expr(c)]
        nz.prepare(real + ([goal] if z3.is_expr(goal) else []) + list(pos))
        for _ in range(2):
            for t in pos:
                nz.addpos(t)
        S = Signs(nz, zeros)
        s = z3.Solver()
        s.set("timeout", 2000)
        for _ in range(2):        # twice: factors found late serve everywhere
            S.cache = {}
            S.polys, S.side = [], []
            known, S.known = S.known, []
            for f in known:
                S.known.append(f)
            out = []
            for f in S.known:
                out.append(z3.Not(S.lit(f, "==")))
            for c in real:
                try:
                    out.append(S.form(c))
                except TooBig:
                    S.depth = 0
            g = S.form(goal) if z3.is_expr(goal) else z3.BoolVal(bool(goal))
        s.add(*out)
        s.add(*S.side)
        s.add(z3.Not(g))
        from .engine import safe_check
        return safe_check(s, 2000) == z3.unsat
    except (TooBig, RecursionError, ZeroDivisionError):
        return False
