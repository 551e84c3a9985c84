"""Joining of paths that meet at a loop header or a return: the states become one, with
conditional values.  Only paths told apart by a decided condition are joined, and only when
their memory has the same shape; anything else stays separate."""
from fractions import Fraction
import z3
from . import terms as T
from .terms import conc, zb, simp, b_and, b_or, b_not, b_imp
from .engine import Ptr, FuncPtr, Undef, Concat, Item, Obj, State, same
from .llir import Unsupported


class No(Exception):
    pass


def jval(ex, d, a, b):
    if same(a, b):
        return a
    if isinstance(a, (Undef, FuncPtr, Concat, tuple)) or isinstance(b, (Undef, FuncPtr, Concat, tuple)) or a is None or b is None:
        raise No()
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.obj != b.obj or (a.inst is None) != (b.inst is None):
            raise No()
        return Ptr(a.obj, jval(ex, d, a.off, b.off), None if a.inst is None else jval(ex, d, a.inst, b.inst))
    ka, kb = kind(a), kind(b)
    if ka != kb:
        # a concrete zero or one may be either
        if ka == "B" and conc(b) and not isinstance(b, Fraction) and b in (0, 1):
            b = bool(b)
        elif kb == "B" and conc(a) and not isinstance(a, Fraction) and a in (0, 1):
            a = bool(a)
        elif ka == "R" and isinstance(b, int) and b == 0:
            b = Fraction(0)
        elif kb == "R" and isinstance(a, int) and a == 0:
            a = Fraction(0)
        else:
            raise No()
    if kind(a) == "B":
        return simp(z3.If(d, zb(a), zb(b)))
    try:
        return ex.vite(d, a, b)
    except Unsupported:
        raise No()


def kind(a):
    if isinstance(a, bool):
        return "B"
    if isinstance(a, Fraction):
        return "R"
    if isinstance(a, int):
        return "I"
    s = a.sort()
    return "B" if s == T.B else "R" if s == T.R else "I" if s == T.I else str(s)


def live_names(fn, header):
    """names used in blocks reachable from header"""
    key = "_live"
    if not hasattr(fn, key):
        setattr(fn, key, {})
    c = getattr(fn, key)
    if header in c:
        return c[header]
    seen, todo = set(), [header]
    names = set()

    def rec(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "loc":
            names.add(x[1])
        elif isinstance(x, (tuple, list)):
            for y in x:
                rec(y)
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        todo.extend(fn.blocks[b].succ)
        for i in fn.blocks[b].ins:
            rec(i.a)
    c[header] = names
    return names


def jobj(ex, d, x, y):
    if x is y:
        return x
    for s in Obj.__slots__:
        if s in ("cells",):
            continue
        a, b = getattr(x, s, None), getattr(y, s, None)
        if a is b:
            continue
        try:
            eq = bool(same(a, b)) if not callable(a) else False
        except Exception:
            eq = False
        if not eq and s == "freed" and not isinstance(a, list) and not isinstance(b, list):
            eq = isinstance(a, bool) and isinstance(b, bool) and a == b
        if not eq:
            try:
                eq = not callable(a) and type(a) is type(b) and not z3.is_expr(a) and a == b
            except Exception:
                eq = False
        if not eq:
            raise No()
    if x.cells is None or y.cells is None:
        if x.cells is not y.cells:
            raise No()
        return x
    o = x.clone()
    o.cells = {}
    if set(x.cells) != set(y.cells):
        # a cell written on one path only
        for a, b in ((x, y), (y, x)):
            for k in a.cells:
                if k not in b.cells:
                    raise No()
    for k, (s, v) in x.cells.items():
        s2, w = y.cells[k]
        if s2 != s:
            raise No()
        o.cells[k] = (s, jval(ex, d, v, w))
    return o


def join(ex, d, n, A, B, live):
    """A, B: (state, env, extra); n: length of the common prefix of the path conditions"""
    (sa, ea, va), (sb, eb, vb) = A, B
    s = State()
    for c in sa.pc[:n]:
        s.add(c)
    ra, rb = sa.pc[n:], sb.pc[n:]
    g = simp(b_or(b_and(*ra), b_and(*rb)))
    common = {c.get_id() for c in ra} & {c.get_id() for c in rb}
    for c in ra:
        if c.get_id() in common:
            s.add(c)
    ra = [c for c in ra if c.get_id() not in common]
    rb = [c for c in rb if c.get_id() not in common]
    if ra and rb:
        g = b_or(b_and(*ra), b_and(*rb))
        g = simp(g) if not isinstance(g, bool) else g
        if g is not True:
            s.add(g)
    fb = {f.get_id() for f in sb.facts}
    fa = {f.get_id() for f in sa.facts}
    for f in sa.facts:
        s.facts.append(f if f.get_id() in fb else z3.Implies(d, f))
    nd = z3.Not(d)
    for f in sb.facts:
        if f.get_id() not in fa:
            s.facts.append(z3.Implies(nd, f))
    for k in set(sa.notes) | set(sb.notes):
        a, b = sa.notes.get(k), sb.notes.get(k)
        if a is None or b is None or a == b:
            s.notes[k] = a if b is None else b
        elif isinstance(a, int) and isinstance(b, int):
            s.notes[k] = max(a, b)
        elif isinstance(a, frozenset):
            s.notes[k] = a | b
        else:
            raise No()
    for k in set(sa.mem) | set(sb.mem):
        x, y = sa.mem.get(k), sb.mem.get(k)
        if x is None or y is None:
            s.mem[k] = y if x is None else x
        else:
            s.mem[k] = jobj(ex, d, x, y)
    env = {}
    for k in ea.keys() & eb.keys() if ea is not None else ():
        if same(ea[k], eb[k]):
            env[k] = ea[k]
            continue
        if live is not None and k not in live:
            continue
        env[k] = jval(ex, d, ea[k], eb[k])
    v = [jval(ex, d, a, b) for a, b in zip(va, vb)]
    return (s, env if ea is not None else None, v)


def tree(ex, items, n, live):
    if len(items) == 1:
        return items
    while all(len(i[0].pc) > n for i in items) and len({i[0].pc[n].get_id() for i in items}) == 1:
        n += 1
    groups, ended = {}, []
    for i in items:
        if len(i[0].pc) <= n:
            ended.append(i)
        else:
            groups.setdefault(i[0].pc[n].get_id(), []).append(i)
    gs = [tree(ex, g, n + 1, live) for g in groups.values()]
    out = list(ended)
    while len(gs) > 1:
        a = gs.pop()
        b = gs.pop()
        res = []
        a, b = list(a), list(b)
        done = []
        for x in a:
            hit = False
            for j, y in enumerate(b):
                d = disc(x[0].pc[n:], y[0].pc[n:])
                if d is None:
                    continue
                try:
                    b[j] = join(ex, d, n, x, y, live)
                    hit = True
                    break
                except No:
                    continue
            if not hit:
                done.append(x)
        gs.append(done + b)
    return out + (gs[0] if gs else [])


def disc(ra, rb):
    """a condition true on the first path and false on the second"""
    sb = {c.get_id() for c in rb}
    for c in ra[:40]:
        n = b_not(c)
        if not isinstance(n, bool) and n.get_id() in sb:
            return c
    for c in ra[:3]:
        for e in rb[:3]:
            s = z3.Solver()
            s.set("timeout", 200, "arith.nl.grobner", False)
            s.add(c, e)
            if s.check() == z3.unsat:
                return c
    s = z3.Solver()
    s.set("timeout", 300, "arith.nl.grobner", False)
    s.add(*ra[:6])
    s.add(*rb[:6])
    if s.check() == z3.unsat:
        return b_and(*ra[:6])
    return None


def items(ex, fr, header, its):
    """join items about to enter the loop at header"""
    if len(its) < 2:
        return its
    blk = fr.fn.blocks[header]
    phis = [i.res for i in blk.ins[:blk.nphi]]
    live = live_names(fr.fn, header)
    el = []
    for it in its:
        env = dict(it.env)
        if it.prev != "!merged":
            new = {}
            for ins in blk.ins[:blk.nphi]:
                for src, op in ins.a:
                    if src == it.prev:
                        v = ex.val(it.st, it.env, ins.ty, op)
                        if isinstance(v, Concat):
                            v = ex.concat_val(v, it.st)
                        new[ins.res] = v
                        break
                else:
                    return its
            env.update(new)
        el.append((it.st, env, []))
    lv = set(live) | set(phis)
    try:
        res = tree(ex, el, 0, lv)
    except No:
        return its
    if len(res) == len(its):
        return its
    return [Item(header, 0, e, s, "!merged", False) for s, e, v in res]


def outs(ex, os_):
    """join the returns of a call"""
    rets = [o for o in os_ if o[0] == "ret"]
    if len(rets) < 2:
        return os_
    try:
        res = tree(ex, [(s, None, [v] if v is not None else []) for k, s, v in rets], 0, None)
    except No:
        return os_
    return [o for o in os_ if o[0] != "ret"] + [("ret", s, v[0] if v else None) for s, e, v in res]
