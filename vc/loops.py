"""Loops with a symbolic exit test: cut by an inductive invariant over a fresh iteration
counter k.  The invariant's shape is inferred (induction variables, closed-form iterates,
map summaries of arrays, object families for allocations) or supplied by a contract
(ex.loop_specs); every part is checked on entry and on preservation, and the run that
checks preservation emits the obligations of the loop body."""
import hashlib
import os
import re
from fractions import Fraction
import z3
from .llir import Unsupported, INT, DOUBLE, PTR
from . import terms as T
from .terms import conc, zr, zi, zb, simp, isimp, cmpop, b_and, b_or, b_not, b_imp, fresh, I, R, B
from .engine import (Ptr, FuncPtr, Undef, UNDEF, Concat, Item, PathEnd, Obj, same, NULL, Fork)

DBG = bool(os.environ.get("VC_DBG"))
_INST = z3.Int("INST?")
_IDX = z3.Int("IDX?")


def ctr_of(name):
    if "!" in name:
        t = name.rsplit("!", 1)[1]
        if t.isdigit():
            return int(t)
    return -1


class Slot:
    """a scalar that may change around the loop"""
    def __init__(self, kind, key, ty, init):
        self.kind, self.key, self.ty, self.init = kind, key, ty, init
        self.plan = "same"
        self.bad = set()
        self.align = None
        self.step = None
        self.var = None
        self.F = None
        self.bounds = ()
        self.settled = False

    def name(self):
        return "%s:%s" % (self.kind, self.key)


class RegPlan:
    def __init__(self):
        self.plan = "same"
        self.entries = None
        self.bad = set()
        self.hbase = None


def num(v):
    return v.off if isinstance(v, Ptr) else v


def linear_in(t, k):
    """(a,b) with t == a + b*k, b integer constant, a free of k; else None"""
    if conc(t):
        return (t, 0)
    kn = k.decl().name()
    if kn not in T.freevars(t):
        return (t, 0)
    a = isimp(z3.substitute(t, (k, z3.IntVal(0))))
    b = isimp(z3.substitute(t, (k, z3.IntVal(1))) - zi(a))
    if not conc(b):
        return None
    d = isimp(t - zi(a) - b * k)
    if conc(d) and d == 0:
        return (a, b)
    return None


class Cut:
    def __init__(self, ex, fr, L, item):
        self.ex, self.fr, self.L, self.item = ex, fr, L, item
        self.st0 = item.st
        self.env0 = item.env
        self.ctr0 = T._ctr[0]
        self.inputs0 = set(ex.inputs)
        self.k = fresh("k", I)
        ex.rng[self.k.decl().name()] = (0, None)
        self.slots = {}
        self.regs = {}       # oid -> RegPlan
        self.freed = {}      # oid -> plan dict
        self.fams = {}       # alloc ordinal -> family info
        self.allfresh = set()
        self.specs = []      # extra candidates: fn(get, k)->Bool ; from contracts
        self.bound = []      # conjuncts C(k) of the continue condition (pre-loop symbols only)
        blk = fr.fn.blocks[L.header]
        self.blk = blk
        for ins in blk.ins[:blk.nphi]:
            for src, op in ins.a:
                if src == item.prev:
                    v = ex.val(item.st, item.env, ins.ty, op)
                    break
            else:
                if item.prev != "!merged":
                    raise Unsupported("phi without incoming")
                v = item.env[ins.res]
            if isinstance(v, Concat):
                v = ex.concat_val(v, item.st)
            s = Slot("phi", ins.res, ins.ty, v)
            s.plan = "havoc"
            self.slots[("phi", ins.res)] = s

    # -------------------------------------------------------------- state at iteration k
    def slot_val(self, s, k, st=None):
        """value of slot at iteration k under its plan"""
        if s.plan == "same":
            return s.init
        if s.plan == "ind":
            v = T.i_add(num(s.init), T.i_mul(s.step, k)) if s.isint else T.r_add(s.init, T.r_mul(s.step, z3.ToReal(k)))
            if s.isint:
                v = isimp(v) if not conc(v) else v
            return Ptr(s.init.obj, v, s.init.inst) if isinstance(s.init, Ptr) else v
        if s.plan == "iter":
            v = s.app(k)
            return Ptr(s.init.obj, v, s.init.inst) if isinstance(s.init, Ptr) else v
        if s.plan == "acc" and not conc(k) and k.eq(self.k):
            return s.var          # opaque inside the body, with its value as a fact
        if s.plan in ("acc", "poly"):
            return s.closed(k)
        # havoc
        if s.var is None:
            s.var = self.havoc_value(s)
        return s.var

    def havoc_value(self, s):
        v = s.init
        nm = "h_" + s.name().replace(":", "_").replace("%", "")
        if isinstance(v, Ptr):
            if v.obj == 0:
                raise Unsupported("null-initialised pointer modified in loop")
            x = fresh(nm, I)
            o = self.st0.mem.get(v.obj)
            if o is not None and o.kind == "region" and "aligned" not in s.bad:
                # candidate: moves by whole elements
                s.align = o.stride or 8
                if s.align > 1:
                    return Ptr(v.obj, T.i_add(v.off, T.i_mul(x, s.align)), v.inst)
            s.align = None
            return Ptr(v.obj, x, v.inst)
        if isinstance(v, FuncPtr):
            raise Unsupported("function pointer modified in loop")
        ty = s.ty
        if ty is None:
            if isinstance(v, Fraction) or (not conc(v) and not isinstance(v, (Undef, Concat)) and v.sort() == R):
                return fresh(nm, R)
            if s.nextty is not None:
                ty = s.nextty
            else:
                ty = INT(8 * s.size)
        if ty.k in ("double", "float"):
            return fresh(nm, R)
        if ty.k == "int":
            if ty.a == 1:
                return fresh(nm, B)
            return self.ex.fresh_int(nm, ty.a)
        if ty.k == "ptr":
            if isinstance(v, Undef):
                return UNDEF
        raise Unsupported("cannot havoc %s" % s.name())

    def build(self, k):
        ex = self.ex
        st = self.st0.copy()
        st.add(cmpop('>=', k, 0))
        env = dict(self.env0)
        for s in self.slots.values():
            v = self.slot_val(s, k)
            if s.kind == "phi":
                env[s.key] = v
            else:
                oid, off = s.key
                o = st.mem[oid].clone()
                o.cells = dict(o.cells)
                ex.cell_write(o, off, s.size, v)
                st.mem[oid] = o
            if s.plan == "havoc" and ex.opts.get("merge") and z3.is_expr(v) and not conc(k) and \
                    (conc(s.init) or z3.is_expr(s.init)) and not isinstance(s.init, bool) and v.sort() in (I, R):
                i0 = zr(s.init) if v.sort() == R else zi(s.init) if not isinstance(s.init, Fraction) else None
                if i0 is not None and i0.sort() == v.sort():
                    st.facts.append(z3.Implies(zi(k) == 0, v == i0))
            if s.plan in ("iter", "acc"):
                st.facts.extend(s.facts(k))
                if s.plan == "acc" and v is s.var:
                    st.facts.append(s.var == zr(s.closed(k)))
        for oid, rp in self.regs.items():
            st.mem[oid] = self.region_at(oid, rp, k, st.mem[oid])
        for fam in self.fams.values():
            o = fam["obj"].clone()
            o.count = k
            st.mem[o.id] = o
        for oid, fp in self.freed.items():
            o = st.mem[oid].clone()
            o.freed = self.freed_at(oid, fp, k)
            st.mem[oid] = o
        # bound facts
        for c in self.bound:
            g = simp(z3.substitute(c, (self.k, zi(T.i_sub(k, 1)))))
            st.add(b_or(cmpop("==", k, 0), g) if g is not False else cmpop("==", k, 0))
        for c in self.qbound:
            j = fresh("j", I)
            body = z3.substitute(c, (self.k, j))
            st.facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(k)), body)))
        for sp in self.specs:
            g = sp["st"](st) if "st" in sp else sp["fn"](self.getter(k), k)
            st.add(simp(g) if not isinstance(g, bool) else g)
        return st, env

    def harness_invariants(self):
        """the invariants stated in the harness: functions INV_*, read at the loop head"""
        ex = self.ex
        rx = ex.opts.get("inv")
        if not rx or not re.search(rx, self.fr.fn.demangled):
            return []
        out = []
        for n in sorted(ex.mod.funcs):
            if not n.startswith("INV_"):
                continue
            fn = ex.mod.get(n)

            def stfn(st, fn=fn):
                s = st.copy()
                n0 = len(s.pc)
                no = len(ex.obls)
                ex.quiet += 1
                try:
                    outs = ex.run_function(fn, [], s, self.fr.depth + 1)
                finally:
                    ex.quiet -= 1
                    del ex.obls[no:]
                g = True
                for kind, s2, v in outs:
                    if kind != "ret":
                        return False
                    v = ex.tobool(v, INT(1)) if not isinstance(v, bool) else v
                    g = b_and(g, b_imp(b_and(*s2.pc[n0:]), v))
                return g
            out.append(dict(st=stfn, name=n[4:]))
        return out

    def getter(self, k):
        def get(name):
            for s in self.slots.values():
                if s.name() == name or (s.kind == "phi" and s.key == name):
                    return self.slot_val(s, k)
            raise KeyError(name)
        return get

    def region_at(self, oid, rp, k, cur):
        ex = self.ex
        o0 = self.st0.mem[oid]
        o = cur.clone()
        if rp.plan == "havoc":
            if o.stride is None:
                if rp.stride is None:
                    raise Unsupported("untyped region in loop")
                o.stride, o.vt = rp.stride, rp.vt
            if rp.hbase is None:
                if o.vt is None:
                    o.vt = rp.vt
                rp.hbase = ex.uf_base(o, o.vt or PTR)
            o.base, o.log, o.tag = rp.hbase, (), None
            return o
        if rp.plan == "sum":
            if o.stride is None:
                o.stride, o.vt = rp.stride, rp.vt
                ex.type_region(o, o.vt)
                self.st0.mem[oid] = self.st0.mem[oid].clone()
                b = self.st0.mem[oid]
                b.stride, b.vt, b.base = o.stride, o.vt, o.base
            log = o0.log
            for e in rp.entries:
                log = log + (self.entry_at(e, k),)
            o.log = log
            return o
        return o

    def entry_at(self, e, k):
        """closure ('m', cf, vf) for iteration bound k"""
        cond, val, kap, b = e["cond"], e["val"], e["kappa"], e["b"]

        def sub(t, inst, idx):
            if conc(t):
                return t
            p = [(_IDX, zi(idx))]
            if inst is not None:
                p.append((_INST, zi(inst)))
            return simp(z3.substitute(t, *p))

        def cf(inst, idx):
            kk = sub(kap[0], inst, idx)
            return b_and(cmpop("<=", 0, kk), cmpop("<", kk, k), sub(kap[1], inst, idx) if not isinstance(kap[1], bool) else kap[1],
                         sub(cond, inst, idx) if not isinstance(cond, bool) else cond)

        def vf(inst, idx):
            if isinstance(val, tuple) and val[0] == "ptr":
                _, obj, off, pinst = val
                return Ptr(obj, sub(off, inst, idx) if not conc(off) else off,
                           None if pinst is None else sub(pinst, inst, idx))
            if isinstance(val, (Ptr, FuncPtr, Undef)):
                return val
            return sub(val, inst, idx)
        return ("m", cf, vf)

    def freed_at(self, oid, fp, k):
        o0 = self.st0.mem.get(oid)
        base = tuple(o0.freed or ()) if o0 is not None else ()
        e = fp["entry"]

        def f(inst):
            if not e:
                return False
            kk = simp(z3.substitute(e["kappa"][0], (_INST, zi(inst)))) if not conc(e["kappa"][0]) else e["kappa"][0]
            cc = e["kappa"][1]
            if not isinstance(cc, bool):
                cc = simp(z3.substitute(cc, (_INST, zi(inst))))
            c2 = e["cond"]
            if not isinstance(c2, bool):
                c2 = simp(z3.substitute(c2, (_INST, zi(inst))))
            return b_and(cmpop("<=", 0, kk), cmpop("<", kk, k), cc, c2)
        return base + (f,)

    # -------------------------------------------------------------- running the body
    def body(self, st, env):
        ex, fr, L = self.ex, self.fr, self.L
        it = Item(L.header, self.blk.nphi, env, st.copy(), None)
        if self.blk.nphi == 0:
            it.prev = self.item.prev
        return ex.explore(fr, [it], L)

    def probe(self):
        ex, fr = self.ex, self.fr
        n = len(fr.outs)
        no = len(ex.obls)
        ex.quiet += 1
        try:
            st, env = self.build(self.k)
            backs, exits = self.body(st, env)
        finally:
            ex.quiet -= 1
            del fr.outs[n:]
            del ex.obls[no:]
        return st, backs, exits

    def nextvals(self, b):
        out = {}
        for ins in self.blk.ins[:self.blk.nphi]:
            for src, op in ins.a:
                if src == b.prev:
                    v = self.ex.val(b.st, b.env, ins.ty, op)
                    if isinstance(v, Concat):
                        v = self.ex.concat_val(v, b.st)
                    out[("phi", ins.res)] = v
                    break
            else:
                raise Unsupported("phi without incoming (latch)")
        for key, s in self.slots.items():
            if s.kind == "cell":
                oid, off = s.key
                out[key] = self.ex.cell_read(b.st.mem[oid], off, s.size)
                if isinstance(out[key], Concat):
                    out[key] = self.ex.concat_val(out[key], b.st)
        return out

    def allowed(self, t, extra=()):
        """only symbols that exist before the loop, k, and extra"""
        if conc(t):
            return True
        for n in T.freevars(t):
            if n == self.k.decl().name() or n in extra:
                continue
            c = ctr_of(n)
            if c > self.ctr0 and not n.startswith("iter_"):
                return False
            if c < 0 and n in self.ex.inputs and n not in self.inputs0:
                return False
        return True

    def scan_memory(self, st, backs):
        """mark objects/cells changed by the body; True if the plan changed"""
        ex = self.ex
        ch = False
        for b in backs:
            for oid, o in b.st.mem.items():
                o1 = st.mem.get(oid)
                if o1 is None:
                    if o.name.startswith("@") and not o.const:
                        ex.glob(self.st0, o.name[1:])
                        ch = True
                    elif o.name == "errno":
                        raise Unsupported("errno object created in loop")
                    continue
                if o is o1:
                    continue
                if o.kind == "cells":
                    if o.fill != o1.fill:
                        # convert fills into explicit cells is not supported
                        raise Unsupported("memset/memcpy of cells in cut loop")
                    for off in set(o.cells) | set(o1.cells):
                        a, c = o1.cells.get(off), o.cells.get(off)
                        if a is not None and c is not None and a[0] == c[0] and same(a[1], c[1]):
                            continue
                        key = ("cell", (oid, off))
                        if key in self.slots:
                            continue
                        if c is None:       # out of its scope at the end of the body
                            s = Slot("cell", (oid, off), None, UNDEF)
                            s.size = a[0]
                            s.plan = "havoc"
                            s.nextty = None
                            s.var = UNDEF
                            self.slots[key] = s
                            ch = True
                            continue
                        sz = c[0]
                        init = ex.cell_read(self.st0.mem[oid], off, sz)
                        if isinstance(init, Concat):
                            init = ex.concat_val(init, self.st0)
                        s = Slot("cell", (oid, off), None, init)
                        s.size = sz
                        s.plan = "havoc"
                        s.nextty = None
                        nv = c[1]
                        if isinstance(init, Undef) or (conc(init) and init == 0):
                            if isinstance(nv, Fraction) or (not conc(nv) and not isinstance(nv, (Ptr, FuncPtr, Undef, Concat)) and nv.sort() == R):
                                s.nextty = DOUBLE
                                if conc(init):
                                    s.init = Fraction(0)
                            elif isinstance(nv, Ptr):
                                s.nextty = PTR
                        self.slots[key] = s
                        ch = True
                else:
                    if o.log is o1.log and o.base is o1.base or (o.log == o1.log and o.base is o1.base):
                        pass
                    elif o1.stride is None and len(o.log) == len(o1.log) == 0:
                        # typed by a read
                        self.st0.mem[oid] = self.st0.mem[oid].clone()
                        q = self.st0.mem[oid]
                        q.stride, q.base, q.vt = o.stride, o.base, o.vt
                        ch = True
                    else:
                        rp = self.regs.get(oid)
                        if rp is None:
                            rp = self.regs[oid] = RegPlan()
                        if rp.plan == "same":
                            rp.plan = "havoc"
                            rp.stride = o.stride
                            rp.vt = o.vt
                            if rp.vt is None:
                                for e in o.log:
                                    if e[0] == "w":
                                        v = e[3]
                                        if isinstance(v, Fraction) or (not conc(v) and not isinstance(v, (Ptr, FuncPtr, Undef, Concat)) and v.sort() == R):
                                            rp.vt = DOUBLE
                                        elif isinstance(v, (Ptr, FuncPtr)):
                                            rp.vt = PTR
                                        else:
                                            rp.vt = INT(8 * o.stride)
                            ch = True
                fr0 = o1.freed
                if o.count is not None:
                    if len(o.freed or ()) != len(o1.freed or ()) and oid not in self.freed:
                        self.freed[oid] = dict(entry=None, tried=False)
                        ch = True
                elif o.freed is not o1.freed and o.freed != o1.freed:
                    if o.heap or o1.freed is True:
                        raise Unsupported("object freed in loop" + (" (%s id %d heap=%s; loop %s in %s; at head %s; st0 pcs %d)" % (o.name, oid, o.heap, self.L.header, self.fr.fn.demangled[:60], o1.freed, len(self.st0.pc))))
                    # a local out of its scope at the end of the body: taken as such at the head
                    q = self.st0.mem[oid] = self.st0.mem[oid].clone()
                    q.freed = True
                    ch = True
        return ch

    def suffix(self, st, b):
        return [c for c in b.st.pc if c.get_id() not in st.pcset]

    # -------------------------------------------------------------- upgrades
    def compute_bound(self, st, backs):
        if not backs:
            self.bound, self.qbound = [z3.BoolVal(False)], []
            return
        sets = []
        for b in backs:
            sets.append({c.get_id(): c for c in self.suffix(st, b) if self.allowed(c)})
        common = set(sets[0])
        for s in sets[1:]:
            common &= set(s)
        out = [sets[0][i] for i in sorted(common)]
        if 1 < len(backs) <= 6:
            d = b_or(*[b_and(*[c for i, c in sorted(s.items()) if i not in common]) for s in sets])
            if d is not True and not isinstance(d, bool):
                d = simp(d)
                if not isinstance(d, bool):
                    out.append(d)
        for c in list(out):
            if z3.is_and(c):
                out.extend(x for x in conj(c) if not any(x.eq(y) for y in out))
        self.bound = [c for c in out if self.k.decl().name() in T.freevars(c) or not z3.is_or(c)]
        self.qbound = [c for c in self.bound if any_uf(c)]

    def upgrade_slots(self, st, backs, nv):
        ch = False
        ex = self.ex
        kn = self.k.decl().name()
        if not backs:
            return False
        for key, s in self.slots.items():
            if s.plan != "havoc":
                continue
            cur = s.var
            if z3.is_expr(cur) and (True and not conc(cur) and cur.sort() == I):
                for b, n in zip(backs, nv):
                    v = n[key]
                    if not conc(v) and z3.is_expr(v) and v.decl().kind() == z3.Z3_OP_ITE:
                        n[key] = self.settle(v, b, z3.BoolVal(True))
            vals = [n[key] for n in nv]
            if "same" not in s.bad and all(same(v, cur) for v in vals):
                s.plan = "same"
                ch = True
                continue
            if isinstance(s.init, (Undef, FuncPtr)) or any(isinstance(v, (Undef, FuncPtr, Concat)) for v in vals):
                continue
            if ex.opts.get("merge") and "same" not in s.bad and isinstance(s.init, int) and z3.is_expr(cur) and cur.sort() == I and \
                    all(not isinstance(v, Ptr) and (v == s.init if conc(v) else ex.quick(b.st, v == s.init)) for v, b in zip(vals, backs)):
                # the loop is left when it changes
                s.plan = "same"
                ch = True
                continue
            if isinstance(s.init, Ptr):
                if any(not isinstance(v, Ptr) or v.obj != s.init.obj for v in vals):
                    raise Unsupported("pointer changes object in loop")
                s.isint = True
            elif not conc(cur) and cur.sort() == B:
                continue
            else:
                if any(isinstance(v, Ptr) for v in vals):
                    raise Unsupported("pointer into non-pointer slot")
                s.isint = not (cur.sort() == R)
            if self.ex.bv and s.isint and not isinstance(s.init, Ptr):
                continue
            if "ind" not in s.bad:
                ds = []
                for v in vals:
                    d = T.i_sub(num(v), num(cur)) if s.isint else T.r_sub(v, cur)
                    ds.append(isimp(d) if s.isint else simp(d))
                d0 = ds[0]
                if all(T.samet(d0, d) for d in ds) and self.allowed(d0) and (conc(d0) or kn not in T.freevars(d0)):
                    s.plan, s.step = "ind", d0
                    ch = True
        return ch

    def abstracter(self, params, slotnames):
        """replaces maximal loop-constant subterms by parameters (collected in params)"""
        kn = self.k.decl().name()

        def param(t):
            t = isimp(t) if t.sort() == I else simp(t)
            if conc(t):
                return zr(t) if isinstance(t, Fraction) else zi(t)
            for c, p in params:
                if c.eq(t):
                    return p
            p = z3.Const("p?%d" % len(params), t.sort())
            params.append((t, p))
            return p

        def absr(t):
            fv = T.freevars(t)
            if not (fv & slotnames):
                if z3.is_rational_value(t) or z3.is_int_value(t) or z3.is_true(t) or z3.is_false(t):
                    return t
                if kn not in fv and t.sort() in (I, R):
                    return param(t)
                if t.sort() == I:
                    r = linear_in(t, self.k)
                    if r is not None:
                        return param(zi(r[0])) + r[1] * self.k
            if t.num_args() == 0:
                return t
            return t.decl()(*[absr(c) for c in t.children()])
        return absr

    def merged(self, backs, ts, names=()):
        """the per-path terms ts as one term, by the path conditions; None when they involve
        symbols of the body"""
        ts = [self.expand(t) for t in ts]
        if any(not self.allowed(t, names) for t in ts):
            return None
        F = ts[-1]
        if all(T.samet(ts[0], t) for t in ts):
            return F
        sfx = [[c for c in b.st.pc if c.get_id() not in self.pc0] for b in backs]
        common = set.intersection(*[{c.get_id() for c in x} for x in sfx])
        conds = [[self.expand(c) for c in x if c.get_id() not in common] for x in sfx]
        conds = [[c for c in x if c is not True] for x in conds]
        for cs in conds:
            for c in cs:
                if not self.allowed(c, names):
                    return None
        z = zr if any(not conc(t) and t.sort() == R or isinstance(t, Fraction) for t in ts) else zi
        F = z(F)
        for t, cs in reversed(list(zip(ts[:-1], conds[:-1]))):
            F = z3.If(zb(b_and(*cs)), z(t), F)
        return F

    def upgrade_acc(self, st, backs, nv):
        """s' = s + f(k): the sum of f, with the iterations a condition k == kappa singles out
        taken out of it"""
        if not backs or self.ex.bv:
            return False
        ch = False
        self.pc0 = st.pcset
        for key, s in self.slots.items():
            if s.plan != "havoc" or "acc" in s.bad or isinstance(s.init, (Undef, FuncPtr, Ptr)) or s.var is None:
                continue
            if conc(s.var) or not z3.is_expr(s.var) or s.var.sort() != R:
                continue
            ts = [n[key] for n in nv]
            if any(isinstance(t, (Undef, Concat, FuncPtr, Ptr)) for t in ts):
                continue
            ds = [increment(t, s.var) for t in ts]
            if any(d is None for d in ds):
                continue
            F = self.merged(backs, ds)
            if F is None:
                continue
            F = zr(simp(F)) if not conc(F) else zr(F)
            s.incr = F
            picks = []
            F0 = F
            while len(picks) < 8:
                kap = self.pick_of(F0)
                if kap is None:
                    break
                F1 = simp(z3.substitute(F0, (self.k, zi(kap))))
                G = self.without(F0, kap)
                G1 = simp(z3.substitute(zr(G), (self.k, zi(kap))))
                d = simp(zr(F1) - zr(G1))
                if not (conc(d) and d == 0):
                    picks.append((kap, d))
                F0 = zr(G)
            s.picks = picks
            kn = self.k.decl().name()
            if conc(simp(F0)) and simp(F0) == 0:
                rest = None
            elif kn not in T.freevars(F0):
                def rest(k, F0=F0):
                    return zr(F0) * z3.ToReal(zi(k))
                s.facts = lambda k: []
            else:
                params = []
                absr = self.abstracter(params, set())
                key2 = z3.simplify(z3.substitute(absr(F0), (self.k, z3.Int("k?"))), som=True).sexpr()
                h = hashlib.md5(key2.encode()).hexdigest()[:12]
                ps = [c for c, p in params]
                fn = z3.Function("iter_s" + h, *([I] + [p.sort() for p in ps] + [R]))

                def rest(k, fn=fn, ps=ps):
                    return fn(zi(k), *ps)

                def facts(k, rest=rest, F0=F0):
                    return [rest(0) == 0, rest(T.i_add(k, 1)) == rest(k) + z3.substitute(F0, (self.k, zi(k)))]
                s.facts = facts
            if rest is None:
                s.facts = lambda k: []

            def closed(k, s=s, rest=rest, picks=picks):
                v = s.init
                if rest is not None:
                    r = rest(k)
                    v = T.r_add(v, simp(r) if conc(k) and k == 0 else r)
                    if conc(k) and k == 0:
                        v = s.init
                for kap, d in picks:
                    c = b_and(cmpop("<=", 0, kap), cmpop("<", kap, k))
                    if c is False:
                        continue
                    v = T.r_add(v, zr(d) if c is True else z3.If(zb(c), zr(d), zr(0)))
                return v
            s.closed = closed
            s.plan = "acc"
            ch = True
        return ch

    def eq_atoms(self, t):
        """(node, kappa) for the integer equations node <=> k == kappa inside t"""
        kn = self.k.decl().name()
        out = []
        for x in walk(t):
            if z3.is_eq(x) and x.arg(0).sort() == I and kn in T.freevars(x):
                r = linear_in(isimp(x.arg(0) - x.arg(1)), self.k)
                if r is None or r[1] not in (1, -1):
                    continue
                out.append((x, isimp(-zi(r[0])) if r[1] == 1 else r[0]))
        return out

    def pick_of(self, t):
        for x, kap in self.eq_atoms(t):
            return kap
        return None

    def without(self, t, kap):
        ps = [(x, z3.BoolVal(False)) for x, k2 in self.eq_atoms(t) if T.samet(kap, k2)]
        return simp(z3.substitute(t, *ps))

    def upgrade_poly(self, st, backs, nv):
        """s' = s * r(k): a polynomial closed form guessed from the first iterates (checked
        like every other part of the invariant)"""
        if not backs or self.ex.bv:
            return False
        ch = False
        self.pc0 = st.pcset
        for key, s in self.slots.items():
            if s.plan != "havoc" or "poly" in s.bad or isinstance(s.init, (Undef, FuncPtr, Ptr)) or s.var is None:
                continue
            if conc(s.var) or not z3.is_expr(s.var) or s.var.sort() != R:
                continue
            ts = [n[key] for n in nv]
            if any(isinstance(t, (Undef, Concat, FuncPtr, Ptr)) or conc(t) for t in ts):
                continue
            F = self.merged(backs, ts, (s.var.decl().name(),))
            if F is None:
                continue
            z = simp(z3.substitute(F, (s.var, z3.RealVal(0))))
            if not (conc(z) and z == 0):
                continue
            P = closed_poly(F, s.var, self.k, s.init)
            if P is None:
                s.bad.add("poly")
                continue
            P0 = simp(z3.substitute(P, (self.k, z3.IntVal(0))))
            split = not T.samet(P0, s.init if conc(s.init) else simp(s.init))

            def closed(k, s=s, P=P, split=split):
                if conc(k) and k == 0:
                    return s.init
                v = simp(z3.substitute(P, (self.k, zi(k))))
                return z3.If(zi(k) == 0, zr(s.init), zr(v)) if split else v
            s.closed = closed
            s.plan = "poly"
            ch = True
        return ch

    def upgrade_iter(self, st, backs, nv):
        """scalars with a deterministic recurrence get the iterate as closed form"""
        if not backs or self.ex.bv:
            return False
        grp = [s for s in self.slots.values() if s.plan == "havoc" and "iter" not in s.bad and
               not isinstance(s.init, (Undef, FuncPtr)) and not (isinstance(s.var, Ptr) and s.align) and not (not conc(num(s.var)) and num(s.var).sort() == B)]
        if not grp:
            return False
        names = {num(s.var).decl().name(): s for s in grp}
        sfx = [[c for c in self.suffix(st, b)] for b in backs]
        # smallest closed group
        keyof = {id(s): k for k, s in self.slots.items()}
        conds = []
        common = set.intersection(*[{c.get_id() for c in s} for s in sfx])
        for s in sfx:
            conds.append([c for c in s if c.get_id() not in common])
        changed = False
        while True:
            ok = True
            for s in list(grp):
                ts = [self.expand(num(n[keyof[id(s)]])) for n in nv]
                need = set()
                bad = any(isinstance(t, (Undef, Concat, FuncPtr, Ptr)) for t in ts)
                if not bad:
                    for t in ts:
                        if not self.allowed(t, names):
                            bad = True
                if not bad and len(nv) > 1 and not all(T.samet(ts[0], t) for t in ts):
                    for cs in conds:
                        for c in cs:
                            if not self.allowed(c, names):
                                bad = True
                if bad:
                    grp.remove(s)
                    names.pop(num(s.var).decl().name())
                    ok = False
                    break
            if ok:
                break
        if not grp:
            return False
        # dependency: only the variables actually used (transitively) make up each iterate
        Fs = {}
        for s in grp:
            ts = [self.expand(num(n[keyof[id(s)]])) for n in nv]
            real = num(s.var).sort() == R
            z = zr if real else zi
            F = z(ts[-1])
            if not all(T.samet(ts[0], t) for t in ts):
                for t, cs in reversed(list(zip(ts[:-1], conds[:-1]))):
                    F = z3.If(zb(b_and(*cs)), z(t), F)
            Fs[id(s)] = F
        for s in grp:
            dep = [s]
            i = 0
            while i < len(dep):
                for n in sorted(T.freevars(Fs[id(dep[i])])):
                    q = names.get(n)
                    if q is not None and q not in dep:
                        dep.append(q)
                i += 1
            # canonical key
            params = []
            ph = []
            for j, q in enumerate(dep):
                x = num(q.var)
                ph.append((x, z3.Const("x?%d" % j, x.sort())))
            ph.append((self.k, z3.Int("k?")))
            keys = []
            absr = self.abstracter(params, set(names))
            for q in dep:
                F = absr(Fs[id(q)])
                self._stepterm = z3.substitute(F, *ph)
                keys.append(z3.simplify(self._stepterm, som=True).sexpr())
            back = self.reversed_step(s, dep, keys, params)
            if back:
                keys = [back[0]]
                params = [(c, p) for c, p in back[1]]
            params = [c for c, p in params]
            h = hashlib.md5("|".join(keys).encode()).hexdigest()[:12]
            inits = [zr(num(q.init)) if num(q.var).sort() == R else zi(num(q.init)) for q in dep]
            sorts = [I] + [x.sort() for x in inits] + [p.sort() for p in params] + [num(s.var).sort()]
            fn = z3.Function("iter_" + h, *sorts)
            s.dep, s.Fterm = dep, Fs[id(s)]

            def app(k, fn=fn, inits=inits, params=params, down=back[2] if back else ()):
                # a product or sum taken downwards is the one taken upwards from its last term
                ps = [zi(isimp(p - zi(k) + 1)) if i in down else p for i, p in enumerate(params)]
                return fn(zi(k), *(inits + ps))
            s.app = app

            def facts(k, s=s, inits=inits):
                out = [s.app(0) == inits[0]]
                sub = [(num(q.var), q.app(k)) for q in s.dep] + [(self.k, zi(k))]
                F = z3.substitute(s.Fterm, *sub)
                out.append(s.app(T.i_add(k, 1)) == F)
                if s.settled:       # the same value after every iteration
                    out.append(z3.Implies(zi(k) >= 1, s.app(k) == F))
                if s.sum:           # the sum of a polynomial in the counter
                    out.extend(s.sum(zi(k), s.app(k)))
                if s.bounds:
                    # a running maximum (minimum) is above (below) everything it ran over
                    j = fresh("j", I)
                    for up, e in s.bounds:
                        ej = z3.substitute(e, (self.k, j))
                        out.append(s.app(k) >= inits[0] if up else s.app(k) <= inits[0])
                        out.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(k)), s.app(k) >= ej if up else s.app(k) <= ej)))
                return out
            s.facts = facts
            s.bounds = self.running_bound(s)
            s.sum = self.counter_sum(s)
            s.settled = not (T.freevars(s.Fterm) & (set(names) | {self.k.decl().name()}))
        for s in grp:
            s.plan = "iter"
        return True

    def reversed_step(self, s, dep, keys, params):
        """x' = x * f(c - k) or x + f(c - k), over the reals: (key, params, indices) of the same
        step with the counter running upwards"""
        if len(dep) != 1 or num(s.var).sort() != R or not params:
            return None
        x, k = z3.Real("x?0"), z3.Int("k?")
        F = self._stepterm
        G = None
        if z3.is_mul(F) or z3.is_add(F):
            a = [c for c in F.children() if c.eq(x)]
            b = [c for c in F.children() if not c.eq(x)]
            if len(a) == 1 and b and not any("x?0" in T.freevars(c) for c in b):
                G = b
        if G is None:
            return None
        seen, down = [], set()

        def rec(t):
            if t.sort() == I and "k?" in T.freevars(t):
                r = linear_in(isimp(t), k)
                if r is None or r[1] != -1:
                    return False
                seen.append(t)
                return True
            return all(rec(c) for c in t.children())
        if not all(rec(c) for c in G) or not seen:
            return None
        for t in seen:
            ps = [i for i, (c, p) in enumerate(params) if p.decl().name() in T.freevars(t)]
            if len(ps) != 1 or not params[ps[0]][1].sort() == I or isimp(t + k) is None or not zi(isimp(t + k)).eq(params[ps[0]][1]):
                return None
            down.add(ps[0])
        G = z3.substitute(F, *[(t, z3.IntVal(0)) for t in seen])
        if any(params[i][1].decl().name() in T.freevars(G) for i in down):
            return None
        H = z3.substitute(F, (k, -k))
        return z3.simplify(H, som=True).sexpr(), params, down

    def counter_sum(self, s):
        """the closed form of x' = x + P(k), P a polynomial of degree at most 2 with integer
        coefficients that do not change, or one polynomial up to an iteration and another after:
        a function giving what holds of the iterate x at k"""
        x, F = num(s.var), s.Fterm
        if len(s.dep) != 1 or x.sort() != I:
            return None
        # arithmetic modulo 2^b: the sum holds while it is in range (wrapi)
        h = None
        if z3.is_app_of(F, z3.Z3_OP_ITE) and z3.is_add(F.arg(2)):
            t = F.arg(1)
            for b in (8, 16, 32, 64):
                q = z3.Solver()
                q.set("timeout", 2000)
                u, H = fresh("u", I), 1 << (b - 1)
                G = isimp(z3.substitute(F, (x, u - isimp(t - x))))
                q.add(G != (u + H) % (2 * H) - H)
                if q.check() == z3.unsat:
                    h, F = H, t
                    break
        ok = (lambda e, g: g) if h is None else (lambda e, g: z3.Implies(z3.And(e >= -6 * h, e < 6 * h), g))
        d = zi(isimp(F - x))
        if z3.is_app_of(F, z3.Z3_OP_ITE) and x.decl().name() in T.freevars(d):
            d = z3.If(F.arg(0), zi(isimp(F.arg(1) - x)), zi(isimp(F.arg(2) - x)))
        if x.decl().name() in T.freevars(d):
            return None
        ites = [e for e in walk(d) if z3.is_app_of(e, z3.Z3_OP_ITE)]
        init = zi(num(s.init))
        if not ites:
            S = newton_sum(d, self.k)
            if S is None:
                return None
            return lambda k, v: [z3.Implies(k >= 0, ok(6 * init + S(k), 6 * v == 6 * init + S(k)))]
        c = ites[0].arg(0)
        if any(not e.arg(0).eq(c) for e in ites):
            return None
        neg = False
        while z3.is_not(c):
            c, neg = c.arg(0), not neg
        if not (z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c)) or c.arg(0).sort() != I:
            return None
        r = linear_in(isimp(c.arg(0) - c.arg(1)), self.k)
        if r is None or r[1] not in (1, -1):
            return None
        # r0 + r1 k  (op) 0
        up = z3.is_le(c) or z3.is_lt(c)              # the sum is small
        strict = z3.is_lt(c) or z3.is_gt(c)
        first = (r[1] == 1) == up                      # holds for small k
        # number n of the smallest iteration at which the answer changes: k < n first, k >= n then
        r0 = zi(r[0])
        if r[1] == 1:       # k + r0 op 0
            n = {(True, True): -r0, (True, False): 1 - r0, (False, True): 1 - r0, (False, False): -r0}[(up, strict)]
        else:               # r0 - k op 0
            n = {(True, True): r0 + 1, (True, False): r0, (False, True): r0, (False, False): r0 + 1}[(up, strict)]
        first ^= neg
        P = z3.substitute(d, *[(e, e.arg(1) if first else e.arg(2)) for e in ites])
        Q = z3.substitute(d, *[(e, e.arg(2) if first else e.arg(1)) for e in ites])
        SP, SQ = newton_sum(P, self.k), newton_sum(Q, self.k)
        if SP is None or SQ is None:
            return None
        n = zi(isimp(n))

        def out(k, v):
            def eq(S):
                return ok(6 * init + S, 6 * v == 6 * init + S)
            return [z3.Implies(z3.And(k >= 0, k <= n), eq(SP(k))),
                    z3.Implies(z3.And(n >= 0, k >= n), eq(SP(n) + SQ(k) - SQ(n))),
                    z3.Implies(z3.And(n <= 0, k >= 0), eq(SQ(k)))]
        return out

    def running_bound(self, s):
        """[(up, e)] when the iterate is max(x, e) (up) or min(x, e), e depending on k only"""
        x, F = num(s.var), s.Fterm
        if len(s.dep) != 1 or x.sort() not in (R, I) or not z3.is_app_of(F, z3.Z3_OP_ITE):
            return []
        for a, e in ((F.arg(1), F.arg(2)), (F.arg(2), F.arg(1))):
            if not a.eq(x) or x.decl().name() in T.freevars(e):
                continue
            for up in (True, False):
                q = z3.Solver()
                q.set("timeout", 2000)
                u = fresh("u", x.sort())
                G = z3.substitute(F.arg(0), (e, u))       # e may be beyond the solver
                if G.eq(F.arg(0)):
                    G = z3.substitute(simp(F.arg(0)), (simp(e), u))
                H = z3.If(G, *((x, u) if F.arg(1).eq(x) else (u, x)))
                q.add(z3.Not(z3.And(H >= x, H >= u) if up else z3.And(H <= x, H <= u)))
                if q.check() == z3.unsat:
                    return [(up, e)]
        return []

    def solve_k(self, terms):
        """terms: list of (placeholder, e(k)).  returns ((kappa, side), b)"""
        for phd, t in terms:
            if conc(t):
                continue
            r = linear_in(t, self.k)
            if r is None or r[1] == 0 or not self.allowed(zi(r[0])):
                continue
            a, b = r
            if b == 1:
                return (isimp(phd - zi(a)), True), 1
            if b == -1:
                return (isimp(zi(a) - phd), True), -1
            return (isimp((phd - zi(a)) / b), (phd - zi(a)) % b == 0), b
        return None

    def upgrade_regions(self, st, backs, nv):
        ch = False
        ex = self.ex
        for oid, rp in self.regs.items():
            if rp.plan != "havoc" or "sum" in rp.bad or not backs:
                continue
            ents = []
            ok = True
            o1 = st.mem[oid]
            famobj = o1.count is not None
            for b in backs:
                o = b.st.mem[oid]
                if o.log[:len(o1.log)] != o1.log or o.base is not o1.base:
                    ok = False
                    break
                sfx = [c for c in self.suffix(st, b)] if len(backs) > 1 else []
                for e in o.log[len(o1.log):]:
                    r = self.make_entry(e, b, famobj, rp, oid, o, sfx)
                    if DBG and r is None:
                        print("NONE", self.st0.mem[oid].name, self.k, e[0])
                        if e[0] == "w":
                            print("   w", e[1:])
                        else:
                            print("   cond", e[1](_INST if famobj else None, _IDX))
                            print("   val", e[2](_INST if famobj else None, _IDX))
                    if r is None:
                        ok = False
                        break
                    ents.append(r)
                if not ok:
                    break
            if not ok:
                rp.bad.add("sum")
                continue
            rp.plan = "sum"
            rp.entries = ents
            ch = True
        return ch

    def make_entry(self, e, b, famobj, rp, oid, o, sfx):
        ex = self.ex
        if e[0] == "w":
            _, wi, widx, val = e
            eqs = [(_IDX, zi(widx))]
            if famobj:
                eqs.append((_INST, zi(wi)))
            cond = b_and(*[cmpop("==", p, t) for p, t in eqs])
        else:
            _, cf, vf = e
            cond = cf(_INST if famobj else None, _IDX)
            val = vf(_INST if famobj else None, _IDX)
            eqs = find_eqs(cond)
        sk = self.solve_k(eqs)
        if sk is None:
            return None
        cond0 = cond
        (kap, side), bb = sk
        pairs = [(self.k, zi(kap))]
        # the other coordinate keeps its equation
        def sub(t):
            return t if conc(t) else simp(z3.substitute(t, *pairs))
        # a candidate: conditions on symbols of the body are left out, the check decides
        extra = [c for c in sfx if self.allowed(c)]
        cond = b_and(cond, *extra)
        if not isinstance(cond, bool):
            cond = simp(z3.substitute(cond, *pairs))
            if not isinstance(cond, bool) and not self.allowed(cond, ("INST?", "IDX?")):
                return None
        if isinstance(val, Ptr):
            if val.obj == 0:
                v2 = NULL
            else:
                fam = self.fams.get(self.alloc_key(b, val.obj))
                if fam is not None:
                    v2 = ("ptr", fam["obj"].id, val.off, kap)
                    if not conc(val.off):
                        return None
                else:
                    v2 = ("ptr", val.obj, sub(val.off), None if val.inst is None else sub(zi(val.inst)))
        elif isinstance(val, (FuncPtr, Undef)):
            return None
        else:
            if conc(val):
                v2 = val
            else:
                val = self.settle(val, b, cond0)
                v2 = z3.substitute(val, *pairs) if not conc(val) else val
                # widx other coordinates
                hb = T.freevars(v2)
                # reads of havocked regions are guessed to be the initial contents
                for oid2, rp2 in self.regs.items():
                    if rp2.hbase is None:
                        continue
                    f = fn_decl_of(rp2.hbase, self.st0.mem[oid2].count is not None)
                    if f is None or f.name() not in hb:
                        continue
                    o0 = self.st0.mem[oid2]
                    fam2 = o0.count is not None
                    i_, j_ = z3.Int("ai?"), z3.Int("aj?")
                    try:
                        body = ex.region_read(None, self.typed(o0, rp2), j_, i_ if fam2 else None, rp2.vt or DOUBLE, pure=True)
                    except Unsupported:
                        return None
                    if isinstance(body, (Ptr, Undef, FuncPtr)):
                        return None
                    body = zr(body) if f.range() == R else zi(body)
                    body = z3.substitute(body, (i_, z3.Var(0, I)), (j_, z3.Var(1, I))) if fam2 else z3.substitute(body, (j_, z3.Var(0, I)))
                    v2 = z3.substitute_funs(v2, (f, body))
                v2 = simp(v2)
                if not conc(v2) and not self.allowed(v2, ("INST?", "IDX?")):
                    return None
        return dict(cond=cond, val=v2, kappa=(kap, side), b=bb)

    def settle(self, val, b, cond):
        """resolve the case distinctions in val that the path and cond decide"""
        s = b.st.copy()
        try:
            s.add(cond)
        except PathEnd:
            return val
        def has_ite(t):
            return any(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE for x in walk(t))

        def rec(s, t):
            if conc(t) or not has_ite(t):
                return t
            if t.decl().kind() != z3.Z3_OP_ITE:
                ch = [rec(s, c) for c in t.children()]
                if all(x is y for x, y in zip(ch, t.children())):
                    return t
                return t.decl()(*ch)
            c = t.arg(0)
            if self.ex.quick(s, c):
                return rec(s, t.arg(1))
            if self.ex.quick(s, b_not(c)):
                return rec(s, t.arg(2))
            out = []
            for cc, x in ((c, t.arg(1)), (b_not(c), t.arg(2))):
                s2 = s.copy()
                try:
                    s2.add(cc)
                    out.append(rec(s2, x))
                except PathEnd:
                    out.append(None)
            if out[0] is None:
                return out[1]
            if out[1] is None:
                return out[0]
            return z3.If(c, out[0], out[1])
        return simp(rec(s, val))

    def typed(self, o, rp):
        if o.stride is not None:
            return o
        o = o.clone()
        o.stride, o.vt = rp.stride, rp.vt
        self.ex.type_region(o, o.vt)
        self.st0.mem[o.id] = o
        return o

    def alloc_key(self, b, oid):
        """position of a body allocation among the heap objects born in the body"""
        o = b.st.mem.get(oid)
        if o is None or oid <= self.born:
            return None
        l = self.born_list(b)
        for i, x in enumerate(l):
            if x == oid:
                return i
        return None

    def born_list(self, b):
        return [x for x in sorted(b.st.mem) if x > self.born and b.st.mem[x].heap and b.st.mem[x].count is None and
                b.st.mem[x].freed is False and x not in self.fam_ids]

    def upgrade_families(self, st, backs):
        ex = self.ex
        ch = False
        if not backs:
            return False
        ls = [self.born_list(b) for b in backs]
        # families created by inner cuts inside the body are not supported
        for b in backs:
            for x in b.st.mem:
                if x > self.born and b.st.mem[x].count is not None and x not in [f["obj"].id for f in self.fams.values()]:
                    raise Unsupported("nested allocation family")
        if len({len(l) for l in ls}) != 1:
            raise Unsupported("path-dependent allocation in loop")
        for i in range(len(ls[0])):
            if i in self.fams:
                continue
            o = backs[0].st.mem[ls[0][i]]
            size = o.size
            if not conc(size) and not self.allowed(size):
                raise Unsupported("allocation size in loop")
            fo = ex.new_obj(self.st0, "family:" + o.name, None, heap=True, kind="region")
            kk = self.k
            fo.size = (lambda inst, size=size: size) if conc(size) else \
                (lambda inst, size=size: simp(z3.substitute(size, (kk, zi(inst)))))
            fo.count = 0
            fo.freed = ()
            fo.stride = o.stride
            if o.kind == "cells":
                sz = {s for s, v in o.cells.values()}
                fo.stride = sz.pop() if len(sz) == 1 else None
            fo.vt = o.vt
            fo.base = None
            if fo.stride is not None:
                fo.base = ex.uf_base(fo, fo.vt or DOUBLE)
            fo.log = ()
            fo.cells = None
            self.fams[i] = dict(obj=fo, size=size)
            self.fam_ids.add(fo.id)
            # the family must not look born in the body
            ch = True
        return ch

    def upgrade_freed(self, st, backs):
        ch = False
        for oid, fp in self.freed.items():
            if fp["tried"] or not backs:
                continue
            fp["tried"] = True
            b = backs[0]
            new = (b.st.mem[oid].freed or ())[len(st.mem[oid].freed or ()):]
            if len(backs) != 1 or len(new) != 1:
                raise Unsupported("conditional free in loop")
            cond = new[0](_INST)
            sk = self.solve_k(find_eqs(cond))
            if sk is None:
                raise Unsupported("free pattern in loop")
            (kap, side), bb = sk
            c2 = simp(z3.substitute(zb(cond), (self.k, zi(kap))))
            fp["entry"] = dict(kappa=(kap, side), cond=c2)
            ch = True
        return ch

    # -------------------------------------------------------------- checks
    def checks(self, st, b, nv):
        """list of (description, goal or None when structurally true, fail-callback)"""
        ex = self.ex
        k1 = T.i_add(self.k, 1)
        out = []
        for key, s in self.slots.items():
            if s.plan == "havoc":
                if s.align and isinstance(s.var, Ptr):
                    v = nv[key]
                    g = isinstance(v, Ptr) and v.obj == s.init.obj and \
                        cmpop("==", zi(T.i_sub(v.off, s.init.off)) % s.align, 0)
                    out.append(("loop-invariant alignment", simp(g) if not isinstance(g, bool) else g, ("align", s)))
                continue
            v = nv[key]
            if s.plan == "acc":
                # by definition of the sum: the increment is the summand
                if isinstance(v, (Undef, Concat, FuncPtr, Ptr)):
                    out.append(("loop-invariant acc", False, ("slot", s)))
                    continue
                d = self.acc_delta(s, v)
                if d is None or not T.samet(zr(d), zr(s.incr)):
                    g = False if d is None else cmpop("==", zr(d), zr(s.incr))
                    out.append(("loop-invariant acc", simp(g) if not isinstance(g, bool) else g, ("slot", s)))
                continue
            w = self.slot_val(s, k1)
            if same(v, w):
                continue
            if isinstance(v, (Undef, Concat, FuncPtr)) or isinstance(w, (Undef, Concat, FuncPtr)):
                out.append(("loop-invariant %s" % s.plan, False, ("slot", s)))
                continue
            if isinstance(v, Ptr) != isinstance(w, Ptr) or (isinstance(v, Ptr) and (v.obj != w.obj or (v.inst is None) != (w.inst is None))):
                out.append(("loop-invariant pointer", False, ("slot", s)))
                continue
            g = cmpop("==", num(v), num(w))
            if isinstance(v, Ptr) and v.inst is not None:
                g = b_and(g, cmpop("==", v.inst, w.inst))
            out.append(("loop-invariant %s" % s.plan, simp(g) if not isinstance(g, bool) else g, ("slot", s)))
        for oid, rp in self.regs.items():
            if rp.plan != "sum":
                continue
            cur = b.st.mem[oid]
            want = self.region_at(oid, rp, k1, cur)
            J = fresh("J", I)
            Ji = fresh("Ji", I) if cur.count is not None else None
            vt = rp.vt or cur.vt or DOUBLE
            if vt.k == "ptr":
                out.append(("loop-invariant array", self.ptr_region_ok(st, b, oid, rp), ("reg", rp)))
                continue
            rng = True
            if not callable(cur.size) and cur.size is not None and cur.stride:
                rng = b_and(cmpop("<=", 0, J), cmpop("<=", T.i_mul(T.i_add(J, 1), cur.stride), cur.size))
            try:
                x = ex.region_read(b.st, cur, J, Ji, vt, pure=True)
                y = ex.region_read(b.st, want, J, Ji, vt, pure=True)
            except Unsupported:
                out.append(("loop-invariant array", False, ("reg", rp)))
                continue
            if isinstance(x, Undef) or isinstance(y, Undef):
                out.append(("loop-invariant array", isinstance(x, Undef) and isinstance(y, Undef), ("reg", rp)))
                continue
            out.append(("loop-invariant array", ("eqcases", rng, x, y), ("reg", rp)))
        for oid, fp in self.freed.items():
            cur = b.st.mem[oid]
            J = fresh("J", I)
            x = b_or(*[f(J) for f in cur.freed])
            y = b_or(*[f(J) for f in self.freed_at(oid, fp, k1)])
            out.append(("loop-invariant freed-blocks", simp(zb(x) == zb(y)), ("freed", fp)))
        for i, fam in self.fams.items():
            l = self.born_list(b)
            if i >= len(l):
                out.append(("loop-invariant allocations", False, ("fam", fam)))
                continue
            o = b.st.mem[l[i]]
            g = cmpop("==", o.size, fam["obj"].size(self.k))
            out.append(("loop-invariant allocations", simp(g) if not isinstance(g, bool) else g, ("fam", fam)))
        if len(self.born_list(b)) != len(self.fams):
            out.append(("loop-invariant allocations", False, ("fam", None)))
        for sp in self.specs:
            def get(name, nv=nv):
                for key, s in self.slots.items():
                    if s.name() == name or (s.kind == "phi" and s.key == name):
                        return nv[key]
                raise KeyError(name)
            try:
                g = sp["st"](b.st) if "st" in sp else sp["fn"](get, k1)
            except Unsupported:
                g = False
            out.append(("loop-invariant " + sp.get("name", "contract"), simp(g) if not isinstance(g, bool) else g, ("spec", sp)))
        return out

    def acc_delta(self, s, v):
        d = increment(v, s.var)
        return None if d is None else self.expand(d)

    def expand(self, t):
        """the sums of this loop by their value"""
        if conc(t) or not z3.is_expr(t):
            return t
        ps = [(s.var, zr(s.closed(self.k))) for s in self.slots.values() if s.plan == "acc"]
        if not ps or not ({p[0].decl().name() for p in ps} & T.freevars(t)):
            return t
        return simp(z3.substitute(t, *ps))

    def ptr_region_ok(self, st, b, oid, rp):
        """structural check of a pointer-array summary"""
        o1, o = st.mem[oid], b.st.mem[oid]
        if o.log[:len(o1.log)] != o1.log:
            return False
        new = o.log[len(o1.log):]
        if len(new) != len(rp.entries):
            return False
        for e, w in zip(rp.entries, new):
            if w[0] != "w" or w[1] is not None:
                return False
            # at iteration k exactly this index: kappa(widx) == k and the condition holds
            kk = simp(z3.substitute(zi(e["kappa"][0]), (_IDX, zi(w[2]))))
            d = isimp(T.i_sub(kk, self.k))
            if not (conc(d) and d == 0):
                return False
            c = e["cond"]
            c = c if isinstance(c, bool) else simp(z3.substitute(c, (_IDX, zi(w[2]))))
            if c is not True and not self.ex.quick(b.st, zb(c)):
                return False
            v = w[3]
            ev = self.entry_at(e, T.i_add(self.k, 1))[2](None, w[2])
            if not isinstance(v, Ptr) or not isinstance(ev, Ptr):
                return False
            key = self.alloc_key(b, v.obj)
            if key is not None and key in self.fams:
                if ev.obj != self.fams[key]["obj"].id or not same(v.off, ev.off) and not T.samet(v.off, ev.off):
                    return False
                d = isimp(T.i_sub(ev.inst, self.k))
                if not (conc(d) and d == 0):
                    return False
            else:
                if ev.obj != v.obj or not T.samet(isimp(zi(v.off)), isimp(zi(ev.off))):
                    return False
                if (v.inst is None) != (ev.inst is None):
                    return False
                if v.inst is not None:
                    d = isimp(T.i_sub(v.inst, ev.inst))
                    if not (conc(d) and d == 0):
                        return False
        return True

    def prove_goal(self, st, g, quiet_to=None):
        ex = self.ex
        if isinstance(g, tuple) and g[0] == "eqcases":
            _, rng, x, y = g
            return prove_cases(ex, st, rng, x, y, quiet_to)
        if isinstance(g, bool):
            if g:
                return True
            return ex.try_prove(st, g, quiet_to)[0] == "proved"
        return ex.try_prove(st, g, quiet_to)[0] == "proved"

    def shifted(self):
        """candidates: a disjunct of the continue condition, one iteration on"""
        out = []
        for c in self.bound:
            ds = []
            if z3.is_or(c):
                ds = c.children()
            elif z3.is_not(c) and z3.is_and(c.arg(0)):
                ds = [b_not(x) for x in c.arg(0).children()]
            for d in list(ds):
                if not isinstance(d, bool) and z3.is_and(d):
                    ds.extend(d.children())
            for d in ds:
                if isinstance(d, bool) or not any_uf(d) or self.k.decl().name() not in T.freevars(d):
                    continue

                def fn(get, k, d=d):
                    return z3.substitute(d, (self.k, zi(T.i_sub(k, 1))))
                out.append(dict(fn=fn, name="range"))
        return out[:8]

    def entry_specs(self):
        ok = []
        for sp in self.specs:
            try:
                g = sp["st"](self.st0) if "st" in sp else sp["fn"](self.getter(0), 0)
            except (KeyError, Unsupported):
                continue
            if self.prove_goal(self.st0, simp(g) if not isinstance(g, bool) else g, 3000):
                ok.append(sp)
        ch = len(ok) != len(self.specs)
        self.specs = ok
        return ch

    # -------------------------------------------------------------- driver
    def run(self):
        ex = self.ex
        self.bound, self.qbound = [], []
        self.fam_ids = set()
        self.born = ex.nextobj - 1
        # object ids: families get allocated from the same counter; remember those
        rounds = 0
        spec_pending = True
        self.specs = self.harness_invariants()
        self.entry_specs()
        while True:
            rounds += 1
            ex.check_deadline()
            if rounds > 30:
                raise Unsupported("loop invariant inference does not converge in " + self.fr.fn.demangled)
            self.born = ex.nextobj - 1
            st, backs, exits = self.probe()
            self.compute_bound(st, backs)
            if self.scan_memory(st, backs):
                continue
            nv = [self.nextvals(b) for b in backs]
            if self.upgrade_slots(st, backs, nv):
                continue
            if self.upgrade_freed(st, backs):
                continue
            if self.upgrade_families(st, backs):
                continue
            if self.upgrade_regions(st, backs, nv):
                continue
            if self.upgrade_poly(st, backs, nv):
                continue
            if self.upgrade_acc(st, backs, nv):
                continue
            if self.upgrade_iter(st, backs, nv):
                continue
            if spec_pending:
                spec_pending = False
                cands = list(self.specs)
                n0 = len(cands)
                for fn in ex.loop_specs:
                    cands.extend(fn(self) or [])
                cands.extend(self.shifted())
                self.specs = cands
                self.entry_specs()
                if len(self.specs) > n0:
                    continue
            # check everything quietly; drop what fails
            bad = False
            for b, n in zip(backs, nv):
                for desc, g, cb in self.checks(st, b, n):
                    if cb is None:
                        continue
                    if not self.prove_goal(b.st, g, 4000):
                        bad = True
                        self.drop(cb, desc)
            if not bad:
                break
        # final run with obligations
        self.born = ex.nextobj - 1
        st, env = self.build(self.k)
        backs, exits = self.body(st, env)
        nv = [self.nextvals(b) for b in backs]
        where = self.fr.fn.demangled
        for b, n in zip(backs, nv):
            if self.scan_memory_final(st, b):
                raise Unsupported("loop frame not closed in " + where)
            for desc, g, cb in self.checks(st, b, n):
                self.emit(b.st, desc, g, where)
        for sp in self.specs:
            g = sp["st"](self.st0) if "st" in sp else sp["fn"](self.getter(0), 0)
            self.emit(self.st0, "loop-invariant-entry " + sp.get("name", "contract"), simp(g) if not isinstance(g, bool) else g, where)
        exits = self.closed_exits(exits)
        if not ex.quiet:
            ex.loopnotes.append("%s: %s; arrays %s; families %d; bound %s%s" % (
                where[:60], {s.name()[-20:]: s.plan for s in self.slots.values()},
                {self.st0.mem[o].name[-24:]: r.plan for o, r in self.regs.items()}, len(self.fams),
                str(self.bound)[:int(os.environ.get("VC_BL", "100"))].replace("\n", ""), "; contract invariants %d" % len(self.specs) if self.specs else ""))
        return exits

    def closed_exits(self, exits):
        """exit iteration in closed form when the exit condition determines it"""
        ex = self.ex
        if not exits or ex.bv:
            return exits
        for c in self.bound:
            B = self.limit(c)
            if B is None or not self.allowed(B):
                continue
            kb = cmpop("==", self.k, B)
            if kb is False:
                continue
            ok = True
            for e in exits:
                if not ex.quick(e.st, b_or(cmpop("==", self.k, 0), kb)):
                    ok = False
                    break
            if not ok:
                continue
            out = []
            n = len(self.fr.outs)
            nonneg = cmpop(">=", B, 0)
            nn = nonneg if isinstance(nonneg, bool) else ex.quick(self.st0, nonneg)
            early = not all(ex.quick(e.st, kb) for e in exits)     # some exit leaves at k == 0
            if early:
                cases = [(0, True), (B, cmpop(">=", B, 1))]
            else:
                cases = [(B, True)] if nn else [(0, cmpop("<=", B, 0)), (B, cmpop(">=", B, 1))]
            no = len(ex.obls)
            ex.quiet += 1
            try:
                for kk, cnd in cases:
                    if cnd is False:
                        continue
                    try:
                        st, env = self.build(kk)
                        st.add(cnd)
                        if st.pc and ex.quick(st, z3.BoolVal(False)):
                            continue
                        b2, e2 = self.body(st, env)
                        out.extend(e2)
                    except PathEnd:
                        continue
            finally:
                ex.quiet -= 1
                del self.fr.outs[n:]
                del ex.obls[no:]
            return out
        return exits

    def limit(self, c):
        """B when c is equivalent to k < B"""
        neg = False
        if z3.is_not(c):
            c, neg = c.arg(0), True
        if not z3.is_app(c) or c.num_args() != 2 or c.arg(0).sort() != I:
            return None
        op = c.decl().kind()
        a, b = c.arg(0), c.arg(1)
        if op in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
            op = z3.Z3_OP_LE if op == z3.Z3_OP_GE else z3.Z3_OP_LT
        elif op not in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            return None
        if neg:      # not (a<=b)  ==  b<a
            a, b = b, a
            op = z3.Z3_OP_LT if op == z3.Z3_OP_LE else z3.Z3_OP_LE
        r = linear_in(isimp(b - a), self.k)
        if r is None or r[1] == 0:
            return None
        x, y = r
        if y >= 0:
            return None
        # 0 <= x + y k  (or <)   <=>  k <= floor(x/-y)
        if op == z3.Z3_OP_LT:
            x = T.i_sub(x, 1)
        if y != -1:
            x = zi(x) / (-y)
        return isimp(T.i_add(x, 1))

    def emit(self, st, desc, g, where):
        ex = self.ex
        if ex.quiet:
            return
        if isinstance(g, tuple):
            ok = self.prove_goal(st, g)
            ex.prove(st, True if ok else False, desc, "inv", where)
        else:
            ex.prove(st, g, desc, "inv", where)

    def scan_memory_final(self, st, b):
        """anything changed that the plan calls unchanged?"""
        keys = (set(self.slots), {o: r.plan for o, r in self.regs.items()}, set(self.freed))
        n = len(self.slots), len(self.regs), len(self.freed)
        r = self.scan_memory(st, [b])
        return (len(self.slots), len(self.regs), len(self.freed)) != n

    def drop(self, cb, desc):
        kind, x = cb
        if kind == "slot":
            x.bad.add(x.plan)
            x.plan = "havoc"
            x.var = None
        elif kind == "align":
            x.bad.add("aligned")
            x.var = None
        elif kind == "reg":
            x.bad.add(x.plan)
            x.plan = "havoc"
            x.hbase = None
        elif kind == "spec":
            self.specs = [s for s in self.specs if s is not x]
        else:
            raise Unsupported("cannot establish " + desc)


def increment(t, var):
    """t - var, free of var; None when t is not var + something free of it"""
    vn = var.decl().name()
    if conc(t):
        return None
    t = t if vn in T.freevars(t) else None
    if t is None:
        return None

    def rec(t):
        if t.eq(var):
            return z3.RealVal(0)
        if t.decl().kind() == z3.Z3_OP_ITE:
            if vn in T.freevars(t.arg(0)):
                return None
            a, b = rec(t.arg(1)), rec(t.arg(2))
            return None if a is None or b is None else z3.If(t.arg(0), a, b)
        if vn not in T.freevars(t):
            return None
        if z3.is_add(t):
            one = [c for c in t.children() if vn in T.freevars(c)]
            if len(one) != 1:
                return None
            r = rec(one[0])
            if r is None:
                return None
            rest = [c for c in t.children() if not c.eq(one[0])]
            return z3.Sum([r] + rest) if rest else r
        if z3.is_sub(t) and t.num_args() == 2 and vn not in T.freevars(t.arg(1)):
            r = rec(t.arg(0))
            return None if r is None else r - t.arg(1)
        return None
    r = rec(t)
    if r is None:
        # distributed forms
        d = z3.simplify(t - var, som=True)
        if vn in T.freevars(d):
            return None
        r = d
    return simp(r)


def newton_sum(P, k):
    """6 * sum of P(j) for 0 <= j < n as a function of n, when P is a polynomial in k of degree
    at most 2 (its third difference vanishes identically); None otherwise"""
    at = lambda e: z3.simplify(z3.substitute(P, (k, e)), som=True)
    dif = z3.simplify(at(k + 3) - 3 * at(k + 2) + 3 * at(k + 1) - at(k), som=True)
    if not (z3.is_int_value(dif) and dif.as_long() == 0):
        return None
    p0, p1, p2 = (at(z3.IntVal(i)) for i in range(3))
    d1 = z3.simplify(p1 - p0, som=True)
    d2 = z3.simplify(p2 - 2 * p1 + p0, som=True)

    def S(n):
        return z3.simplify(6 * n * p0 + 3 * n * (n - 1) * d1 + n * (n - 1) * (n - 2) * d2, som=True)
    return S


def closed_poly(F, var, k, init):
    """polynomial P(k) with P(j) the j-th iterate (j >= 1) of var := F(var, k), from the first
    iterates; None if there is none of small degree"""
    import sympy
    atoms = {}
    kn, vn = k.decl().name(), var.decl().name()
    for x in walk(F):
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and T.freevars(x) & {kn, vn}:
            return None

    def to(t):
        if conc(t):
            return sympy.Rational(t.numerator, t.denominator) if isinstance(t, Fraction) else sympy.Integer(t)
        c = T.numval(t)
        if c is not None:
            return to(c)
        kd = t.decl().kind()
        ch = t.children()
        if kd == z3.Z3_OP_TO_REAL:
            return to(ch[0])
        if kd == z3.Z3_OP_ADD:
            return sum((to(c) for c in ch), sympy.Integer(0))
        if kd == z3.Z3_OP_MUL:
            r = sympy.Integer(1)
            for c in ch:
                r = r * to(c)
            return r
        if kd == z3.Z3_OP_SUB:
            r = to(ch[0])
            for c in ch[1:]:
                r = r - to(c)
            return r
        if kd == z3.Z3_OP_UMINUS:
            return -to(ch[0])
        if kd == z3.Z3_OP_DIV:
            return to(ch[0]) / to(ch[1])
        if kd == z3.Z3_OP_ITE:
            raise ValueError("ite")
        key = t.sexpr()
        if key not in atoms:
            atoms[key] = (sympy.Symbol("a%d" % len(atoms)), t)
        return atoms[key][0]
    vs = sympy.Symbol("v?")
    try:
        v = sympy.together(to(simp(z3.simplify(zr(init), arith_lhs=True, som=True))))
        vals = [v]
        x = z3.Real("cur?")
        for j in range(7):
            f = simp(z3.substitute(F, (k, z3.IntVal(j)), (var, x)))
            if conc(f):
                nvv = to(f)
            else:
                e = to(f)
                xs = atoms["cur?"][0] if "cur?" in atoms else None
                nvv = e if xs is None else e.subs(xs, vals[-1])
            vals.append(sympy.cancel(sympy.together(nvv)))
            if sympy.count_ops(vals[-1]) > 200:
                return None
    except (ValueError, ZeroDivisionError):
        return None
    K = sympy.Symbol("K")
    for deg in range(0, 6):
        pts = [(j, vals[j]) for j in range(1, deg + 2)]
        P = sympy.expand(sympy.interpolate(pts, K)) if deg else vals[1]
        if deg + 2 <= 7 and all(sympy.cancel(P.subs(K, j) - vals[j]) == 0 for j in range(deg + 2, 8)):
            break
    else:
        return None
    if not sympy.cancel(P).is_polynomial(*([K] + [a for a, t in atoms.values()])):
        return None
    P = sympy.factor(P)
    back = {a: (z3.ToReal(t) if t.sort() == I else t) for a, t in atoms.values()}
    back[K] = z3.ToReal(k)

    def fro(e):
        if e.is_Rational:
            return z3.RealVal(Fraction(int(e.p), int(e.q)))
        if e.is_Symbol:
            return back[e]
        if e.is_Add:
            r = None
            for a in e.args:
                r = fro(a) if r is None else r + fro(a)
            return r
        if e.is_Mul:
            r = None
            for a in e.args:
                r = fro(a) if r is None else r * fro(a)
            return r
        if e.is_Pow and e.exp.is_Integer and e.exp > 0:
            b = fro(e.base)
            r = b
            for _ in range(int(e.exp) - 1):
                r = r * b
            return r
        raise ValueError(str(e))
    try:
        return fro(P)
    except ValueError:
        return None


def prove_cases(ex, st, rng, x, y, to=None):
    """x == y under st and rng, splitting on the ite conditions"""
    s = st.copy()
    try:
        if rng is not True:
            s.add(rng)
    except PathEnd:
        return True

    def rec(s, x, y, d):
        if T.samet(x, y):
            return True
        for t in (x, y):
            if not conc(t) and t.decl().kind() == z3.Z3_OP_ITE:
                c = t.arg(0)
                ok = True
                for cc, pick in ((c, 1), (b_not(c), 2)):
                    s2 = s.copy()
                    try:
                        s2.add(simp(cc))
                    except PathEnd:
                        continue
                    if s2.pc and ex.quick(s2, z3.BoolVal(False)):
                        continue
                    nx = t.arg(pick) if t is x else x
                    ny = t.arg(pick) if t is y else y
                    if not rec(s2, nx, ny, d + 1):
                        ok = False
                        break
                return ok
        g = cmpop("==", x, y)
        if isinstance(g, bool) and g:
            return True
        return ex.try_prove(s, g, to)[0] == "proved"
    return rec(s, x, y, 0)


def conj(c):
    return [y for x in c.children() for y in conj(x)] if z3.is_and(c) else [c]


def find_eqs(cond):
    """equations placeholder == term inside a conjunction"""
    out = []
    if isinstance(cond, bool):
        return out
    todo = [cond]
    while todo:
        c = todo.pop()
        if z3.is_and(c):
            todo.extend(c.children())
        elif z3.is_eq(c) and c.arg(0).sort() == I:
            a, b = c.arg(0), c.arg(1)
            for x, y in ((a, b), (b, a)):
                for p in (_INST, _IDX):
                    if x.eq(p):
                        out.append((p, y))
                    elif p.decl().name() in T.freevars(x) and not (p.decl().name() in T.freevars(y)):
                        r = isimp(y - (x - p))
                        if not conc(r) and p.decl().name() not in T.freevars(r):
                            out.append((p, r))
                        elif conc(r):
                            out.append((p, z3.IntVal(r)))
    return out


def fn_decl_of(base, fam):
    i = z3.Int("q?")
    try:
        t = base(i, i) if fam else base(None, i)
    except Exception:
        return None
    if isinstance(t, (Undef, Ptr)) or conc(t):
        return None
    return t.decl()


def any_uf(c):
    for x in walk(c):
        if z3.is_app(x) and x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return True
    return False


def walk(t):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        todo.extend(x.children())


def consts_in_order(t):
    out, seen = [], set()

    def rec(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if not any(x.eq(o) for o in out):
                    out.append(x)
            for c in x.children():
                rec(c)
    rec(t)
    return out


def cut(ex, fr, L, item):
    it = Item(item.block, 0, item.env, item.st.copy(), item.prev, False)
    return Cut(ex, fr, L, it).run()
