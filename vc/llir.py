"""Parser for the textual LLVM IR (LLVM 18) that clang emits for /repo's sources.

Only the subset produced for scalar, non-vectorised code is accepted; anything
else raises Unsupported, which surfaces as an undischarged obligation."""
import re, struct, subprocess
from fractions import Fraction


class Unsupported(Exception):
    pass


class Ty:
    __slots__ = ("k", "a", "_size", "_align", "_offs")

    def __init__(self, k, a=None):
        self.k, self.a = k, a
        self._size = None
        self._align = None
        self._offs = None

    def __repr__(self):
        return "%s(%s)" % (self.k, self.a)

    def align(self):
        if self._align is None:
            k = self.k
            if k == "int":
                b = (self.a + 7) // 8
                self._align = 1 if b <= 1 else 2 if b <= 2 else 4 if b <= 4 else 8 if b <= 8 else 16
            elif k == "double" or k == "ptr":
                self._align = 8
            elif k == "float":
                self._align = 4
            elif k == "fp80":
                self._align = 16
            elif k == "arr" or k == "vec":
                self._align = self.a[1].align()
            elif k == "struct":
                self._align = 1 if self.a[1] else max([1] + [t.align() for t in self.a[0]])
            else:
                raise Unsupported("align of " + k)
        return self._align

    def size(self):
        if self._size is None:
            k = self.k
            if k == "int":
                b = (self.a + 7) // 8
                al = self.align()
                self._size = (b + al - 1) // al * al
            elif k == "double" or k == "ptr":
                self._size = 8
            elif k == "float":
                self._size = 4
            elif k == "fp80":
                self._size = 16
            elif k == "arr" or k == "vec":
                self._size = self.a[0] * self.a[1].size()
            elif k == "struct":
                self.offsets()
            else:
                raise Unsupported("size of " + k)
        return self._size

    def offsets(self):
        if self._offs is None:
            o = 0
            offs = []
            for t in self.a[0]:
                if not self.a[1]:
                    al = t.align()
                    o = (o + al - 1) // al * al
                offs.append(o)
                o += t.size()
            if not self.a[1]:
                al = self.align()
                o = (o + al - 1) // al * al
            self._offs = offs
            self._size = o
        return self._offs


VOID = Ty("void")
PTR = Ty("ptr")
DOUBLE = Ty("double")
FLOAT = Ty("float")
FP80 = Ty("fp80")
_ints = {}


def INT(n):
    if n not in _ints:
        _ints[n] = Ty("int", n)
    return _ints[n]


# operands ------------------------------------------------------------------
# ('loc', name) ('glob', name) ('int', v) ('fp', Fraction|'inf'..) ('null',)
# ('undef',) ('zero',) ('agg', [(ty,op)...]) ('str', bytes) ('cexpr', op, ...)

TOK = re.compile(r'''
  (?P<ws>\s+)|(?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")|
  (?P<loc>%(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))|
  (?P<glob>@(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))|
  (?P<comdat>\$(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))|
  (?P<meta>!(?:[-a-zA-Z$._0-9]+|"(?:[^"])*")?)|
  (?P<attr>\#\d+)|
  (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
  (?P<num>-?\d+(?:\.\d*(?:e[-+]?\d+)?)?)|
  (?P<word>[a-zA-Z_][a-zA-Z_0-9.]*)|(?P<str>"(?:[^"])*")|
  (?P<dots>\.\.\.)|(?P<p>[\[\]{}()<>,=*:|])
''', re.X)


def unq(s):
    if s.startswith('"'):
        s = s[1:-1]
        s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return s


def tokenize(line):
    out = []
    pos = 0
    n = len(line)
    while pos < n:
        if line[pos] == ';':
            break
        m = TOK.match(line, pos)
        if not m:
            raise Unsupported("token: " + line[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        if k == "ws":
            continue
        v = m.group()
        if k == "loc" or k == "glob":
            v = unq(v[1:])
        out.append((k, v))
    return out


PARAM_ATTRS = {"noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "writeonly",
               "readnone", "returned", "inreg", "immarg", "nofree", "noreturn", "nounwind", "dead_on_unwind", "writable",
               "allocptr", "allocalign", "nest", "swiftself", "inalloca", "nofpclass"}
PAREN_ATTRS = {"dereferenceable", "dereferenceable_or_null", "sret", "byval", "align", "elementtype", "range", "memory",
               "byref", "preallocated", "alignstack", "nofpclass", "captures", "initializes"}
CALL_KW = {"tail", "musttail", "notail", "fastcc", "ccc", "coldcc", "dso_local", "unnamed_addr", "local_unnamed_addr",
           "linkonce_odr", "internal", "private", "weak_odr", "weak", "external", "hidden", "protected", "linkonce",
           "available_externally", "thread_local", "constant", "dso_preemptable", "common", "appending", "extern_weak",
           "externally_initialized", "default"}
FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}


class P:
    """token stream with type/operand parsers"""

    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, d=0):
        j = self.i + d
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def eat(self, v):
        if self.peek()[1] == v and self.peek()[0] not in ("loc", "glob", "cstr", "str"):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise Unsupported("expected %s got %s" % (v, self.peek()))

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            k, v = self.next()
            if k is None:
                raise Unsupported("unbalanced")
            if k == "p":
                if v == "(":
                    d += 1
                elif v == ")":
                    d -= 1

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == "word" and v in PARAM_ATTRS:
                self.i += 1
            elif k == "word" and v in PAREN_ATTRS:
                self.i += 1
                if self.peek()[1] == "(":
                    self.skip_parens()
                elif v == "align":
                    self.i += 1
            elif k == "attr":
                self.i += 1
            else:
                return

    def type(self):
        t = self._type()
        while True:
            if self.peek() == ("p", "("):   # function type
                self.i += 1
                args = []
                while not self.eat(")"):
                    if self.peek()[0] == "dots":
                        self.i += 1
                    else:
                        args.append(self.type())
                        self.skip_attrs()
                    self.eat(",")
                t = Ty("fn", (t, args))
            elif self.peek() == ("p", "*"):
                self.i += 1
                t = PTR
            else:
                return t

    def _type(self):
        k, v = self.next()
        if k == "word":
            if v == "void":
                return VOID
            if v == "ptr":
                return PTR
            if v == "double":
                return DOUBLE
            if v == "float":
                return FLOAT
            if v == "x86_fp80":
                return FP80
            if v in ("metadata", "token", "label", "opaque"):
                return Ty(v)
            if v[0] == "i" and v[1:].isdigit():
                return INT(int(v[1:]))
        elif k == "loc":
            return self.m.named_type(v)
        elif (k, v) == ("p", "["):
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            return Ty("arr", (n, e))
        elif (k, v) == ("p", "{"):
            ts = []
            while not self.eat("}"):
                ts.append(self.type())
                self.eat(",")
            return Ty("struct", (ts, False))
        elif (k, v) == ("p", "<"):
            if self.peek() == ("p", "{"):
                t = self._type()
                self.expect(">")
                return Ty("struct", (t.a[0], True))
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect(">")
            return Ty("vec", (n, e))
        raise Unsupported("type token %s %s" % (k, v))

    def operand(self, ty):
        k, v = self.next()
        if k == "loc":
            return ("loc", v)
        if k == "glob":
            return ("glob", v)
        if k == "num":
            if ty.k in ("double", "float", "fp80"):
                return ("fp", Fraction(float(v)))
            return ("int", int(v))
        if k == "hex":
            if v[2] in "KLMHR":
                if v[2] == "K":
                    bits = int(v[3:], 16)
                    exp = (bits >> 64) & 0x7fff
                    man = bits & ((1 << 64) - 1)
                    s = -1 if bits >> 79 else 1
                    if exp == 0x7fff:
                        return ("fp", "inf" if s > 0 else "-inf")
                    return ("fp", s * Fraction(man) * (Fraction(2) ** (exp - 16383 - 63)))
                raise Unsupported("fp const " + v)
            bits = int(v, 16)
            f = struct.unpack(">d", struct.pack(">Q", bits))[0]
            if f != f:
                return ("fp", "nan")
            if f in (float("inf"), float("-inf")):
                return ("fp", "inf" if f > 0 else "-inf")
            return ("fp", Fraction(f))
        if k == "word":
            if v == "null":
                return ("null",)
            if v in ("undef", "poison"):
                return ("undef",)
            if v == "true":
                return ("int", 1)
            if v == "false":
                return ("int", 0)
            if v == "zeroinitializer":
                return ("zero",)
            if v in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "sub", "add", "trunc"):
                return self.cexpr(v)
            if v == "none":
                return ("undef",)
        if k == "cstr":
            raw = v[2:-1]
            b = bytearray()
            i = 0
            while i < len(raw):
                if raw[i] == "\\":
                    if raw[i + 1] == "\\":
                        b.append(92)
                        i += 2
                    else:
                        b.append(int(raw[i + 1:i + 3], 16))
                        i += 3
                else:
                    b.append(ord(raw[i]))
                    i += 1
            return ("str", bytes(b))
        if (k, v) in (("p", "["), ("p", "{"), ("p", "<")):
            packed = False
            if v == "<" and self.peek() == ("p", "{"):
                self.i += 1
                packed = True
            close = {"[": "]", "{": "}", "<": ">"}["{" if packed else v]
            items = []
            while not self.eat(close):
                t = self.type()
                items.append((t, self.operand(t)))
                self.eat(",")
            if packed:
                self.expect(">")
            return ("agg", items)
        raise Unsupported("operand token %s %s" % (k, v))

    def cexpr(self, op):
        inb = False
        while self.peek()[1] in ("inbounds", "nuw", "nsw", "inrange", "nusw"):
            self.i += 1
        self.expect("(")
        if op == "getelementptr":
            bt = self.type()
            self.expect(",")
            args = []
            while True:
                if self.peek()[1] == "inrange":
                    self.i += 1
                t = self.type()
                args.append((t, self.operand(t)))
                if not self.eat(","):
                    break
            self.expect(")")
            return ("cexpr", "gep", bt, args)
        if op in ("sub", "add"):
            t = self.type()
            a = self.operand(t)
            self.expect(",")
            t2 = self.type()
            b = self.operand(t2)
            self.expect(")")
            return ("cexpr", op, (t, a), (t2, b))
        t = self.type()
        a = self.operand(t)
        self.expect("to")
        t2 = self.type()
        self.expect(")")
        return ("cexpr", op, (t, a), t2)

    def tyop(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.operand(t))


class Instr:
    __slots__ = ("op", "res", "ty", "a", "flags", "text", "id", "line")

    def __init__(self, op, res, ty, a, flags=()):
        self.op, self.res, self.ty, self.a, self.flags = op, res, ty, a, flags
        self.text = None
        self.id = None

    def __repr__(self):
        return self.text or self.op


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []
        self.nphi = 0


class Func:
    def __init__(self, name):
        self.name = name
        self.args = []     # (ty,name)
        self.ret = None
        self.blocks = {}
        self.order = []
        self.vararg = False
        self._loops = None
        self._scoped = None
        self.demangled = name

    def scoped(self):
        """names of the local objects whose scope is marked by a lifetime start"""
        if self._scoped is None:
            self._scoped = set()
            for b in self.blocks.values():
                for i in b.ins:
                    if i.op in ("call", "invoke") and i.a[0][0] == "glob" and i.a[0][1].startswith("llvm.lifetime.start"):
                        x = i.a[1][1][1]
                        if x[0] == "loc":
                            self._scoped.add(x[1])
        return self._scoped

    def rpo(self):
        """block -> position in reverse post order"""
        self.loops()
        return self._rpo

    def loops(self):
        """natural loops: header -> Loop"""
        if self._loops is None:
            self._loops = find_loops(self)
        return self._loops


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = set()
        self.latches = set()
        self.parent = None
        self.ordinal = 0


def find_loops(f):
    order = []
    seen = set()
    stack = [(f.order[0], iter(f.blocks[f.order[0]].succ))]
    seen.add(f.order[0])
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(f.blocks[s].succ)))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = list(reversed(order))
    idx = {b: i for i, b in enumerate(rpo)}
    f._rpo = idx
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in f.blocks[b].succ:
            preds[s].append(b)
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = new, p
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if idom[b] == b:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succ:
            if idx[s] <= idx[b]:
                if not dom(s, b):
                    raise Unsupported("irreducible control flow in " + f.demangled)
                L = loops.setdefault(s, Loop(s))
                L.latches.add(b)
                L.blocks.add(s)
                work = [b]
                while work:
                    x = work.pop()
                    if x not in L.blocks:
                        L.blocks.add(x)
                        work.extend(preds[x])
    for i, h in enumerate(sorted(loops, key=lambda h: idx[h])):
        loops[h].ordinal = i
    for L in loops.values():
        best = None
        for M in loops.values():
            if M is not L and L.header in M.blocks:
                if best is None or len(M.blocks) < len(best.blocks):
                    best = M
        L.parent = best
    return loops


class Global:
    def __init__(self, name, ty, init, const):
        self.name, self.ty, self.init, self.const = name, ty, init, const


class Module:
    def __init__(self, text):
        self.types = {}
        self.rawtypes = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self.parse(text)
        self.demangle()

    def named_type(self, n):
        if n not in self.types:
            raw = self.rawtypes.get(n)
            if raw is None or raw.strip() == "opaque":
                self.types[n] = Ty("struct", ([], False))
            else:
                self.types[n] = P(self, tokenize(raw)).type()
        return self.types[n]

    def parse(self, text):
        lines = text.split("\n")
        for l in lines:
            if l.startswith("%") and " = type " in l:
                nm, r = l.split(" = type ", 1)
                self.rawtypes[unq(nm[1:])] = r
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("@"):
                self.parse_global(l)
            elif l.startswith("declare "):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', l)
                if m:
                    self.decls[unq(m.group(1))] = l
            elif l.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.parse_func(l, lines[i + 1:j])
                i = j
            i += 1

    def parse_global(self, l):
        try:
            p = P(self, tokenize(l))
            name = p.next()[1]
            p.expect("=")
            const = False
            while p.peek()[0] == "word" and (p.peek()[1] in CALL_KW or p.peek()[1] in ("global", "alias", "comdat")):
                w = p.next()[1]
                if w == "thread_local" and p.peek()[1] == "(":
                    p.skip_parens()
                if w == "alias":
                    p.type()
                    p.expect(",")
                    p.type()
                    self.aliases[name] = p.next()[1]
                    return
                if w == "constant":
                    const = True
                    break
                if w == "global":
                    break
            t = p.type()
            init = None
            if p.peek()[0] is not None and p.peek() != ("p", ",") and p.peek()[1] != "comdat":
                init = p.operand(t)
            self.globals[name] = Global(name, t, init, const)
        except Unsupported:
            pass

    def parse_func(self, head, body):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', head)
        name = unq(m.group(1))
        f = Func(name)
        self.funcs[name] = f
        f._raw = (head[m.end() - 1:], body, head[:m.start()])

    def get(self, name):
        f = self.funcs.get(name)
        if f is None and name in self.aliases:
            f = self.funcs.get(self.aliases[name])
        if f is not None and f._raw is not None:
            raw, f._raw = f._raw, None
            self._build(f, raw)
        return f

    def _build(self, f, raw):
        argtxt, body, rettxt = raw
        p = P(self, tokenize(argtxt))
        p.expect("(")
        cnt = 0
        while not p.eat(")"):
            if p.peek()[0] == "dots":
                p.i += 1
                f.vararg = True
                continue
            t = p.type()
            p.skip_attrs()
            if p.peek()[0] == "loc":
                nm = p.next()[1]
            else:
                nm = str(cnt)
            cnt += 1
            f.args.append((t, nm))
            p.eat(",")
        cur = None
        first = True
        i = 0
        n = len(body)
        logical = []
        while i < n:
            l = body[i]
            if l.strip() == "" or l.lstrip().startswith(";"):
                i += 1
                continue
            # join multi-line switch / invoke / landingpad
            if re.match(r"\s+switch ", l) and "]" not in l:
                while "]" not in l:
                    i += 1
                    l += " " + body[i].strip()
            elif " invoke " in l or l.lstrip().startswith("invoke "):
                i += 1
                l += " " + body[i].strip()
            elif " landingpad " in l:
                while i + 1 < n and re.match(r"\s+(cleanup|catch|filter)", body[i + 1]):
                    i += 1
                    l += " " + body[i].strip()
            logical.append(l)
            i += 1
        iid = 0
        for l in logical:
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m and not l.startswith(" "):
                cur = Block(unq(m.group(1)))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block(str(cnt))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            ins = self.parse_ins(l)
            if ins is None:
                continue
            ins.text = l.strip()
            ins.id = iid
            iid += 1
            cur.ins.append(ins)
            if ins.op == "phi":
                cur.nphi += 1
            elif ins.op == "br":
                cur.succ = list(dict.fromkeys(ins.a[1:]))
            elif ins.op == "switch":
                cur.succ = list(dict.fromkeys([ins.a[1]] + [x[1] for x in ins.a[2]]))
            elif ins.op == "invoke":
                cur.succ = [ins.a[2]]       # unwind edges handled by the engine

    def parse_ins(self, l):
        l = re.sub(r", ![a-zA-Z_.0-9]+ ![0-9]+", "", l)
        l = re.sub(r", ![a-zA-Z_.0-9]+ !{[^}]*}", "", l)
        p = P(self, tokenize(l))
        res = None
        if p.peek()[0] == "loc":
            res = p.next()[1]
            p.expect("=")
        k, op = p.next()
        while op in ("tail", "musttail", "notail"):
            k, op = p.next()
        fl = set()

        def flags():
            while p.peek()[0] == "word" and p.peek()[1] in ("nsw", "nuw", "exact", "disjoint", "nneg", "inbounds", "volatile", "atomic") or p.peek()[1] in FMF:
                fl.add(p.next()[1])
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            flags()
            t = p.type()
            a = p.operand(t)
            p.expect(",")
            b = p.operand(t)
            return Instr(op, res, t, ((t, a), (t, b)), fl)
        if op == "fneg":
            flags()
            t = p.type()
            return Instr(op, res, t, ((t, p.operand(t)),), fl)
        if op == "freeze":
            t = p.type()
            return Instr(op, res, t, ((t, p.operand(t)),), fl)
        if op in ("icmp", "fcmp"):
            flags()
            pred = p.next()[1]
            t = p.type()
            a = p.operand(t)
            p.expect(",")
            b = p.operand(t)
            return Instr(op, res, INT(1), (pred, (t, a), (t, b)), fl)
        if op in ("trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "bitcast",
                  "ptrtoint", "inttoptr"):
            flags()
            t = p.type()
            a = p.operand(t)
            p.expect("to")
            t2 = p.type()
            return Instr(op, res, t2, ((t, a), t2), fl)
        if op == "alloca":
            flags()
            t = p.type()
            n = None
            if p.eat(","):
                if p.peek()[1] != "align":
                    nt = p.type()
                    n = (nt, p.operand(nt))
            return Instr(op, res, PTR, (t, n), fl)
        if op == "load":
            flags()
            t = p.type()
            p.expect(",")
            pt = p.type()
            return Instr(op, res, t, ((pt, p.operand(pt)),), fl)
        if op == "store":
            flags()
            t = p.type()
            v = p.operand(t)
            p.expect(",")
            pt = p.type()
            return Instr(op, None, t, ((t, v), (pt, p.operand(pt))), fl)
        if op == "getelementptr":
            flags()
            t = p.type()
            args = []
            while p.eat(","):
                args.append(p.tyop())
            return Instr("gep", res, PTR, (t, args), fl)
        if op == "br":
            if p.eat("label"):
                return Instr("br", None, None, (None, p.next()[1]))
            t = p.type()
            c = p.operand(t)
            p.expect(",")
            p.expect("label")
            a = p.next()[1]
            p.expect(",")
            p.expect("label")
            b = p.next()[1]
            return Instr("br", None, None, ((t, c), a, b))
        if op == "switch":
            t = p.type()
            c = p.operand(t)
            p.expect(",")
            p.expect("label")
            d = p.next()[1]
            p.expect("[")
            cs = []
            while not p.eat("]"):
                ct = p.type()
                v = p.operand(ct)
                p.expect(",")
                p.expect("label")
                cs.append((v[1], p.next()[1]))
            return Instr("switch", None, None, ((t, c), d, cs))
        if op == "ret":
            t = p.type()
            return Instr("ret", None, t, None if t.k == "void" else (t, p.operand(t)))
        if op == "phi":
            flags()
            t = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.operand(t)
                p.expect(",")
                b = p.next()[1]
                p.expect("]")
                inc.append((b, v))
                if not p.eat(","):
                    break
            return Instr("phi", res, t, inc)
        if op == "select":
            flags()
            c = p.tyop()
            p.expect(",")
            a = p.tyop()
            p.expect(",")
            b = p.tyop()
            return Instr(op, res, a[0], (c, a, b))
        if op in ("call", "invoke"):
            flags()
            while p.peek()[0] == "word" and p.peek()[1] in CALL_KW:
                p.i += 1
            p.skip_attrs()
            t = p.type()
            if t.k == "fn":
                t = t.a[0]
            if p.peek()[0] == "word" and p.peek()[1] == "asm":
                raise Unsupported("inline asm")
            callee = p.operand(PTR)
            p.expect("(")
            args = []
            while not p.eat(")"):
                at = p.type()
                if at.k == "metadata":
                    # skip to , or )
                    d = 0
                    while True:
                        kk, vv = p.peek()
                        if kk == "p" and vv in "([{":
                            d += 1
                        if kk == "p" and vv in ")]}":
                            if d == 0:
                                break
                            d -= 1
                        if kk == "p" and vv == "," and d == 0:
                            break
                        p.i += 1
                    args.append((at, ("undef",)))
                else:
                    p.skip_attrs()
                    args.append((at, p.operand(at)))
                p.eat(",")
            if op == "invoke":
                while not p.eat("to"):
                    p.i += 1
                p.expect("label")
                n = p.next()[1]
                p.expect("unwind")
                p.expect("label")
                u = p.next()[1]
                return Instr("invoke", res, t, (callee, args, n, u))
            return Instr("call", res, t, (callee, args))
        if op == "unreachable":
            return Instr(op, None, None, None)
        if op == "extractvalue":
            t = p.type()
            v = p.operand(t)
            idx = []
            while p.eat(","):
                idx.append(int(p.next()[1]))
            return Instr(op, res, None, ((t, v), idx))
        if op == "insertvalue":
            t = p.type()
            v = p.operand(t)
            p.expect(",")
            e = p.tyop()
            idx = []
            while p.eat(","):
                idx.append(int(p.next()[1]))
            return Instr(op, res, t, ((t, v), e, idx))
        if op == "landingpad":
            cl = []              # None: catch everything, else the name of a type_info object
            for m in re.finditer(r" catch ptr (null|@[\w.$]+)", l):
                cl.append(None if m.group(1) == "null" else m.group(1)[1:])
            return Instr("landingpad", res, None, (cl, " cleanup" in l or " filter" in l))
        if op == "resume":
            return Instr("resume", None, None, None)
        if op == "fence":
            return None
        return Instr("unsupported", res, None, l.strip())

    def demangle(self):
        names = set(self.funcs) | set(self.decls) | set(self.aliases)
        names = sorted(names)
        r = subprocess.run(["c++filt"], input="\n".join(names) + "\n", capture_output=True, text=True)
        dm = r.stdout.split("\n")
        self.dem = dict(zip(names, dm))
        for n, f in self.funcs.items():
            f.demangled = self.dem.get(n, n)
