"""LLVM IR (textual, -O0 + sroa) -> Python code operating on rt.py values.

Only what C code compiled by clang at this level produces is supported;
anything else raises ParseError, hence the check is inconclusive, never wrong.
"""
import re, struct

TOK = re.compile(r'''\s*(?:(c"(?:[^"])*")|("[^"]*")|(%"[^"]*"|%[\w.$-]+)|(@"[^"]*"|@[\w.$-]+)'''
                 r'''|(\.\.\.)|(0x[KLMHR]?[0-9A-Fa-f]+)|(-?\d+\.\d*(?:e[+-]?\d+)?)|(-?\d+)|([A-Za-z_][\w.]*)'''
                 r'''|([()\[\]{}<>,=*!#:|]))''')
DROP = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone",
        "writeonly", "signext", "zeroext", "returned", "immarg", "inreg",
        "dso_local", "local_unnamed_addr", "unnamed_addr", "noreturn", "nofree",
        "nsw", "nuw", "exact", "inbounds", "volatile", "fast", "nnan", "ninf",
        "nsz", "arcp", "contract", "afn", "reassoc", "tail", "musttail",
        "notail", "fastcc", "coldcc", "ccc", "allocsize", "disjoint", "nneg",
        "samesign", "nusw"}


class ParseError(Exception):
    pass


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise ParseError("token: " + s[i:i + 60])
        out.append(m.group(m.lastindex))
        i = m.end()
    return out


class Type:
    """kind: i, d, f, p, void, array, struct, label, metadata"""
    __slots__ = ("kind", "n", "el", "fields", "size", "align", "offs")

    def __init__(self, kind, n=0, el=None, fields=None, packed=False):
        self.kind, self.n, self.el, self.fields = kind, n, el, fields
        self.offs = None
        if kind == "i":
            self.size = max(1, (n + 7) // 8)
            if self.size not in (1, 2, 4, 8, 16):
                raise ParseError("i%d" % n)
            self.align = self.size
        elif kind in ("d", "p"):
            self.size = self.align = 8
        elif kind == "f":
            self.size = self.align = 4
        elif kind == "array":
            self.size, self.align = n * el.size, el.align
        elif kind == "struct":
            off, al, self.offs = 0, 1, []
            for t in fields:
                a = 1 if packed else t.align
                off = (off + a - 1) // a * a
                self.offs.append(off)
                off += t.size
                al = max(al, a)
            self.size = (off + al - 1) // al * al
            self.align = al
        else:
            self.size = self.align = 1

    @property
    def kk(self):   # slot kind
        return "i%d" % (self.size * 8) if self.kind == "i" else self.kind


VOID = Type("void")
PTR = Type("p")
DBL, FLT = Type("d"), Type("f")
_ints = {}


def INT(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Type("i", n)
    return t


class Const:
    """ref kinds: int, float, null, undef, zero, global, gep, agg, str, cast"""
    __slots__ = ("k", "v", "t")

    def __init__(self, k, v, t):
        self.k, self.v, self.t = k, v, t


class P:
    """Token stream parser."""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x != s:
            raise ParseError("expected %s got %s in %s" % (s, x, " ".join(self.t)))

    def attrs(self):
        while True:
            x = self.peek()
            if x in DROP:
                self.i += 1
            elif x == "align":
                self.i += 2
            elif x in ("dereferenceable", "dereferenceable_or_null", "byval",
                       "sret", "captures", "memory", "range", "nofpclass",
                       "initializes", "elementtype", "align"):
                self.i += 1
                if self.peek() == "(":
                    d = 0
                    while True:
                        y = self.next()
                        d += (y == "(") - (y == ")")
                        if d == 0:
                            break
            else:
                return

    def type(self):
        x = self.next()
        if x == "void":
            t = VOID
        elif x == "ptr":
            t = PTR
            if self.accept("addrspace"):
                self.i += 3
        elif x == "double":
            t = DBL
        elif x == "float":
            t = FLT
        elif re.match(r"i\d+$", x):
            t = INT(int(x[1:]))
        elif x == "label":
            t = Type("label")
        elif x == "metadata":
            t = Type("metadata")
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            el = self.type()
            self.expect("]")
            t = Type("array", n, el)
        elif x == "{":
            fs = []
            while not self.accept("}"):
                fs.append(self.type())
                self.accept(",")
            t = Type("struct", fields=fs)
        elif x == "<" and self.peek() == "{":
            self.next()
            fs = []
            while not self.accept("}"):
                fs.append(self.type())
                self.accept(",")
            self.expect(">")
            t = Type("struct", fields=fs, packed=True)
        elif x[0] == "%":
            t = self.m.named_type(x)
        else:
            raise ParseError("type %s in %s" % (x, " ".join(self.t)[:200]))
        # function type in calls: ret (args...)
        return t

    def value(self, t):
        """-> str (local register) or Const"""
        self.attrs()
        x = self.next()
        if x[0] == "%":
            return x
        return self.const(t, x)

    def const(self, t, x):
        if x[0] == "@":
            return Const("global", x[1:].strip('"'), t)
        if x == "null":
            return Const("null", None, t)
        if x in ("undef", "poison"):
            return Const("undef", None, t)
        if x == "zeroinitializer":
            return Const("zero", None, t)
        if x == "true":
            return Const("int", 1, t)
        if x == "false":
            return Const("int", 0, t)
        if x.startswith('c"'):
            return Const("str", unescape(x[2:-1]), t)
        if t.kind in ("d", "f"):
            if x.startswith("0x"):
                return Const("float", struct.unpack("<d", struct.pack(
                    "<Q", int(x, 16)))[0], t)
            return Const("float", float(x), t)
        if x == "getelementptr":
            self.attrs()
            if self.peek() == "inrange":
                self.i += 1
                while self.next() != ")":
                    pass
            self.expect("(")
            bt = self.type()
            self.expect(",")
            self.attrs()
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.accept(","):
                self.attrs()
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(")")
            return Const("gep", (bt, base, idx), t)
        if x in ("ptrtoint", "inttoptr", "bitcast"):
            self.expect("(")
            st = self.type()
            v = self.value(st)
            self.expect("to")
            dt = self.type()
            self.expect(")")
            return Const("cast", (x, st, v, dt), t)
        if t.kind == "i":
            return Const("int", int(x) & ((1 << t.n) - 1), t)
        if x == "[" or x == "{" or (x == "<" and self.peek() == "{"):
            if x == "<":
                self.next()
            close = {"[": "]", "{": "}", "<": "}"}[x]
            vs = []
            while not self.accept(close):
                et = self.type()
                vs.append(self.value(et))
                self.accept(",")
            if x == "<":
                self.expect(">")
            return Const("agg", vs, t)
        raise ParseError("constant %s of %s" % (x, " ".join(self.t)[:200]))


def unescape(s):
    return re.sub(rb"\\([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]),
                  s.encode("latin1"))


class Func:
    def __init__(self, name, ret, params, vararg):
        self.name, self.ret, self.params, self.vararg = name, ret, params, vararg
        self.blocks = []      # (label, [tokens...])


class Module:
    """One translation unit.  Internal symbols are prefixed with the unit."""

    def __init__(self, text, unit):
        self.unit = unit
        self.types, self.type_toks = {}, {}
        self.globals = {}     # name -> (type, Const or None, is_const, internal)
        self.funcs = {}       # name -> Func
        self.internal = set()
        self.declared = set()
        self.parse(text)

    def named_type(self, name):
        t = self.types.get(name)
        if t is None:
            toks = self.type_toks.get(name)
            if toks is None:
                raise ParseError("unknown type " + name)
            if toks == ["opaque"]:
                t = Type("struct", fields=[])
            else:
                t = P(toks, self).type()
            self.types[name] = t
        return t

    def sym(self, name):
        return self.unit + "::" + name if name in self.internal else name

    def parse(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        pend = []
        while i < n:
            l = lines[i]
            i += 1
            if not l or l[0] in ";!^" or l.startswith(("source_filename", "target ", "attributes ", "module asm", "$")):
                continue
            if l[0] == "%":
                name, rest = l.split(" = type ", 1)
                self.type_toks[name] = tokenize(rest)
                continue
            if l[0] == "@":
                pend.append(l)
                m = re.match(r'@("[^"]*"|[\w.$-]+) = ', l)
                if re.match(r'@("[^"]*"|[\w.$-]+) = (private|internal) ', l):
                    self.internal.add(m.group(1).strip('"'))
                continue
            if l.startswith("declare"):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                self.declared.add(m.group(1))
                continue
            if l.startswith("define"):
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                self.function(l, body)
                continue
            raise ParseError("line: " + l)
        for l in pend:
            self.glob(l)

    def glob(self, l):
        m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$', l)
        name, rest = m.group(1).strip('"'), m.group(2)
        toks = tokenize(rest)
        p = P(toks, self)
        ext = False
        while p.peek() not in ("global", "constant"):
            x = p.next()
            if x in ("external", "extern_weak"):
                ext = True
            if p.peek() == "(":
                while p.next() != ")":
                    pass
        isc = p.next() == "constant"
        t = p.type()
        init = None
        if not ext and p.peek() not in (None, ","):
            init = p.value(t)
        self.globals[name] = (t, init, isc)

    def function(self, head, body):
        m = re.search(r'@("[^"]*"|[\w.$-]+)\(', head)
        name = m.group(1).strip('"')
        pre = tokenize(head[len("define"):m.start()])
        if "internal" in pre or "private" in pre:
            self.internal.add(name)
        p = P([x for x in pre if x not in ("internal", "private", "hidden",
               "weak", "linkonce_odr", "dso_local", "protected", "default")], self)
        p.attrs()
        ret = p.type()
        p = P(tokenize(head[m.end():]), self)
        params, vararg, nb = [], False, 0
        while not p.accept(")"):
            if p.accept("..."):
                vararg = True
                continue
            t = p.type()
            p.attrs()
            x = p.peek()
            if x is not None and x[0] == "%":
                params.append((t, p.next()))
            else:
                params.append((t, "%%%d" % nb))
            nb += 1
            p.accept(",")
        f = Func(name, ret, params, vararg)
        cur = None
        i = 0
        while i < len(body):
            l = body[i]
            i += 1
            if not l.strip():
                continue
            if l[0] != " ":
                lab = l.split(":", 1)[0].strip('"')
                cur = (lab, [])
                f.blocks.append(cur)
                continue
            if cur is None:
                cur = ("%entry%", [])
                f.blocks.append(cur)
            s = l.strip()
            if s.startswith("switch") and not s.endswith("]"):
                while not s.endswith("]"):
                    s += " " + body[i].strip()
                    i += 1
            cur[1].append(s)
        self.funcs[name] = f


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or",
          "xor", "shl", "lshr", "ashr"}
PYI = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^"}
PYF = {"fadd": "+", "fsub": "-", "fmul": "*"}
FPY = {"oeq": "==", "olt": "<", "ogt": ">", "ole": "<=", "oge": ">="}
FPYN = {"une": "==", "ult": ">=", "ugt": "<=", "ule": ">", "uge": "<"}


class Gen:
    """Python source of one function."""

    def __init__(self, mod, f, prog, real):
        self.m, self.f, self.prog, self.real = mod, f, prog, real
        self.names = {}
        self.out = []
        self.has_alloca = False

    def reg(self, x):
        n = self.names.get(x)
        if n is None:
            n = self.names[x] = "v%d" % len(self.names)
        return n

    def val(self, v, t):
        """Python expression of an operand."""
        if v.__class__ is str:
            return self.reg(v)
        return self.prog.const_expr(self.m, v, t, self.real)

    def conc(self, *pairs):
        """condition text: operands (expr, Const?) are all ints"""
        c = ["%s.__class__ is int" % e for e, v in pairs if v.__class__ is str]
        return " and ".join(c)

    def concf(self, *pairs):
        c = ["%s.__class__ is float" % e for e, v in pairs if v.__class__ is str]
        return " and ".join(c)

    def gen(self):
        f = self.f
        blocks = f.blocks
        # implicit entry label number
        if blocks[0][0] == "%entry%":
            blocks[0] = (str(len(f.params)), blocks[0][1])
        idx = {lab: i for i, (lab, _) in enumerate(blocks)}
        phis = {}      # block -> [(dest, type, {pred: value})]
        code = []
        for lab, ins in blocks:
            ph = []
            rest = []
            for s in ins:
                m = re.match(r"(%\S+) = phi (.*)$", s)
                if m:
                    p = P(tokenize(m.group(2)), self.m)
                    p.attrs()
                    t = p.type()
                    inc = {}
                    while True:
                        p.expect("[")
                        v = p.value(t)
                        p.expect(",")
                        pl = p.next()[1:].strip('"')
                        p.expect("]")
                        inc[pl] = v
                        if not p.accept(","):
                            break
                    ph.append((m.group(1), t, inc))
                else:
                    rest.append(s)
            phis[lab] = ph
            code.append((lab, rest))
        self.phis, self.idx = phis, idx
        nb = len(code)
        bodies = []
        for lab, ins in code:
            self.cur = lab
            self.lines = []
            for s in ins:
                self.ins(s)
            bodies.append(self.lines)
        args = ", ".join(self.reg(n) for _, n in f.params)
        if f.vararg:
            args += (", " if args else "") + "*va"
        out = ["def FN(%s):" % args, "  ENT(%r)" % self.m.sym(f.name)]
        if self.has_alloca:
            out.append("  frame = []")
        if nb == 1:
            out += ["  " + l for l in bodies[0]]
        else:
            out.append("  b = 0")
            out.append("  while 1:")

            def tree(lo, hi, ind):
                if hi - lo == 1:
                    out.extend([ind + l for l in bodies[lo]] or [ind + "pass"])
                    return
                mid = (lo + hi) // 2
                out.append(ind + "if b < %d:" % mid)
                tree(lo, mid, ind + " ")
                out.append(ind + "else:")
                tree(mid, hi, ind + " ")
            tree(0, nb, "    ")
        return "\n".join(out)

    def goto(self, lab, ind=""):
        """statements (list) to jump to lab from the current block"""
        ph = self.phis[lab]
        ls = []
        if ph:
            ds, vs = [], []
            for d, t, inc in ph:
                v = inc[self.cur]
                e = self.val(v, t)
                dd = self.reg(d)
                if dd != e:
                    ds.append(dd)
                    vs.append(e)
            if ds:
                ls.append("%s = %s" % (", ".join(ds), ", ".join(vs)))
        tgt = self.idx[lab]
        ls.append("b = %d" % tgt)
        if tgt <= self.idx[self.cur]:
            ls.append("TICK()")
        ls.append("continue")
        return [ind + l for l in ls]

    def emit(self, s):
        self.lines.append(s)

    def ins(self, s):
        # cut metadata
        s = re.sub(r", !\w[\w.]* !\d+", "", s)
        s = re.sub(r", !llvm\.loop !\d+", "", s)
        m = re.match(r'(%"[^"]*"|%[\w.$-]+) = (.*)$', s)
        dest = None
        if m:
            dest, s = m.group(1), m.group(2)
        op = s.split(" ", 1)[0]
        rest = s[len(op):]
        if op in ("tail", "musttail", "notail"):
            op = "call"
            rest = rest.split("call", 1)[1]
        p = P(tokenize(rest), self.m)
        getattr(self, "i_" + op, self.unknown(op))(dest, p, op)

    def unknown(self, op):
        if op in BINOPS:
            return self.binop
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            return self.fbinop
        if op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi",
                  "fptoui", "fpext", "fptrunc", "bitcast", "ptrtoint",
                  "inttoptr"):
            return self.castop

        def bad(*a):
            raise ParseError("instruction " + op)
        return bad

    def binop(self, dest, p, op):
        nsw = "nsw" in p.t[:2]
        p.attrs()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        ea, eb = self.val(a, t), self.val(b, t)
        w = t.n
        d = self.reg(dest)
        slow = "BV(%r, %d, %s, %s)" % (op, w, ea, eb)
        c = self.conc((ea, a), (eb, b))
        if op in PYI and c:
            if op in ("and", "or", "xor"):
                self.emit("%s = %s %s %s if %s else %s" % (
                    d, ea, PYI[op], eb, c, slow))
            else:
                self.emit("%s = (%s %s %s) & %d if %s else %s" % (
                    d, ea, PYI[op], eb, (1 << w) - 1, c, slow))
        else:
            self.emit("%s = %s" % (d, slow))
        if nsw and op in ("add", "sub", "mul") and w >= 32:
            self.emit("NSW(%r, %d, %s, %s)" % (op, w, ea, eb) if False else "pass")

    def fbinop(self, dest, p, op):
        p.attrs()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        ea, eb = self.val(a, t), self.val(b, t)
        d = self.reg(dest)
        slow = "FOP(%r, %r, %s, %s)" % (op, t.kind, ea, eb)
        c = self.concf((ea, a), (eb, b))
        if op in PYF and c and not self.real and t.kind == "d":
            self.emit("%s = %s %s %s if %s else %s" % (d, ea, PYF[op], eb, c, slow))
        else:
            self.emit("%s = %s" % (d, slow))

    def i_fneg(self, dest, p, op):
        p.attrs()
        t = p.type()
        a = p.value(t)
        self.emit("%s = FNEG(%s, %r)" % (self.reg(dest), self.val(a, t), t.kind))

    def i_icmp(self, dest, p, op):
        p.attrs()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        ea, eb = self.val(a, t), self.val(b, t)
        d = self.reg(dest)
        if t.kind == "p":
            self.emit("%s = PCMP(%r, %s, %s)" % (d, pred, ea, eb))
            return
        c = self.conc((ea, a), (eb, b))
        slow = "ICMP(%r, %d, %s, %s)" % (pred, t.n, ea, eb)
        if pred in ("eq", "ne"):
            fast = "(1 if %s %s %s else 0)" % (ea, "==" if pred == "eq" else "!=", eb)
        elif pred[0] == "u":
            fast = "(1 if %s %s %s else 0)" % (
                ea, {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[pred[1:]], eb)
        else:
            # compare with the sign bit flipped
            h = 1 << (t.n - 1)
            fa = "(%s ^ %d)" % (ea, h) if a.__class__ is str else str(int(ea) ^ h)
            fb = "(%s ^ %d)" % (eb, h) if b.__class__ is str else str(int(eb) ^ h)
            fast = "(1 if %s %s %s else 0)" % (
                fa, {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[pred[1:]], fb)
        if c:
            self.emit("%s = %s if %s else %s" % (d, fast, c, slow))
        else:
            self.emit("%s = %s" % (d, slow))

    def i_fcmp(self, dest, p, op):
        p.attrs()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        ea, eb = self.val(a, t), self.val(b, t)
        d = self.reg(dest)
        slow = "FCMP(%r, %s, %s)" % (pred, ea, eb)
        c = self.concf((ea, a), (eb, b))
        if c and not self.real and pred in FPY:
            self.emit("%s = (1 if %s %s %s else 0) if %s else %s" % (
                d, ea, FPY[pred], eb, c, slow))
        elif c and not self.real and pred in FPYN:
            self.emit("%s = (0 if %s %s %s else 1) if %s else %s" % (
                d, ea, FPYN[pred], eb, c, slow))
        else:
            self.emit("%s = %s" % (d, slow))

    def i_select(self, dest, p, op):
        p.attrs()
        ct = p.type()
        c = p.value(ct)
        p.expect(",")
        t = p.type()
        a = p.value(t)
        p.expect(",")
        t2 = p.type()
        b = p.value(t2)
        ec, ea, eb = self.val(c, ct), self.val(a, t), self.val(b, t2)
        d = self.reg(dest)
        if t.kind in ("i", "d", "f"):
            w = str(t.n) if t.kind == "i" else repr(t.kind)
            self.emit("%s = (%s if %s else %s) if %s.__class__ is int else ITE(%s, %s, %s, %s)" % (
                d, ea, ec, eb, ec, ec, ea, eb, w))
        else:
            self.emit("%s = %s if (%s if %s.__class__ is int else DECIDE(%s)) else %s" % (
                d, ea, ec, ec, ec, eb))

    def i_freeze(self, dest, p, op):
        t = p.type()
        self.emit("%s = %s" % (self.reg(dest), self.val(p.value(t), t)))

    def castop(self, dest, p, op):
        p.attrs()
        t = p.type()
        a = p.value(t)
        p.expect("to")
        u = p.type()
        e = self.val(a, t)
        d = self.reg(dest)
        if op in ("zext", "trunc"):
            if op == "zext":
                self.emit("%s = %s if %s.__class__ is int else CAST('zext', %d, %s, %d)" % (
                    d, e, e, u.n, e, t.n))
            else:
                self.emit("%s = %s & %d if %s.__class__ is int else CAST('trunc', %d, %s, %d)" % (
                    d, e, (1 << u.n) - 1, e, u.n, e, t.n))
        elif op == "sext":
            self.emit("%s = CAST('sext', %d, %s, %d)" % (d, u.n, e, t.n))
        elif op in ("sitofp", "uitofp"):
            self.emit("%s = ITOF(%r, %r, %s, %d)" % (d, op, u.kind, e, t.n))
        elif op in ("fptosi", "fptoui"):
            self.emit("%s = FTOI(%r, %d, %s)" % (d, op, u.n, e))
        elif op in ("fpext", "fptrunc"):
            self.emit("%s = FEXT(%s, %r)" % (d, e, u.kind))
        elif op == "bitcast":
            if t.kind == u.kind:
                self.emit("%s = %s" % (d, e))
            elif t.kind in "df":
                self.emit("%s = F2B(%s, %r)" % (d, e, t.kind))
            elif u.kind in "df":
                self.emit("%s = B2F(%s, %r)" % (d, e, u.kind))
            else:
                raise ParseError("bitcast")
        elif op == "ptrtoint":
            self.emit("%s = P2I(%s) & %d" % (d, e, (1 << u.n) - 1))
        elif op == "inttoptr":
            self.emit("%s = I2P(%s)" % (d, e))

    def i_alloca(self, dest, p, op):
        self.has_alloca = True
        t = p.type()
        n = "1"
        if p.accept(",") and p.peek() not in ("align",):
            nt = p.type()
            n = self.val(p.value(nt), nt)
        self.emit("%s = ALLOCA(frame, %d, %s)" % (self.reg(dest), t.size, n))

    def i_load(self, dest, p, op):
        p.attrs()
        t = p.type()
        p.expect(",")
        pt = p.type()
        a = p.value(pt)
        if t.kind not in ("i", "d", "f", "p"):
            raise ParseError("aggregate load")
        e = self.val(a, pt)
        d = self.reg(dest)
        self.emit("%s = LOAD(%s, %d, %r)" % (d, e, t.size, t.kk))
        if t.kind == "i" and t.n != t.size * 8:
            self.emit("%s = CAST('trunc', %d, %s, %d)" % (d, t.n, d, t.size * 8))

    def i_store(self, dest, p, op):
        p.attrs()
        t = p.type()
        v = p.value(t)
        p.expect(",")
        pt = p.type()
        a = p.value(pt)
        if t.kind not in ("i", "d", "f", "p"):
            raise ParseError("aggregate store")
        ev = self.val(v, t)
        if t.kind == "i" and t.n != t.size * 8:
            ev = "CAST('zext', %d, %s, %d)" % (t.size * 8, ev, t.n)
        self.emit("STORE(%s, %d, %r, %s)" % (self.val(a, pt), t.size, t.kk, ev))

    def gep_expr(self, t, base, idx):
        """-> expression"""
        const, dyn = 0, []
        first = True
        for it, v in idx:
            if first:
                scale = t.size
                first = False
            elif t.kind == "struct":
                k = v.v
                const += t.offs[k]
                t = t.fields[k]
                continue
            elif t.kind == "array":
                t = t.el
                scale = t.size
            else:
                raise ParseError("gep")
            if v.__class__ is not str and v.k in ("int", "zero", "undef"):
                c = v.v or 0
                n = it.n
                if c >> (n - 1):
                    c -= 1 << n
                const += c * scale
            else:
                dyn.append((self.val(v, it), scale, it.n))
        e = base
        for x, scale, n in dyn:
            e = "GEPD(%s, %s, %d, %d, %d)" % (e, x, scale, n, const)
            const = 0
        if const:
            e = "GEP(%s, %d)" % (e, const)
        return e

    def i_getelementptr(self, dest, p, op):
        p.attrs()
        t = p.type()
        p.expect(",")
        pt = p.type()
        base = p.value(pt)
        idx = []
        while p.accept(","):
            it = p.type()
            idx.append((it, p.value(it)))
        self.emit("%s = %s" % (self.reg(dest),
                               self.gep_expr(t, self.val(base, pt), idx)))

    def i_br(self, dest, p, op):
        if p.peek() == "label":
            p.next()
            for l in self.goto(p.next()[1:].strip('"')):
                self.emit(l)
            return
        t = p.type()
        c = p.value(t)
        p.expect(",")
        p.expect("label")
        l1 = p.next()[1:].strip('"')
        p.expect(",")
        p.expect("label")
        l2 = p.next()[1:].strip('"')
        e = self.val(c, t)
        self.emit("if %s if %s.__class__ is int else DECIDE(%s):" % (e, e, e))
        for l in self.goto(l1, " "):
            self.emit(l)
        for l in self.goto(l2):
            self.emit(l)

    def i_switch(self, dest, p, op):
        t = p.type()
        v = p.value(t)
        p.expect(",")
        p.expect("label")
        dfl = p.next()[1:].strip('"')
        p.expect("[")
        cases = []
        while not p.accept("]"):
            ct = p.type()
            c = p.value(ct)
            p.expect(",")
            p.expect("label")
            cases.append((c.v, p.next()[1:].strip('"')))
        e = self.val(v, t)
        groups = {}
        for c, l in cases:
            groups.setdefault(l, []).append(c)
        self.emit("sw = %s if %s.__class__ is int else SWITCH(%s, %d, %r)" % (
            e, e, e, t.n, tuple(c for c, _ in cases)))
        for l, cs in groups.items():
            if l == dfl:
                continue
            self.emit("if sw in %r:" % (tuple(cs),))
            for x in self.goto(l, " "):
                self.emit(x)
        for x in self.goto(dfl):
            self.emit(x)

    def i_ret(self, dest, p, op):
        t = p.type()
        if self.has_alloca or any(" = alloca " in s for _, b in self.f.blocks for s in b):
            self.emit("ENDFRAME(frame)")
        if t.kind == "void":
            self.emit("return None")
        else:
            self.emit("return %s" % self.val(p.value(t), t))

    def i_unreachable(self, dest, p, op):
        self.emit("UNREACHABLE(%r)" % self.f.name)

    def i_call(self, dest, p, op):
        p.attrs()
        t = p.type()
        if p.peek() == "(":
            # function type
            d = 0
            while True:
                y = p.next()
                d += (y == "(") - (y == ")")
                if d == 0:
                    break
        callee = p.next()
        p.expect("(")
        args = []
        while not p.accept(")"):
            at = p.type()
            if at.kind == "metadata":
                while p.peek() not in (",", ")"):
                    p.next()
                p.accept(",")
                continue
            v = p.value(at)
            args.append((at, v))
            p.accept(",")
        ea = [self.val(v, at) for at, v in args]
        pre = "" if dest is None else self.reg(dest) + " = "
        if callee[0] == "@":
            name = callee[1:].strip('"')
            if name.startswith("llvm."):
                self.intrinsic(pre, name, ea, args)
                return
            s = self.m.sym(name)
            self.emit("%s%s(%s)" % (pre, self.prog.func_ref(s, self.m), ", ".join(ea)))
        else:
            self.emit("%sCALLP(%s)(%s)" % (pre, self.reg(callee), ", ".join(ea)))

    def intrinsic(self, pre, name, ea, args):
        if name.startswith("llvm.fabs."):
            self.emit("%sFABS(%s, %r)" % (pre, ea[0], args[0][0].kind))
        elif name.startswith("llvm.sqrt."):
            self.emit("%sFSQRT(%s, %r)" % (pre, ea[0], args[0][0].kind))
        elif name.startswith(("llvm.memcpy.", "llvm.memmove.")):
            self.emit("MEMCPY(%s)" % ", ".join(ea[:3]))
        elif name.startswith("llvm.memset."):
            self.emit("MEMSET(%s)" % ", ".join(ea[:3]))
        elif name.startswith("llvm.is.fpclass."):
            self.emit("%sFPCLASS(%s, %s)" % (pre, ea[0], ea[1]))
        elif name.startswith(("llvm.smax.", "llvm.smin.", "llvm.umax.", "llvm.umin.")):
            k = name[5:9]
            w = args[0][0].n
            pred = k[0] + ("gt" if k[1:] == "max" else "lt")
            self.emit("%sITE(ICMP(%r, %d, %s, %s), %s, %s, %d)" % (
                pre, pred, w, ea[0], ea[1], ea[0], ea[1], w))
        elif name.startswith("llvm.abs."):
            w = args[0][0].n
            self.emit("%sITE(ICMP('slt', %d, %s, 0), BV('sub', %d, 0, %s), %s, %d)" % (
                pre, w, ea[0], w, ea[0], ea[0], w))
        elif name.startswith("llvm.copysign."):
            self.emit("%sCOPYSIGN(%s, %s, %r)" % (pre, ea[0], ea[1], args[0][0].kind))
        elif name.startswith(("llvm.maxnum.", "llvm.minnum.")):
            self.emit("%sFMINMAX(%r, %s, %s, %r)" % (pre, name[5:8], ea[0], ea[1], args[0][0].kind))
        elif name.startswith("llvm.fmuladd."):
            k = args[0][0].kind
            self.emit("%sFOP('fadd', %r, FOP('fmul', %r, %s, %s), %s)" % (
                pre, k, k, ea[0], ea[1], ea[2]))
        elif name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume",
                              "llvm.stacksave", "llvm.stackrestore")):
            if pre:
                self.emit(pre + "NULL")
        elif name == "llvm.trap":
            self.emit("ABORT('trap')")
        elif name.startswith("llvm.va_"):
            raise ParseError(name)
        elif name.startswith("llvm.expect."):
            self.emit(pre + ea[0])
        else:
            raise ParseError("intrinsic " + name)
