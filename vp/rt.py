"""Run-time of the symbolic executor: memory, path oracle, C library models.

One run of a harness follows ONE path, chosen by a prefix of recorded
decisions; past the prefix, every branch on a symbolic condition is decided by
the solver and the feasible alternatives are returned for later exploration.
"""
import math, os, random, re, sys, time
from fractions import Fraction
import z3
import expr as X
from expr import E, mk, Unsupported, RealDomain, UndefinedBehaviour
import llir

sys.setrecursionlimit(20000)


class PathEnd(Exception):
    pass


class Violation(Exception):
    pass


class Hang(Violation):
    pass


class Obj:
    __slots__ = ("data", "size", "base", "alive", "kind", "fill", "name", "raw",
                 "fn", "id")


class P:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "<%s+%s>" % (self.obj.name if self.obj else None, self.off)


NULL = P(None, 0)
NULLOBJ = None
KSIZE = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "d": 8, "f": 4, "p": 8, "i128": 16}
KW = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}


class Ctx:
    def __init__(self, prefix, model, opts):
        self.prefix, self.pos = prefix, 0
        self.trace = []
        self.alts = []
        self.pc = []
        self.pcset = set()
        self.known = {}
        self.model = model      # dict var E -> value, or None
        self.memo = {}
        self.inputs = []
        self.nobj = 0
        self.base = 0x10000
        self.live = {}
        self.objs = []
        self.ticks = 0
        self.opts = opts
        self.reached = set()
        self.checks = 0
        self.unknown = 0
        self.unsure = False
        self.fails_left = 0
        self.errno = None
        self.outputs = 0
        self.nuninit = 0
        self.abort_ok = False


CTX = None
STATS = {"queries": 0, "solver_s": 0.0, "unknown": 0, "cache": 0, "branches": 0,
         "sat": 0, "unsat": 0}
FUNCS = set()
QTIMEOUT = [60000]
_qcache = {}


# ------------------------------------------------------------------- solver
def _slice(extra):
    vs = set(X.variables(extra))
    if not vs:
        return []
    rest = [(c, X.variables(c)) for c in CTX.pc]
    out = []
    changed = True
    while changed and rest:
        changed = False
        nr = []
        for c, cv in rest:
            if not vs.isdisjoint(cv):
                out.append(c)
                if not cv <= vs:
                    vs |= cv
                    changed = True
            else:
                nr.append((c, cv))
        rest = nr
    return out


def solve(extra, keep=None):
    """-> ('sat', model) | ('unsat', None) | ('unknown', None)"""
    if extra.__class__ is not E:
        if not extra:
            return "unsat", None
        return solve_pc()
    cs = _slice(extra)
    key = (frozenset(c.id for c in cs), extra.id)
    r = _qcache.get(key)
    if r is not None:
        STATS["cache"] += 1
        return r
    r = _z3(cs + [extra])
    _qcache[key] = r
    return r


def solve_pc():
    return _z3(CTX.pc)


def _z3(cs):
    STATS["queries"] += 1
    t0 = time.time()
    if X.MODE == "fp":
        r = _order(cs)
        if r is not None:
            STATS["solver_s"] += time.time() - t0
            STATS[r[0]] += 1
            return r
    side = {}
    fs = [X.to_z3(c, side) for c in cs]
    fs += list(side.values())
    vs = set()
    for c in cs:
        vs |= X.variables(c)
    res = "unknown"
    if X.NF is not None and len(vs) > 1 and not _linear(cs):
        # nonlinear: a quick attempt, then a search for a model
        s = z3.Solver()
        s.set("timeout", min(500, QTIMEOUT[0]))
        s.add(*fs)
        r = s.check()
        if r == z3.unknown:
            m = guess(cs, vs)
            if m is not None:
                STATS["solver_s"] += time.time() - t0
                STATS["sat"] += 1
                return "sat", m
        else:
            res = str(r)
    for attempt in SOLVERS[X.MODE] if res == "unknown" else []:
        s = attempt()
        s.set("timeout", QTIMEOUT[0])
        s.add(*fs)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            res = "unsat"
            break
        if r == z3.sat:
            res = "sat"
            break
    STATS["solver_s"] += time.time() - t0
    STATS[res] += 1
    if SLOW and time.time() - t0 > SLOW:
        sys.stderr.write("%.1f s: %s, %d constraints\n" % (time.time() - t0, res, len(cs)))
        if os.environ.get("VP_SLOW_DUMP"):
            for f in fs:
                sys.stderr.write("    %s\n" % str(f).replace("\n", " ")[:1500])
        sys.stderr.flush()
    if res != "sat":
        return res, None
    m = s.model()
    model = {}
    for v in vs:
        zv = m.eval(v.z[0], model_completion=True)
        x = _pyval(zv, v.w)
        if x is None:
            return "sat", None
        model[v] = x
    return "sat", model


_linear_cache = {}


def _linear(cs):
    for c in cs:
        r = _linear_cache.get(c)
        if r is None:
            r = True
            seen, stack = set(), [c]
            while stack:
                t = stack.pop()
                if t in seen:
                    continue
                seen.add(t)
                if t.op in ("fsqrt", "fdiv") or t.op == "fmul" and t.a[0].__class__ is E \
                   and t.a[1].__class__ is E:
                    r = False
                    break
                stack.extend(x for x in t.a if x.__class__ is E)
            _linear_cache[c] = r
        if not r:
            return False
    return True


def guess(cs, vs):
    """local search for a model of nonlinear constraints"""
    rnd = random.Random(len(cs) * 1009 + len(vs))
    fv = sorted((v for v in vs if v.w.__class__ is not int), key=lambda v: v.a[0])
    iv = [v for v in vs if v.w.__class__ is int]
    base = CTX.model or {}
    if not fv or any(v.w != 1 and v not in base for v in iv):
        return None
    # bounds of the variables
    lo, hi = {}, {}
    consts = {Fraction(0), Fraction(1)}
    for c in cs:
        neg = c.op == "not"
        b = c.a[0] if neg else c
        if b.op == "flt":
            x, y = b.a
            if x.__class__ is not E and y.__class__ is E:
                consts.add(x)
                if y.op == "var":
                    (hi if neg else lo)[y] = x
            elif y.__class__ is not E and x.__class__ is E:
                consts.add(y)
                if x.op == "var":
                    (lo if neg else hi)[x] = y

    def pick(v, cur):
        k = rnd.random()
        l, h = lo.get(v, Fraction(-100)), hi.get(v, Fraction(100))
        if h <= l:
            return l
        if k < 0.3 and cur is not None:
            d = Fraction(rnd.randint(-64, 64), 2 ** rnd.randint(3, 14)) * max(1, abs(cur))
            x = cur + d
        elif k < 0.4 and cur is not None:
            x = cur * rnd.choice((Fraction(1, 2), 2, -1, Fraction(9, 10), Fraction(11, 10), 0))
        elif k < 0.5:
            x = base.get(rnd.choice(fv), Fraction(0))
            if x != x or x in (X.INF, -X.INF):
                x = Fraction(0)
        elif k < 0.75:
            x = Fraction(rnd.randint(-8, 8), rnd.choice((1, 1, 2, 4)))
        else:
            x = l + (h - l) * Fraction(rnd.randint(0, 64), 64)
        if x.__class__ is not Fraction:
            x = Fraction(x)
        return min(max(x, l), h)

    def score(m):
        memo = {}
        n = 0
        for c in cs:
            try:
                n += X.evaluate(c, m, memo) == 1
            except (X.NoValue, RealDomain, ZeroDivisionError, UndefinedBehaviour, Unsupported, OverflowError):
                pass
        return n

    end = time.time() + GUESS[0]
    first = True
    while time.time() < end:
        m = {v: base.get(v, 0) for v in iv}
        for v in fv:
            x = base.get(v)
            if x.__class__ is not Fraction or not first:
                x = pick(v, None)
            m[v] = x
        first = False
        best = score(m)
        for _ in range(150):
            if best == len(cs):
                return m
            if time.time() > end:
                return None
            n = dict(m)
            for v in rnd.sample(fv, min(len(fv), rnd.choice((1, 1, 1, 2)))):
                n[v] = pick(v, n[v])
            sc = score(n)
            if sc >= best:
                m, best = n, sc
    return None


GUESS = [1.0]
SLOW = float(os.environ.get('VP_SLOW', 0))


def _order(cs):
    """decide with the order abstraction, or None"""
    side = {}
    try:
        fs = [X.to_ord(c, side) for c in cs]
    except X.NotOrd:
        return None
    if not side:
        return None
    s = z3.Solver()
    s.set("timeout", QTIMEOUT[0])
    s.add(*fs)
    s.add(*side.values())
    r = s.check()
    if r == z3.unsat:
        return "unsat", None
    if r != z3.sat:
        return None
    m = s.model()
    model = {}
    vs = set()
    for c in cs:
        vs |= X.variables(c)
    for v in vs:
        z = X.to_ord(v, {})
        if v.w.__class__ is int:
            model[v] = _pyval(m.eval(z, model_completion=True), v.w)
            continue
        if z3.is_true(m.eval(z[1], model_completion=True)):
            model[v] = math.nan
            continue
        q = m.eval(z[0], model_completion=True)
        q = Fraction(q.numerator_as_long(), q.denominator_as_long())
        try:
            x = float(q)
        except OverflowError:
            x = math.inf if q > 0 else -math.inf
        model[v] = X.f32(x) if v.w == "f" else x
    try:
        memo = {}
        for c in cs:
            if X.evaluate(c, model, memo) != 1:
                return None
    except (X.NoValue, UndefinedBehaviour, Unsupported):
        return None
    return "sat", model


SOLVERS = {
    "fp": [lambda: z3.Solver()],
    "real": [lambda: z3.Solver(), lambda: z3.SolverFor("QF_NRA")],
}


def _pyval(zv, w):
    if w == 1:
        return 1 if z3.is_true(zv) else 0
    if w.__class__ is int:
        return zv.as_long()
    if X.MODE == "real":
        if z3.is_rational_value(zv):
            return Fraction(zv.numerator_as_long(), zv.denominator_as_long())
        return None
    if z3.is_fp_value(zv):
        if zv.isNaN():
            return math.nan
        if zv.isInf():
            return -math.inf if zv.isNegative() else math.inf
        b = z3.simplify(z3.fpToIEEEBV(zv)).as_long()
        return X.b2f(b, w)
    return None


def model_eval(e):
    """value of a condition under the current model or None"""
    if CTX.model is None:
        return None
    try:
        return X.evaluate(e, CTX.model, CTX.memo)
    except (X.NoValue, UndefinedBehaviour, Unsupported, RealDomain,
            ZeroDivisionError, OverflowError):
        return None


def set_model(m):
    if m is None:
        CTX.model = None
        CTX.memo = {}
        return
    base = dict(CTX.model) if CTX.model is not None else {}
    if CTX.model is None:
        # variables outside the slice are not covered: need a full model
        r, full = solve_pc()
        if r == "sat" and full is not None:
            base = full
        else:
            CTX.memo = {}
            return
    base.update(m)
    CTX.model = base
    CTX.memo = {}


def assume(c):
    """add a constraint without feasibility check"""
    if c.__class__ is not E:
        return
    if c.op == "and":
        assume(c.a[0])
        assume(c.a[1])
        return
    if c.op == "not" and c.a[0].op == "or":
        assume(X.not_(c.a[0].a[0]))
        assume(X.not_(c.a[0].a[1]))
        return
    if c in CTX.pcset:
        return
    CTX.pcset.add(c)
    CTX.pc.append(c)
    CTX.known[c] = 1
    CTX.known[X.not_(c)] = 0
    if X.NF is not None:
        _trichotomy(c)


def _trichotomy(c):
    """consequences of a comparison for the opposite ones"""
    neg = c.op == "not"
    b = c.a[0] if neg else c
    if b.op not in ("flt", "feq"):
        return
    x, y = b.a
    lt, gt = mk("flt", 1, x, y), mk("flt", 1, y, x)
    eq = X.raw_feq(x, y)
    if not neg:
        for o in (lt, gt, eq):
            if o is not b:
                CTX.known[o] = 0
                CTX.known[X.not_(o)] = 1
        return
    rest = [o for o in (lt, gt, eq) if CTX.known.get(o) != 0]
    if len(rest) == 1:
        CTX.known[rest[0]] = 1
        CTX.known[X.not_(rest[0])] = 0


def DECIDE(c):
    if c.__class__ is not E:
        return c
    if c.op == "not":
        return 1 - DECIDE(c.a[0])
    k = CTX.known.get(c) if X.NF is None else _known(c)
    if k is not None:
        return k
    n = CTX.pos
    if n < len(CTX.prefix):
        d = CTX.prefix[n]
        CTX.pos += 1
        CTX.trace.append(d)
        v = d & 1
        if d < 2:
            assume(c if v else X.not_(c))
        else:
            CTX.known[c] = v
            CTX.known[X.not_(c)] = 1 - v
        return v
    STATS["branches"] += 1
    m = model_eval(c)
    if m is None:
        r1, m1 = solve(c)
        if r1 == "unsat":
            d, forced = 0, True
        else:
            r0, m0 = solve(X.not_(c))
            if r0 == "unsat":
                d, forced = 1, True
            else:
                forced = False
                d = 1 if r1 == "sat" else 0
                if r1 == "unknown" and r0 == "unknown":
                    CTX.unsure = True
                if d:
                    CTX.alts.append((CTX.trace + [0], alt_model(m0), r0 != "sat" or CTX.unsure))
                    set_model(m1)
                else:
                    CTX.alts.append((CTX.trace + [1], alt_model(m1), r1 != "sat" or CTX.unsure))
                    set_model(m0)
    else:
        d = m
        other = X.not_(c) if d else c
        r, mo = solve(other)
        if r == "unsat":
            forced = True
        else:
            forced = False
            CTX.alts.append((CTX.trace + [1 - d], alt_model(mo), r != "sat" or CTX.unsure))
    CTX.pos += 1
    CTX.prefix = CTX.prefix   # stays shorter than pos
    if forced:
        CTX.trace.append(d | 2)
        CTX.known[c] = d
        CTX.known[X.not_(c)] = 1 - d
    else:
        CTX.trace.append(d)
        assume(c if d else X.not_(c))
    return d


def alt_model(m):
    if m is None or CTX.model is None:
        return None
    r = dict(CTX.model)
    r.update(m)
    return r


def concretize(e):
    """fork on the possible values of an integer term; -> unsigned int"""
    while e.__class__ is E:
        n = CTX.pos
        if n < len(CTX.prefix):
            ent = CTX.prefix[n]
            CTX.pos += 1
            CTX.trace.append(ent)
            _, v, t = ent
            c = X.icmp("eq", e.w, e, v) if e.w != 1 else (e if v else X.not_(e))
            if t == 1:
                assume(c)
                return v
            if t == 3:
                return v
            assume(X.not_(c))
            continue
        v = model_eval(e)
        if v is None:
            r, m = solve_pc()
            if r == "unsat":
                raise PathEnd()
            if m is None:
                raise Unsupported("cannot concretize")
            set_model(m)
            v = model_eval(e)
            if v is None:
                raise Unsupported("cannot concretize")
        c = X.icmp("eq", e.w, e, v) if e.w != 1 else (e if v else X.not_(e))
        STATS["branches"] += 1
        r, mo = solve(X.not_(c))
        CTX.pos += 1
        if r == "unsat":
            CTX.trace.append(("=", v, 3))
            return v
        CTX.alts.append((CTX.trace + [("=", v, 0)], alt_model(mo), r != "sat" or CTX.unsure))
        CTX.trace.append(("=", v, 1))
        assume(c)
        return v
    return e


def SWITCH(e, w, cases):
    for c in cases:
        if DECIDE(X.icmp("eq", w, e, c)):
            return c
    return -1


def replaying():
    return CTX.pos < len(CTX.prefix)


def CHECK(c, msg):
    """property assertion"""
    CTX.checks += 1
    if c.__class__ is not E:
        if not c:
            raise Violation(msg)
        return
    k = CTX.known.get(c) if X.NF is None else _known(c)
    if k == 1:
        return
    if replaying():
        return
    neg = X.not_(c)
    m = model_eval(c)
    if m == 0:
        raise Violation(msg)
    r, mo = solve(neg)
    if r == "unsat":
        return
    if r == "unknown":
        CTX.unknown += 1
        if SLOW:
            print("undecided:", msg, flush=True)
        return
    set_model(mo)
    if mo is None:
        # no usable (rational) model
        CTX.unknown += 1
        raise Violation(msg)
    raise Violation(msg)


def ASSUME(c):
    if c.__class__ is not E:
        if not c:
            raise PathEnd()
        return
    k = CTX.known.get(c) if X.NF is None else _known(c)
    if k is not None:
        if not k:
            raise PathEnd()
        return
    if replaying():
        assume(c)
        return
    m = model_eval(c)
    if m != 1:
        r, mo = solve(c)
        if r == "unsat":
            raise PathEnd()
        if r == "unknown":
            CTX.unsure = True
            CTX.model = None
            CTX.memo = {}
        else:
            set_model(mo)
    assume(c)


# ------------------------------------------------------------------- memory
def new_obj(size, kind, name="", fill=None):
    o = Obj()
    o.data, o.size, o.alive, o.kind, o.fill, o.name = {}, size, True, kind, fill, name
    o.raw = o.fn = None
    o.id = CTX.nobj
    CTX.nobj += 1
    o.base = CTX.base
    CTX.base += (size + 31) // 16 * 16 + 16
    CTX.objs.append(o)
    return o


def bad(p, n, what):
    o = p.obj
    if o is None:
        raise Violation("null pointer dereference (%s)" % what)
    if o.fn is not None:
        raise Violation("access to a function (%s)" % what)
    if not o.alive:
        raise Violation("%s of freed or out-of-scope memory" % what)
    raise Violation("out-of-bounds %s (%s object, size %d, offset %s, %d bytes)" % (
        what, o.kind, o.size, p.off, n))


def offset(p, n, what):
    off = p.off
    if off.__class__ is not int:
        o = p.obj
        if o is None:
            bad(p, n, what)
        if not replaying():
            lim = o.size - n
            inb = X.icmp("ule", 64, off, lim) if lim >= 0 else 0
            c = X.not_(inb)
            if c.__class__ is E:
                r, mo = solve(c)
                if r == "sat":
                    set_model(mo)
                    bad(p, n, what)
            elif c:
                bad(p, n, what)
        off = X.sgn(concretize(off), 64)
    return off


def LOAD(p, n, k):
    o = p.obj
    off = p.off
    if off.__class__ is not int:
        off = offset(p, n, "read")
    if o is None or off < 0 or off + n > o.size or not o.alive:
        bad(p, n, "read")
    s = o.data.get(off)
    if s is not None and s[0] == k:
        return s[1]
    return load_slow(o, off, n, k)


def convert(k1, v, k2):
    if k1 == k2:
        return v
    if k1 == "d" or k1 == "f":
        v = X.f2b(v, k1)
    elif k1 == "p":
        v = P2I(v)
    if k2 == "d" or k2 == "f":
        return X.b2f(v, k2)
    if k2 == "p":
        return I2P(v)
    return v


def byte_at(o, off):
    data = o.data
    for d in range(0, 16):
        s = data.get(off - d)
        if s is not None:
            if KSIZE[s[0]] > d:
                v = convert(s[0], s[1], "i%d" % (8 * KSIZE[s[0]]))
                return X.extract(v, 8 * d, 8)
            break
    if o.raw is not None:
        return o.raw[off] if off < len(o.raw) else 0
    if o.fill is not None:
        return o.fill
    CTX.nuninit += 1
    v = mk("var", 8, "u%d_%d" % (o.id, off))
    STORE(P(o, off), 1, "i8", v)
    return v


def zero_of(k):
    return X.fconst(0.0) if k in "df" else NULL if k == "p" else 0


def load_slow(o, off, n, k):
    s = o.data.get(off)
    if s is not None and KSIZE[s[0]] == n:
        return convert(s[0], s[1], k)
    if o.raw is None:
        for d in range(off - 7, off + n):
            s = o.data.get(d)
            if s is not None and d + KSIZE[s[0]] > off:
                break
        else:
            if o.fill == 0:
                return zero_of(k)
            if o.fill is None:
                CTX.nuninit += 1
                if k == "p":
                    raise Violation("use of an uninitialized pointer")
                w = k if k in ("d", "f") else KW[k]
                v = mk("var", w, "u%d_%d" % (o.id, off))
                o.data[off] = (k, v)
                return v
    v = X.concat([(byte_at(o, off + i), 8) for i in range(n)])
    return convert("i%d" % (8 * n), v, k)


def STORE(p, n, k, v):
    o = p.obj
    off = p.off
    if off.__class__ is not int:
        off = offset(p, n, "write")
    if o is None or off < 0 or off + n > o.size or not o.alive:
        bad(p, n, "write")
    data = o.data
    s = data.get(off)
    if s is not None and KSIZE[s[0]] == n:
        data[off] = (k, v)
        return
    if o.kind == "const":
        raise Violation("write to constant data")
    if data:
        for d in range(off - 15, off + n):
            s = data.get(d)
            if s is not None and d + KSIZE[s[0]] > off:
                sz = KSIZE[s[0]]
                if d >= off and d + sz <= off + n:
                    del data[d]
                else:
                    x = convert(s[0], s[1], "i%d" % (8 * sz))
                    del data[d]
                    for i in range(sz):
                        if not off <= d + i < off + n:
                            data[d + i] = ("i8", X.extract(x, 8 * i, 8))
    data[off] = (k, v)


def cint(v, w=64):
    """concrete signed integer"""
    if v.__class__ is E:
        v = concretize(v)
    return X.sgn(v, w)


def MEMSET(p, c, n):
    n = cint(n)
    c = c if c.__class__ is E else c & 255
    if n == 0:
        return p
    o = p.obj
    off = offset(p, n, "write")
    if o is None or off < 0 or n < 0 or off + n > o.size or not o.alive:
        bad(p, n, "write")
    if c.__class__ is E:
        c = X.extract(c, 0, 8) if c.w > 8 else c
    if off == 0 and n == o.size and c.__class__ is int:
        o.data.clear()
        o.fill = c
        o.raw = None
        return p
    i = off
    while i < off + n:
        if c.__class__ is int and i % 8 == 0 and i + 8 <= off + n:
            STORE(P(o, i), 8, "i64", c * 0x0101010101010101)
            i += 8
        else:
            STORE(P(o, i), 1, "i8", c)
            i += 1
    return p


def MEMCPY(d, s, n):
    n = cint(n)
    if n == 0:
        return d
    do, so = offset(d, n, "write"), offset(s, n, "read")
    for p, off, w in ((d, do, "write"), (s, so, "read")):
        o = p.obj
        if o is None or off < 0 or n < 0 or off + n > o.size or not o.alive:
            bad(p, n, w)
    src, todo, i = s.obj, [], so
    while i < so + n:
        sl = src.data.get(i)
        if sl is not None and i + KSIZE[sl[0]] <= so + n:
            todo.append((i - so, sl[0], sl[1]))
            i += KSIZE[sl[0]]
            continue
        known = src.raw is not None or src.fill is not None or any(
            src.data.get(i - k) is not None and KSIZE[src.data[i - k][0]] > k
            for k in range(16))
        if known:
            todo.append((i - so, "i8", byte_at(src, i)))
        i += 1
    for i, k, v in todo:
        STORE(P(d.obj, do + i), KSIZE[k], k, v)
    return d


def P2I(p):
    if p.__class__ is not P:
        return p
    if p.obj is None:
        return p.off if p.off.__class__ is E else p.off & X.mask(64)
    if p.off.__class__ is E:
        return X.bv("add", 64, p.off, p.obj.base)
    return (p.obj.base + p.off) & X.mask(64)


def I2P(v):
    if v.__class__ is E:
        v = concretize(v)
    if v == 0:
        return NULL
    for o in CTX.objs:
        if o.base <= v <= o.base + o.size:
            return P(o, v - o.base)
    return P(None, v)


def PCMP(pred, a, b):
    if pred in ("eq", "ne"):
        if a.obj is b.obj:
            x, y = a.off, b.off
            if x.__class__ is E or y.__class__ is E:
                r = X.icmp("eq", 64, x if x.__class__ is E else x & X.mask(64),
                           y if y.__class__ is E else y & X.mask(64))
            else:
                r = 1 if x == y else 0
        elif (a.obj is None or b.obj is None) and a.off.__class__ is int \
                and b.off.__class__ is int:
            r = 0
        else:
            r = X.icmp("eq", 64, P2I(a), P2I(b))
        return r if pred == "eq" else X.not_(r)
    return X.icmp(pred, 64, P2I(a), P2I(b))


def GEP(p, c):
    off = p.off
    if off.__class__ is int:
        return P(p.obj, off + c)
    return P(p.obj, X.bv("add", 64, off, c & X.mask(64)))


def GEPD(p, i, scale, n, c):
    off = p.off
    if i.__class__ is int:
        if i >> (n - 1):
            i -= 1 << n
        i = i * scale + c
        if off.__class__ is int:
            return P(p.obj, off + i)
        return P(p.obj, X.bv("add", 64, off, i & X.mask(64)))
    i = X.cast("sext", 64, i, n) if n < 64 else i
    i = X.bv("mul", 64, i, scale)
    i = X.bv("add", 64, i, c & X.mask(64))
    o = off if off.__class__ is E else off & X.mask(64)
    return P(p.obj, X.bv("add", 64, i, o))


def ALLOCA(frame, size, n):
    o = new_obj(size * (n if n.__class__ is int else cint(n)), "stack", "local")
    frame.append(o)
    return P(o, 0)


def ENDFRAME(frame):
    for o in frame:
        o.alive = False


def TICK():
    CTX.ticks += 1
    if CTX.ticks > CTX.opts.get("max_ticks", 300000):
        raise Hang("no termination within the step bound")


def ENT(name):
    FUNCS.add(name)


def UNREACHABLE(f):
    raise Violation("unreachable code reached in %s" % f)


def CALLP(p):
    o = p.obj
    if o is None:
        raise Violation("call through a null pointer")
    if o.fn is None or p.off != 0:
        raise Violation("call through a non-function pointer")
    return o.fn


def FOP(op, w, x, y):
    if op == "fdiv" and y.__class__ is E and X.NF is not None and X.MODE == "real":
        # the ideal arithmetic does not cover divisions by zero
        ASSUME(X.not_(X.fcmp("oeq", y, Fraction(0))))
    return X.fop(op, w, x, y)


def ITE(c, a, b, w):
    if w.__class__ is not int and c.__class__ is E and CTX.opts.get("forksel") and \
       (a.__class__ is E or b.__class__ is E or a != b):
        return a if DECIDE(c) else b
    return X.ite(c, a, b, w)


def ITOF(op, w, a, wa):
    if a.__class__ is E and CTX.opts.get("forksel"):
        if a.op == "ite" and a.a[1].__class__ is not E and a.a[2].__class__ is not E:
            a = a.a[1] if DECIDE(a.a[0]) else a.a[2]
        elif a.op == "zext" and a.a[0].__class__ is E and a.a[0].w == 1:
            a = DECIDE(a.a[0])
    return X.itof(op, w, a, wa)


def FSQRT(x, w):
    if x.__class__ is E and X.NF is not None and X.MODE == "real":
        ASSUME(X.fcmp("oge", x, Fraction(0)))
    return X.fsqrt(x, w)


def _known(c):
    """truth value of a condition if it follows from the path condition"""
    if c.__class__ is not E:
        return c
    k = CTX.known.get(c)
    if k is not None:
        return k
    if c.op == "not":
        k = _known(c.a[0])
        return None if k is None else 1 - k
    if c.op in ("and", "or") and c.w == 1:
        a, b = _known(c.a[0]), _known(c.a[1])
        z = 0 if c.op == "and" else 1
        if a == z or b == z:
            return z
        if a is not None and b is not None:
            return 1 - z
    return None


def FPCLASS(x, mask):
    r = 0
    inf = X.ffabs(x, getattr(x, "w", "d"))
    isn = X.isnan(x)
    isinf = X.fcmp("oeq", inf, math.inf)
    if mask == 3:
        return isn
    if mask == 516:
        return isinf
    if mask == 504:
        return X.not_(X.or_(isn, isinf))
    if mask == 3 | 516:
        return X.or_(isn, isinf)
    if mask == (~(3 | 516)) & 1023:
        return X.not_(X.or_(isn, isinf))
    if mask == (~3) & 1023:
        return X.not_(isn)
    raise Unsupported("fpclass %d" % mask)


def FMINMAX(k, x, y, w):
    # C fmax/fmin: a NaN operand is ignored
    c = X.fcmp("ogt" if k == "max" else "olt", x, y)
    r = X.ite(c, x, y, w)
    r = X.ite(X.isnan(y), x, r, w)
    return X.ite(X.isnan(x), y, r, w)


def COPYSIGN(x, y, w):
    if X.isc(y):
        neg = 1 if math.copysign(1.0, float(y)) < 0 else 0
    elif X.MODE == "real":
        neg = X.fcmp("olt", y, X.fconst(0.0))
    else:
        b = X.f2b(y, w)
        neg = X.icmp("eq", 1, X.extract(b, 63 if w == "d" else 31, 1), 1)
    a = X.ffabs(x, w)
    return X.ite(neg, X.fneg(a, w), a, w)


# ------------------------------------------------------------------ C library
def fresh(kind, w):
    v = mk("var", w, "i%d_%s" % (len(CTX.inputs), kind))
    CTX.inputs.append((kind, v))
    return v


def cstr(p):
    """concrete C string at p (symbolic bytes are concretized)"""
    out = []
    o, off = p.obj, p.off
    while True:
        b = LOAD(P(o, off), 1, "i8")
        b = b if b.__class__ is int else concretize(b)
        if b == 0:
            return bytes(out)
        out.append(b)
        off += 1


def cbytes(p):
    """bytes of the C string at p (symbolic bytes are kept, known to be non-zero)"""
    return [LOAD(GEP(p, i), 1, "i8") for i in range(b_strlen(p))]


def put_str(p, s):
    for i, b in enumerate(s):
        STORE(GEP(p, i), 1, "i8", b)
    STORE(GEP(p, len(s)), 1, "i8", 0)


def cformat(fmt, va):
    out, va = [], list(va)
    for m in re.finditer(rb"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXeEfFgGscp%])|[^%]+", fmt):
        if m.group(5) is None:
            out.append(m.group(0))
            continue
        cv = m.group(5).decode()
        if cv == "%":
            out.append(b"%")
            continue
        fl, wd, pr = m.group(1).decode(), m.group(2), m.group(3)
        wd = str(cint(va.pop(0), 32)) if wd == b"*" else (wd or b"").decode()
        pr = str(cint(va.pop(0), 32)) if pr == b"*" else (pr.decode() if pr is not None else None)
        a = va.pop(0)
        spec = "%" + fl + wd + ("." + pr if pr is not None else "")
        if cv == "s":
            out.append((spec + "s").encode() % cstr(a))
        elif cv == "c":
            out.append(bytes([cint(a, 32) & 255]))
        elif cv == "p":
            out.append(b"0x%x" % P2I(a))
        elif cv in "diouxX":
            w = 64 if m.group(4) in (b"l", b"ll", b"z", b"j", b"t") else 32
            if a.__class__ is E:
                a = concretize(a)
            v = X.sgn(a & X.mask(w), w) if cv in "di" else a & X.mask(w)
            out.append((spec + ("d" if cv in "diu" else cv)) .encode() % v)
        else:
            out.append(b"<?>" if a.__class__ is E else ((spec + cv) % float(a)).encode())
    return b"".join(out)


def b_malloc(n):
    n = n if n.__class__ is int else concretize(n)
    if CTX.fails_left > 0:
        c = fresh("flip", 1)
        if DECIDE(c):
            CTX.fails_left -= 1
            set_errno(12)
            return NULL
    if n > (1 << 40):
        set_errno(12)
        return NULL
    o = new_obj(n, "heap", "malloc")
    CTX.live[o.id] = o
    return P(o, 0)


def b_calloc(a, b):
    n = cint(a) * cint(b)
    p = b_malloc(n if n < (1 << 62) else 1 << 62)
    if p.obj is not None:
        p.obj.fill = 0
    return p


def b_free(p):
    o = p.obj
    if o is None:
        return None
    if o.kind != "heap" or p.off != 0:
        raise Violation("free() of a pointer not returned by malloc()")
    if not o.alive:
        raise Violation("double free()")
    o.alive = False
    del CTX.live[o.id]


def b_realloc(p, n):
    q = b_malloc(n)
    if q.obj is not None and p.obj is not None:
        MEMCPY(q, p, min(p.obj.size, q.obj.size))
        b_free(p)
    return q


def set_errno(v):
    STORE(b_errno(), 4, "i32", v)


def b_errno():
    if CTX.errno is None:
        CTX.errno = P(new_obj(4, "global", "errno", 0), 0)
    return CTX.errno


def b_strlen(p):
    n = 0
    while not DECIDE(X.icmp("eq", 8, LOAD(GEP(p, n), 1, "i8"), 0)):
        n += 1
    return n


def b_strcpy(d, s):
    put_str(d, cbytes(s))
    return d


def b_strncpy(d, s, n):
    n = cint(n)
    v = cbytes(s)[:n]
    for i in range(n):
        STORE(GEP(d, i), 1, "i8", v[i] if i < len(v) else 0)
    return d


def b_strcat(d, s):
    put_str(GEP(d, b_strlen(d)), cbytes(s))
    return d


def b_strcmp(a, b, n=None):
    i = 0
    lim = None if n is None else cint(n)
    while lim is None or i < lim:
        x, y = LOAD(GEP(a, i), 1, "i8"), LOAD(GEP(b, i), 1, "i8")
        if not DECIDE(X.icmp("eq", 8, x, y)):
            lt = DECIDE(X.icmp("ult", 8, x, y))
            return X.mask(32) if lt else 1
        if DECIDE(X.icmp("eq", 8, x, 0)):
            return 0
        i += 1
    return 0


def b_memcmp(a, b, n):
    for i in range(cint(n)):
        x, y = LOAD(GEP(a, i), 1, "i8"), LOAD(GEP(b, i), 1, "i8")
        if not DECIDE(X.icmp("eq", 8, x, y)):
            return X.mask(32) if DECIDE(X.icmp("ult", 8, x, y)) else 1
    return 0


def b_sprintf(d, fmt, *va):
    s = cformat(cstr(fmt), va)
    put_str(d, s)
    return len(s)


def b_snprintf(d, n, fmt, *va):
    s = cformat(cstr(fmt), va)
    n = cint(n)
    if n > 0:
        put_str(d, s[:n - 1])
    return len(s)


def b_fprintf(f, fmt, *va):
    CTX.outputs += 1
    s = cformat(cstr(fmt), va)
    if CTX.opts.get("echo"):
        sys.stderr.write(s.decode("latin1"))
    return len(s)


def b_out(*a):
    CTX.outputs += 1
    return 0


def b_abort():
    raise Violation("abort() called")


def b_exit(c):
    raise Violation("exit() called")


def _m1(name):
    return lambda x: X.ufun(name, "d", x)


def b_fminmax(k, w):
    return lambda x, y: FMINMAX(k, x, y, w)


def _floor(x):
    if x.__class__ is E:
        raise Unsupported("floor")
    return X.fconst(float(math.floor(x))) if abs(x) < 1e300 else x


def vp_pick(lo, hi):
    lo, hi = cint(lo), cint(hi)
    v = fresh("long", 64)
    ASSUME(X.icmp("sge", 64, v, lo & X.mask(64)))
    ASSUME(X.icmp("sle", 64, v, hi & X.mask(64)))
    return concretize(v)


def vp_range(lo, hi):
    v = fresh("long", 64)
    ASSUME(X.icmp("sge", 64, v, lo))
    ASSUME(X.icmp("sle", 64, v, hi))
    return v


def vp_bool():
    return X.cast("zext", 32, fresh("flip", 1), 1)


def vp_flip():
    return DECIDE(fresh("flip", 1))


def vp_check(c, msg):
    m = cstr(msg).decode("latin1")
    CHECK(X.icmp("ne", 32, c, 0), "VP " + m)


def vp_assume(c):
    ASSUME(X.icmp("ne", 32, c, 0))


def vp_same(a, b):
    """both NaN or equal values (sign of zero ignored)"""
    a, b = X._nozero(a), X._nozero(b)
    if X.MODE == "fp" and a.__class__ is E and a is b:
        return 1
    r = X.or_(X.fcmp("oeq", a, b), X.and_(X.isnan(a), X.isnan(b)))
    return X.cast("zext", 32, r, 1)


def vp_check_eq(a, b, msg):
    m = "VP " + cstr(msg).decode("latin1")
    a, b = X._nozero(a), X._nozero(b)
    if a is b:
        CTX.checks += 1
        return
    c = X.or_(X.fcmp("oeq", a, b), X.and_(X.isnan(a), X.isnan(b)))
    if X.MODE == "real" and c.__class__ is E and not replaying():
        robust_check(c, m, X.fop("fsub", "d", a, b), True)
        return
    CHECK(c, m)


def vp_check_le(a, b, msg):
    m = "VP " + cstr(msg).decode("latin1")
    c = X.fcmp("ole", a, b)
    if X.MODE == "real" and c.__class__ is E and not replaying():
        robust_check(c, m, X.fop("fsub", "d", a, b), False)
        return
    CHECK(c, m)


def robust_check(c, msg, diff, both):
    """ideal arithmetic: prefer a counterexample that survives rounding"""
    try:
        CHECK(c, msg)
    except Violation:
        one = Fraction(1, 100)
        big = X.fcmp("ogt", diff, one)
        if both:
            big = X.or_(big, X.fcmp("olt", diff, -one))
        vs = set(X.variables(c))
        for p in CTX.pc:
            vs |= X.variables(p)
        extra = big
        for v in vs:
            if v.w == "d" or v.w == "f":
                extra = X.and_(extra, X.and_(X.fcmp("ole", v, Fraction(100)),
                                             X.fcmp("oge", v, Fraction(-100))))
        if extra.__class__ is E:
            old = QTIMEOUT[0]
            QTIMEOUT[0] = 10000
            try:
                r, mo = solve(extra)
            finally:
                QTIMEOUT[0] = old
            if r == "sat" and mo is not None:
                set_model(mo)
        raise


def vp_reach(msg):
    CTX.reached.add(cstr(msg).decode("latin1"))


def vp_malloc_may_fail(n):
    CTX.fails_left = cint(n, 32)


def vp_live():
    return len(CTX.live) & X.mask(64)


def vp_outputs():
    return CTX.outputs & X.mask(64)


def vp_stop():
    raise PathEnd()


BUILTINS = {
    "malloc": b_malloc, "calloc": b_calloc, "free": b_free, "realloc": b_realloc,
    "__errno_location": lambda: b_errno(),
    "strlen": b_strlen, "strcpy": b_strcpy, "strncpy": b_strncpy,
    "strcat": b_strcat, "strcmp": b_strcmp, "strncmp": b_strcmp,
    "memcmp": b_memcmp, "bcmp": b_memcmp, "memcpy": MEMCPY, "memmove": MEMCPY,
    "memset": lambda p, c, n: MEMSET(p, c, n),
    "sprintf": b_sprintf, "snprintf": b_snprintf, "fprintf": b_fprintf,
    "printf": lambda fmt, *va: b_fprintf(None, fmt, *va),
    "fputs": b_out, "fputc": b_out, "puts": b_out, "putchar": b_out,
    "fwrite": b_out, "fflush": lambda *a: 0, "perror": b_out, "putc": b_out,
    "abort": b_abort, "exit": b_exit, "__assert_fail": lambda *a: b_abort(),
    "sqrt": lambda x: FSQRT(x, "d"), "sqrtf": lambda x: FSQRT(x, "f"),
    "fabs": lambda x: X.ffabs(x, "d"), "fabsf": lambda x: X.ffabs(x, "f"),
    "pow": lambda x, y: X.ufun("pow", "d", x, y),
    "fmax": b_fminmax("max", "d"), "fmin": b_fminmax("min", "d"),
    "fmaxf": b_fminmax("max", "f"), "fminf": b_fminmax("min", "f"),
    "copysign": lambda x, y: COPYSIGN(x, y, "d"),
    "floor": _floor,
    "vp_double": lambda: fresh("double", "d"),
    "vp_float": lambda: fresh("float", "f"),
    "vp_int": lambda: fresh("int", 32), "vp_long": lambda: fresh("long", 64),
    "vp_u8": lambda: fresh("u8", 8),
    "vp_pick": vp_pick, "vp_range": vp_range, "vp_bool": vp_bool,
    "vp_flip": vp_flip, "vp_check": vp_check, "vp_assume": vp_assume,
    "vp_same": vp_same, "vp_check_eq": vp_check_eq, "vp_check_le": vp_check_le,
    "vp_reach": vp_reach, "vp_malloc_may_fail": vp_malloc_may_fail,
    "vp_live": vp_live, "vp_outputs": vp_outputs, "vp_stop": vp_stop,
}
for _n in ("sin", "cos", "tan", "exp", "log", "log10", "acos", "atan"):
    BUILTINS[_n] = _m1(_n)


# ------------------------------------------------------------------- program
class Program:
    def __init__(self, modules, real):
        self.real = real
        self.mods = modules
        self.funcs, self.globs = {}, {}
        for m in modules:
            for n, f in m.funcs.items():
                s = m.sym(n)
                if s in self.funcs:
                    raise llir.ParseError("duplicate symbol " + s)
                self.funcs[s] = (m, f)
            for n, g in m.globals.items():
                s = m.sym(n)
                if g[1] is not None or s not in self.globs:
                    self.globs[s] = (m,) + g
        self.consts = {}
        self.ns = None

    def func_ref(self, s, m):
        return "F[%r]" % s

    def const_expr(self, m, c, t, real):
        k = c.k
        if k == "int":
            return str(c.v)
        if k == "float":
            v = c.v
            if v != v:
                return "NAN"
            if v in (math.inf, -math.inf):
                return "INF" if v > 0 else "NINF"
            if real:
                n = "K%d" % len(self.consts)
                for kk, vv in self.consts.items():
                    if vv == Fraction(v):
                        n = kk
                self.consts[n] = Fraction(v)
                if self.ns is not None:
                    self.ns[n] = Fraction(v)
                return n
            return repr(v) if v >= 0 and math.copysign(1, v) > 0 else "(%r)" % v
        if k == "null":
            return "NULL"
        if k in ("undef", "zero"):
            return {"i": "0", "p": "NULL"}.get(t.kind, "ZERO")
        if k == "global":
            s = m.sym(c.v)
            if s in self.globs:
                return "G[%r]" % s
            return "FP[%r]" % s
        if k == "gep":
            bt, base, idx = c.v
            g = llir.Gen.__new__(llir.Gen)
            g.m, g.prog, g.real = m, self, real
            return g.gep_expr(bt, self.const_expr(m, base, llir.PTR, real), idx)
        if k == "cast":
            op, st, v, dt = c.v
            e = self.const_expr(m, v, st, real)
            return "P2I(%s)" % e if op == "ptrtoint" else "I2P(%s)" % e if op == "inttoptr" else e
        raise llir.ParseError("constant operand " + k)

    def init_global(self, o, m, t, c, off):
        if c is None or c.k in ("zero", "undef"):
            return
        if c.k == "str":
            if off == 0 and o.size == t.size:
                o.raw = c.v
            else:
                for i, b in enumerate(c.v):
                    o.data[off + i] = ("i8", b)
            return
        if c.k == "agg":
            for i, v in enumerate(c.v):
                if t.kind == "array":
                    self.init_global(o, m, t.el, v, off + i * t.el.size)
                else:
                    self.init_global(o, m, t.fields[i], v, off + t.offs[i])
            return
        v = eval(self.const_expr(m, c, t, self.real), self.ns)
        o.data[off] = (t.kk, v)

    def compile(self, s):
        m, f = self.funcs[s]
        g = llir.Gen(m, f, self, self.real)
        src = g.gen()
        code = compile(src, "<%s>" % s, "exec")
        ns = self.ns
        exec(code, ns)
        return ns["FN"]

    def setup(self):
        prog = self

        class FDict(dict):
            def __missing__(d, s):
                if s in prog.funcs:
                    f = prog.compile(s)
                elif s in BUILTINS:
                    f = BUILTINS[s]
                else:
                    def f(*a, s=s):
                        raise Unsupported("external function " + s)
                d[s] = f
                return f

        class FPDict(dict):
            def __missing__(d, s):
                o = Obj()
                o.data, o.size, o.alive, o.kind, o.fill = {}, 0, True, "func", None
                o.name, o.raw, o.id = s, None, -1
                o.base = 0x7f0000000000 + 64 * len(d)
                o.fn = lambda *a: prog.ns["F"][s](*a)
                p = d[s] = P(o, 0)
                return p

        class GDict(dict):
            def __missing__(d, s):
                m, t, init, isc = prog.globs[s]
                if init is None:
                    o = new_obj(max(t.size, 8), "global", s, 0)
                else:
                    o = new_obj(t.size, "global", s, 0)
                    prog.init_global(o, m, t, init, 0)
                    if isc:
                        o.kind = "const"
                p = d[s] = P(o, 0)
                return p
        self.G = GDict()
        self.ns = {
            "F": FDict(), "FP": FPDict(), "G": self.G, "NULL": NULL,
            "INF": math.inf, "NINF": -math.inf, "NAN": math.nan,
            "ZERO": X.fconst(0.0), "BV": X.bv, "FOP": FOP, "FNEG": X.fneg,
            "ICMP": X.icmp, "FCMP": X.fcmp, "PCMP": PCMP, "ITE": ITE,
            "DECIDE": DECIDE, "CAST": X.cast, "ITOF": ITOF, "FTOI": X.ftoi,
            "FEXT": X.fext, "F2B": X.f2b, "B2F": X.b2f, "P2I": P2I, "I2P": I2P,
            "ALLOCA": ALLOCA, "LOAD": LOAD, "STORE": STORE, "GEP": GEP,
            "GEPD": GEPD, "SWITCH": SWITCH, "ENDFRAME": ENDFRAME,
            "UNREACHABLE": UNREACHABLE, "CALLP": CALLP, "FABS": X.ffabs,
            "FSQRT": FSQRT, "MEMCPY": MEMCPY, "MEMSET": MEMSET,
            "FPCLASS": FPCLASS, "FMINMAX": FMINMAX, "COPYSIGN": COPYSIGN,
            "TICK": TICK, "ENT": ENT, "ABORT": lambda m: b_abort(),
        }
        self.ns.update(self.consts)


def run_path(prog, prefix, model, opts, unsure=False):
    """-> (ctx, outcome) with outcome None | ('violation', msg) |
    ('unsupported', msg) | ('infeasible',)"""
    global CTX
    CTX = Ctx(prefix, model, opts)
    CTX.unsure = unsure
    prog.G.clear()
    out = None
    try:
        prog.ns["F"]["main"]()
    except PathEnd:
        out = ("end",)
    except Violation as v:
        out = ("violation", str(v))
        if replaying():
            # cannot happen: the prefix ran without violation before
            out = ("unsupported", "non-deterministic replay: " + str(v))
    except UndefinedBehaviour as v:
        out = ("violation", str(v))
    except RealDomain as v:
        out = ("domain", str(v))
    except Unsupported as v:
        out = ("unsupported", str(v))
    except RecursionError:
        out = ("violation", "unbounded recursion")
    return CTX, out
