"""Hash-consed symbolic expressions, their concrete evaluation and their
translation to Z3.

Sorts: an integer n (bit-vector of n bits, n == 1 being a truth value), 'd'
(double) and 'f' (float).  Concrete values are Python ints (unsigned, modulo
2**n) and, for floating point, Python floats ('fp' mode, IEEE-754 exact) or
Fractions ('real' mode, ideal arithmetic; infinities stay floats).
"""
import math, struct
from fractions import Fraction
import z3

MODE = "fp"          # "fp" | "real"
NF = None            # module nf when the normal form is in use (real mode)
KNOWN = [None]       # function telling whether a condition is known to hold


class Unsupported(Exception):
    pass


class E:
    __slots__ = ("op", "w", "a", "id", "_vars", "z", "depth")


_tab = {}
_next = [0]
INF = float("inf")


def fbits(x):
    return struct.pack("<d", x)


UNDEF = E()         # result of a division by zero in ideal arithmetic
UNDEF.op, UNDEF.w, UNDEF.a, UNDEF.id, UNDEF._vars, UNDEF.z, UNDEF.depth = "undef", "d", (), -1, frozenset(), None, 0

def mk(op, w, *a):
    key = (op, w) + tuple([(x if x.__class__ is not float else fbits(x)) for x in a])
    e = _tab.get(key)
    if e is None:
        if UNDEF in a:
            raise RealDomain("division by zero")
        e = E()
        e.op, e.w, e.a = op, w, a
        e.id = _next[0]
        _next[0] += 1
        e._vars = None
        e.z = None
        _tab[key] = e
    return e


def reset():
    _tab.clear()
    _ordtab.clear()
    _eqcache.clear()
    if NF is not None:
        NF.reset()


def variables(e):
    v = e._vars
    if v is None:
        # iterative, to be safe with deep terms
        stack = [e]
        while stack:
            t = stack[-1]
            if t._vars is not None:
                stack.pop()
                continue
            if t.op == "var":
                t._vars = frozenset([t])
                stack.pop()
                continue
            todo = [x for x in t.a if x.__class__ is E and x._vars is None]
            if todo:
                stack.extend(todo)
                continue
            s = frozenset()
            for x in t.a:
                if x.__class__ is E:
                    s = s | x._vars if s else x._vars
            t._vars = s
            stack.pop()
        v = e._vars
    return v


def f32(x):
    if x != x or x in (INF, -INF):
        return x
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(INF, x)


def isc(x):
    return x.__class__ is not E


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


# --------------------------------------------------------------- booleans
def not_(c):
    if c.__class__ is not E:
        return 1 - c
    if c.op == "not":
        return c.a[0]
    return mk("not", 1, c)


def and_(a, b):
    if isc(a):
        return b if a else 0
    if isc(b):
        return a if b else 0
    if a is b:
        return a
    return mk("and", 1, *((a, b) if a.id < b.id else (b, a)))


def or_(a, b):
    if isc(a):
        return 1 if a else b
    if isc(b):
        return 1 if b else a
    if a is b:
        return a
    return mk("or", 1, *((a, b) if a.id < b.id else (b, a)))


def ite(c, a, b, w):
    if isc(c):
        return a if c else b
    if a is b:
        return a
    if isc(a) and isc(b):
        if a.__class__ is float and b.__class__ is float:
            if fbits(a) == fbits(b):
                return a
        elif a.__class__ is b.__class__ and a == b:
            return a
        if w == 1:
            return c if a else not_(c)
    if w == 1:
        return or_(and_(c, a), and_(not_(c), b))
    return mk("ite", w, c, a, b)


# ------------------------------------------------------------ bit-vectors
def _trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class UndefinedBehaviour(Exception):
    pass


def bv(op, w, a, b):
    if isc(a) and isc(b):
        m = mask(w)
        if op == "add":
            return (a + b) & m
        if op == "sub":
            return (a - b) & m
        if op == "mul":
            return (a * b) & m
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & m if b < w else 0
        if op == "lshr":
            return a >> b if b < w else 0
        if op == "ashr":
            return (sgn(a, w) >> min(b, w - 1)) & m
        if b == 0:
            raise UndefinedBehaviour("integer division by zero")
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        if op == "sdiv":
            return _trunc_div(sgn(a, w), sgn(b, w)) & m
        if op == "srem":
            x, y = sgn(a, w), sgn(b, w)
            return (x - y * _trunc_div(x, y)) & m
        raise Unsupported(op)
    if w == 1:
        if op == "and":
            return and_(a, b)
        if op == "or":
            return or_(a, b)
        if op == "xor" or op == "add" or op == "sub":
            if isc(a):
                a, b = b, a
            if isc(b):
                return not_(a) if b else a
            return mk("xorb", 1, a, b)
    if op in ("and", "or"):
        # truth values extended to integers
        x = a if isc(a) else a.a[0] if a.op == "zext" and a.a[0].w == 1 else None
        y = b if isc(b) else b.a[0] if b.op == "zext" and b.a[0].w == 1 else None
        if x is not None and y is not None and (isc(x) <= (x in (0, 1) if isc(x) else 1)) \
           and (isc(y) <= (y in (0, 1) if isc(y) else 1)):
            return cast("zext", w, and_(x, y) if op == "and" else or_(x, y), 1)
    if isc(b):
        if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
            return a
        if b == 0 and op in ("mul", "and"):
            return 0
        if b == 1 and op in ("mul", "udiv", "sdiv"):
            return a
    elif isc(a):
        if a == 0 and op in ("add", "or", "xor"):
            return b
        if a == 0 and op in ("mul", "and"):
            return 0
        if a == 1 and op == "mul":
            return b
    return mk(op, w, a, b)


def icmp(pred, w, a, b):
    if isc(a) and isc(b):
        if pred == "eq":
            return 1 if a == b else 0
        if pred == "ne":
            return 1 if a != b else 0
        if pred[0] == "s":
            a, b = sgn(a, w), sgn(b, w)
        p = pred[1:]
        return 1 if (a < b if p == "lt" else a <= b if p == "le" else
                     a > b if p == "gt" else a >= b) else 0
    if pred == "ne":
        return not_(icmp("eq", w, a, b))
    if pred == "eq":
        if a is b:
            return 1
        if isc(a):
            a, b = b, a
        if w == 1:
            if isc(b):
                return a if b else not_(a)
            return not_(mk("xorb", 1, a, b))
        if isc(b):
            if a.op == "zext" and a.a[0].w == 1:
                return a.a[0] if b == 1 else not_(a.a[0]) if b == 0 else 0
            if a.op == "ite" and isc(a.a[1]) and isc(a.a[2]):
                c, x, y = a.a
                if b == x:
                    return c if b != y else 1
                return not_(c) if b == y else 0
            if a.op == "zext":
                v = a.a[0]
                return icmp("eq", v.w, v, b) if b <= mask(v.w) else 0
            if a.op == "sext":
                v = a.a[0]
                bb = b & mask(v.w)
                return (icmp("eq", v.w, v, bb)
                        if (sgn(bb, v.w) & mask(w)) == b else 0)
        return mk("eq", 1, a, b) if (isc(b) or a.id < b.id) else mk("eq", 1, b, a)
    if a is b:
        return 1 if pred in ("ule", "uge", "sle", "sge") else 0
    if pred in ("ugt", "uge", "sgt", "sge"):
        return icmp({"ugt": "ult", "uge": "ule", "sgt": "slt",
                     "sge": "sle"}[pred], w, b, a)
    # now ult, ule, slt, sle;   le(a,b) = not lt(b,a)
    if pred in ("ule", "sle"):
        return not_(icmp(pred[0] + "lt", w, b, a))
    if pred == "slt":
        # sign tests of extended values and range folding
        for x, y, flip in ((a, b, 0), (b, a, 1)):
            if not isc(x) and isc(y) and x.op == "sext":
                v = x.a[0]
                lo, hi = -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1
                c = sgn(y, w)
                if lo <= c <= hi:
                    cc = c & mask(v.w)
                    return icmp("slt", v.w, *((v, cc) if not flip else (cc, v)))
                return (1 if c > hi else 0) if not flip else (1 if c < lo else 0)
        if not isc(a) and not isc(b) and a.op == "sext" and b.op == "sext" \
           and a.a[0].w == b.a[0].w:
            return icmp("slt", a.a[0].w, a.a[0], b.a[0])
    return mk(pred, 1, a, b)


def cast(op, w, a, wa):
    if isc(a):
        if op == "zext" or op == "trunc":
            return a & mask(w)
        return sgn(a, wa) & mask(w)
    if op == "trunc":
        if a.op in ("zext", "sext"):
            v = a.a[0]
            if v.w == w:
                return v
            if v.w < w:
                return cast(a.op, w, v, v.w)
        if w == 1:
            return icmp("eq", wa, bv("and", wa, a, 1), 1)
        return mk("extract", w, a, 0)
    if a.op == "zext" and op == "zext":
        return cast("zext", w, a.a[0], a.a[0].w)
    if a.op == "zext" and op == "sext" and a.a[0].w < wa:
        return cast("zext", w, a.a[0], a.a[0].w)
    if a.op == "sext" and op == "sext":
        return cast("sext", w, a.a[0], a.a[0].w)
    return mk(op, w, a)


def extract(a, lo, w):
    """Bits lo..lo+w-1 of a bit-vector."""
    if isc(a):
        return (a >> lo) & mask(w)
    if lo == 0 and w == a.w:
        return a
    return mk("extract", w, a, lo)


def concat(parts):
    """[(value, width)...] least significant first."""
    w = sum(p[1] for p in parts)
    if all(isc(p[0]) for p in parts):
        v = s = 0
        for x, n in parts:
            v |= x << s
            s += n
        return v
    r, rw = parts[0]
    for x, n in parts[1:]:
        r = bv("or", rw + n, cast("zext", rw + n, r, rw),
               bv("shl", rw + n, cast("zext", rw + n, x, n), rw))
        rw += n
    return r


# --------------------------------------------------------- floating point
def fconst(x):
    """Python float -> value of the current mode."""
    if MODE == "real" and x == x and x not in (INF, -INF):
        return Fraction(x)
    return x


def _isf(x):
    return x.__class__ is not E


def _fdiv(x, y):
    try:
        return x / y
    except ZeroDivisionError:
        if x != x or x == 0:
            return math.nan
        return math.copysign(INF, x) * math.copysign(1.0, y)


def _inf(x):
    return x.__class__ is float


class RealDomain(Exception):
    """Operation outside the ideal arithmetic (e.g. division by zero)."""


def _rop(op, x, y):
    # real mode, both concrete; infinities allowed where they make sense
    if _inf(x) or _inf(y):
        try:
            x, y = float(x), float(y)
            r = (x + y if op == "fadd" else x - y if op == "fsub" else
                 x * y if op == "fmul" else _fdiv(x, y))
        except OverflowError:
            raise RealDomain(op)
        return fconst(r)
    if op == "fadd":
        return x + y
    if op == "fsub":
        return x - y
    if op == "fmul":
        return x * y
    if y == 0:
        if x == 0:
            return math.nan
        return INF if x > 0 else -INF
    return x / y


def fop(op, w, x, y):
    cx, cy = x.__class__ is not E, y.__class__ is not E
    if MODE == "real":
        if cx and cy:
            return _rop(op, x, y)
        if (cx and _inf(x)) or (cy and _inf(y)):
            v, o = (x, y) if (cx and _inf(x)) else (y, x)
            if v != v:
                return v
            if op == "fadd":
                return v
            if op == "fsub":
                return v if v is x else -v
            if op == "fdiv" and v is y:
                return Fraction(0)
            raise RealDomain("%s with infinity" % op)
        if op == "fadd":
            if cx and x == 0:
                return y
            if cy and y == 0:
                return x
        elif op == "fsub":
            if cy and y == 0:
                return x
            if cx and x == 0:
                return fneg(y, w)
            if x is y:
                return Fraction(0)
        elif op == "fmul":
            if (cx and x == 0) or (cy and y == 0):
                return Fraction(0)
            if cx and x == 1:
                return y
            if cy and y == 1:
                return x
            if cx and x == -1:
                return fneg(y, w)
            if cy and y == -1:
                return fneg(x, w)
        elif op == "fdiv":
            if cy:
                if y == 0:
                    return UNDEF    # maybe speculated: fails when used
                if y == 1:
                    return x
                return fop("fmul", w, x, 1 / y)
            if cx and x == 0:
                return Fraction(0)
            if x is y:
                return Fraction(1)
    else:
        if cx and cy:
            try:
                r = (x + y if op == "fadd" else x - y if op == "fsub" else
                     x * y if op == "fmul" else _fdiv(x, y))
            except OverflowError:
                r = INF
            return f32(r) if w == "f" else r
        if op == "fdiv" and cy and math.isfinite(y) and abs(math.frexp(y)[0]) == 0.5 \
           and 1e-30 < abs(y) < 1e30:
            op, y = "fmul", 1 / y       # exact
        if op == "fmul":
            if cx and x == 1.0:
                return y
            if cy and y == 1.0:
                return x
            if cx and x == -1.0:
                return fneg(y, w)
            if cy and y == -1.0:
                return fneg(x, w)
        elif op == "fsub":
            if cy and y == 0 and math.copysign(1, y) > 0:
                return x
            if cy and y == y:
                op, y = "fadd", -y      # the same operation
        elif op == "fadd":
            if cy and y == 0 and math.copysign(1, y) < 0:
                return x
            if cx and x == 0 and math.copysign(1, x) < 0:
                return y
        elif op == "fdiv":
            if cy and y == 1.0:
                return x
    if op in ("fadd", "fmul"):
        if cy or (not cx and y.id < x.id):
            x, y = y, x
    return mk(op, w, x, y)


def fneg(x, w):
    if isc(x):
        return -x
    if x.op == "fneg":
        return x.a[0]
    if MODE == "real" and x.op == "fsub":
        return fop("fsub", w, x.a[1], x.a[0])
    return mk("fneg", w, x)


def ffabs(x, w):
    if isc(x):
        return abs(x)
    if x.op == "fneg":
        x = x.a[0]
    if x.op == "fabs":
        return x
    if NF is not None and MODE == "real" and KNOWN[0] is not None:
        k = KNOWN[0](_flt(x, Fraction(0)))
        if k is not None:
            return fneg(x, w) if k else x
        k = KNOWN[0](_flt(Fraction(0), x))
        if k is not None:
            return x if k else fneg(x, w)
    return mk("fabs", w, x)


def fsqrt(x, w):
    if isc(x):
        if MODE == "real":
            if _inf(x):
                return x
            if x < 0:
                return math.nan
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
            return mk("fsqrt", w, x)
        if x != x or x < 0:
            return math.nan
        return f32(math.sqrt(x)) if w == "f" else math.sqrt(x)
    return mk("fsqrt", w, x)


def fext(x, w):
    """fpext / fptrunc to sort w."""
    if MODE == "real":
        return x if (isc(x) or x.w == w) else mk("fcast", w, x)
    if isc(x):
        return f32(x) if w == "f" else x
    if x.w == w:
        return x
    if x.op == "fcast" and w == "f" and x.a[0].w == "f":
        return x.a[0]      # (float)(double)float
    return mk("fcast", w, x)


def itof(op, w, a, wa):
    if isc(a):
        v = sgn(a, wa) if op == "sitofp" else a
        if MODE == "real":
            return Fraction(v)
        return f32(float(v)) if w == "f" else float(v)
    return mk(op, w, a)


def ftoi(op, w, x):
    if isc(x):
        if x != x or x in (INF, -INF):
            return 1 << (w - 1)
        v = int(x)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == "fptosi" else (0, mask(w))
        if v < lo or v > hi:
            return 1 << (w - 1)
        return v & mask(w)
    return mk(op, w, x)


_eqcache = {}


def _feq(x, y):
    if isc(x) and isc(y):
        return 1 if x == y else 0
    if MODE == "real":
        if x is y:
            return 1
        if isc(x) and _inf(x) or isc(y) and _inf(y):
            return 0
        if NF is not None:
            r = NF.compare(x, y, "eq")
            if r is not None:
                return r
    return raw_feq(x, y)


def raw_feq(x, y):
    if isc(x):
        x, y = y, x
    if not isc(y) and y.id < x.id:
        x, y = y, x
    return mk("feq", 1, x, y)


def _flt(x, y):
    if isc(x) and isc(y):
        return 1 if x < y else 0
    if x is y:
        return 0
    for v in (x, y):
        if isc(v) and v != v:
            return 0
    if MODE == "real":
        if isc(x) and _inf(x):
            return 1 if x < 0 else 0
        if isc(y) and _inf(y):
            return 1 if y > 0 else 0
        if NF is not None:
            r = NF.compare(x, y, "lt")
            if r is not None:
                return r
    else:
        if isc(x) and x == INF or isc(y) and y == -INF:
            return 0
    return mk("flt", 1, x, y)


def _fle(x, y):
    if isc(x) and isc(y):
        return 1 if x <= y else 0
    for v in (x, y):
        if isc(v) and v != v:
            return 0
    if MODE == "real":
        if x is y:
            return 1
        return not_(_flt(y, x))
    return mk("fle", 1, x, y)


def isnan(x):
    if isc(x):
        return 1 if x != x else 0
    if MODE == "real":
        return 0
    if x.op in ("sitofp", "uitofp"):
        return 0
    if x.op in ("fneg", "fabs", "fcast"):
        return isnan(x.a[0])
    return mk("isnan", 1, x)


def _nozero(x):
    # x + 0 compares like x
    while x.__class__ is E and x.op == "fadd" and x.a[1].__class__ is not E and x.a[1] == 0:
        x = x.a[0]
    return x


def fcmp(pred, x, y):
    x, y = _nozero(x), _nozero(y)
    if pred == "oeq":
        return _feq(x, y)
    if pred == "une":
        return not_(_feq(x, y))
    if pred == "olt":
        return _flt(x, y)
    if pred == "ogt":
        return _flt(y, x)
    if pred == "ole":
        return _fle(x, y)
    if pred == "oge":
        return _fle(y, x)
    if pred == "ult":
        return not_(_fle(y, x))
    if pred == "ugt":
        return not_(_fle(x, y))
    if pred == "ule":
        return not_(_flt(y, x))
    if pred == "uge":
        return not_(_flt(x, y))
    if pred == "uno":
        return or_(isnan(x), isnan(y))
    if pred == "ord":
        return not_(or_(isnan(x), isnan(y)))
    if pred == "one":
        return or_(_flt(x, y), _flt(y, x))
    if pred == "ueq":
        return not_(or_(_flt(x, y), _flt(y, x)))
    if pred == "true":
        return 1
    if pred == "false":
        return 0
    raise Unsupported("fcmp " + pred)


def f2b(x, w):
    """bit pattern of a floating-point value."""
    if isc(x):
        if MODE == "real":
            x = float(x)
        return struct.unpack("<Q" if w == "d" else "<I",
                             struct.pack("<d" if w == "d" else "<f", x))[0]
    if x.op == "b2f":
        return x.a[0]
    return mk("f2b", 64 if w == "d" else 32, x)


def b2f(x, w):
    if isc(x):
        return fconst(struct.unpack("<d" if w == "d" else "<f",
                                    struct.pack("<Q" if w == "d" else "<I", x))[0])
    if x.op == "f2b":
        return x.a[0]
    return mk("b2f", w, x)


UFN = {"pow": math.pow, "sin": math.sin, "cos": math.cos, "exp": math.exp,
       "log": math.log, "acos": math.acos, "atan": math.atan,
       "atan2": math.atan2, "tan": math.tan, "log10": math.log10}


def ufun(name, w, *args):
    if all(isc(x) for x in args):
        try:
            r = UFN[name](*[float(x) for x in args])
        except (ValueError, ZeroDivisionError):
            r = math.nan
        except OverflowError:
            r = INF
        return fconst(f32(r) if w == "f" else r)
    return mk("uf:" + name, w, *args)


# ------------------------------------------------------------- evaluation
class NoValue(Exception):
    pass


def evaluate(e, model, memo):
    """Concrete value of e under model (dict var -> value); memo: dict."""
    if e.__class__ is not E:
        return e
    r = memo.get(e)
    if r is not None:
        return r
    stack = [e]
    while stack:
        t = stack[-1]
        if t in memo:
            stack.pop()
            continue
        if t.op == "var":
            v = model.get(t)
            if v is None:
                v = 0 if t.w.__class__ is int else fconst(0.0)
            memo[t] = v
            stack.pop()
            continue
        todo = [x for x in t.a if x.__class__ is E and x not in memo]
        if todo:
            stack.extend(todo)
            continue
        a = [memo[x] if x.__class__ is E else x for x in t.a]
        if MODE == "real" and t.op in ("flt", "feq"):
            _far(a, memo)
        v = _apply(t, a)
        if v.__class__ is E:
            if t.op == "fsqrt" and MODE == "real":
                v = _approx_sqrt(a[0])
                memo["approx"] = True
            else:
                raise NoValue()
        memo[t] = v
        stack.pop()
    return memo[e]


APPROX = Fraction(1, 10**40)


def _far(a, memo):
    """comparison of values some of which are approximate"""
    if memo.get("approx") and not _inf(a[0]) and not _inf(a[1]) and \
       abs(a[0] - a[1]) <= APPROX * max(1, abs(a[0]), abs(a[1])):
        raise NoValue()


def _approx_sqrt(x):
    n, d = x.numerator, x.denominator
    k = 400 + 2 * max(0, d.bit_length() - n.bit_length())
    return Fraction(math.isqrt(((n << k) // d)), 1 << (k // 2))


def _apply(t, a):
    op, w = t.op, t.w
    if op == "not":
        return 1 - a[0]
    if op == "and" and w == 1:
        return a[0] & a[1]
    if op == "or" and w == 1:
        return a[0] | a[1]
    if op == "xorb":
        return a[0] ^ a[1]
    if op == "ite":
        return a[1] if a[0] else a[2]
    if op in ("eq", "ult", "slt"):
        x = t.a[0] if t.a[0].__class__ is E else t.a[1]
        return icmp(op, x.w, a[0], a[1])
    if op in ("zext", "sext"):
        return cast(op, w, a[0], t.a[0].w)
    if op == "extract":
        return extract(a[0], a[1], w)
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        try:
            return fop(op, w, a[0], a[1])
        except RealDomain:
            raise NoValue()
    if op == "fneg":
        return -a[0]
    if op == "fabs":
        return abs(a[0])
    if op == "fsqrt":
        return fsqrt(a[0], w)
    if op == "fcast":
        return fext(a[0], w)
    if op in ("sitofp", "uitofp"):
        return itof(op, w, a[0], t.a[0].w)
    if op in ("fptosi", "fptoui"):
        return ftoi(op, w, a[0])
    if op == "feq":
        return 1 if a[0] == a[1] else 0
    if op == "flt":
        return 1 if a[0] < a[1] else 0
    if op == "fle":
        return 1 if a[0] <= a[1] else 0
    if op == "isnan":
        return 1 if a[0] != a[0] else 0
    if op == "f2b":
        return f2b(a[0], t.a[0].w)
    if op == "b2f":
        return b2f(a[0], w)
    if op.startswith("uf:"):
        raise NoValue()
    return bv(op, w, a[0], a[1])


# --------------------------------------------------------------------- Z3
_RM = None
_SORT = {}


def z3_init():
    global _RM
    _RM = z3.RNE()
    _SORT["d"] = z3.Float64()
    _SORT["f"] = z3.Float32()


def zconst(x, w):
    if w == 1:
        return z3.BoolVal(bool(x))
    if w.__class__ is int:
        return z3.BitVecVal(x, w)
    if MODE == "real":
        if _inf(x):
            raise Unsupported("infinity in a real term")
        return z3.RealVal(str(x.numerator)) / z3.RealVal(str(x.denominator)) \
            if x.denominator != 1 else z3.RealVal(str(x.numerator))
    return z3.FPVal(x, _SORT[w])


_side = []     # side conditions (real mode) of the terms translated so far


def to_z3(e, side):
    """Z3 term of e; `side` (dict) receives the side conditions needed."""
    if e.__class__ is not E:
        raise ValueError
    if e.z is not None:
        if e.z[1]:
            side.update(e.z[1])
        return e.z[0]
    stack = [e]
    while stack:
        t = stack[-1]
        if t.z is not None:
            stack.pop()
            continue
        todo = [x for x in t.a if x.__class__ is E and x.z is None]
        if todo:
            stack.extend(todo)
            continue
        sd = {}
        for x in t.a:
            if x.__class__ is E and x.z[1]:
                sd.update(x.z[1])
        t.z = (_tr(t, sd), sd)
        stack.pop()
    side.update(e.z[1])
    return e.z[0]


def _tr(t, sd):
    op, w = t.op, t.w

    def arg(i, ws):
        x = t.a[i]
        return x.z[0] if x.__class__ is E else zconst(x, ws)

    if op == "var":
        name = t.a[0]
        if w == 1:
            return z3.Bool(name)
        if w.__class__ is int:
            return z3.BitVec(name, w)
        return z3.Real(name) if MODE == "real" else z3.FP(name, _SORT[w])
    if op == "not":
        return z3.Not(arg(0, 1))
    if op == "and" and w == 1:
        return z3.And(arg(0, 1), arg(1, 1))
    if op == "or" and w == 1:
        return z3.Or(arg(0, 1), arg(1, 1))
    if op == "xorb":
        return z3.Xor(arg(0, 1), arg(1, 1))
    if op == "ite":
        return z3.If(arg(0, 1), arg(1, w), arg(2, w))
    if op in ("eq", "ult", "slt", "feq", "flt", "fle"):
        x = t.a[0] if t.a[0].__class__ is E else t.a[1]
        a, b = arg(0, x.w), arg(1, x.w)
        if op == "eq":
            return a == b
        if op == "ult":
            return z3.ULT(a, b)
        if op == "slt":
            return a < b
        if MODE == "real":
            return a == b if op == "feq" else a < b
        return z3.fpEQ(a, b) if op == "feq" else \
            z3.fpLT(a, b) if op == "flt" else z3.fpLEQ(a, b)
    if op == "isnan":
        return z3.fpIsNaN(arg(0, None))
    if op == "zext" or op == "sext":
        x = t.a[0]
        if x.w == 1:
            return z3.If(x.z[0], z3.BitVecVal(1 if op == "zext" else mask(w), w),
                         z3.BitVecVal(0, w))
        return (z3.ZeroExt if op == "zext" else z3.SignExt)(w - x.w, x.z[0])
    if op == "extract":
        lo = t.a[1]
        return z3.Extract(lo + w - 1, lo, t.a[0].z[0])
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        a, b = arg(0, w), arg(1, w)
        if MODE == "real":
            if op == "fadd":
                return a + b
            if op == "fsub":
                return a - b
            if op == "fmul":
                return a * b
            # q = a/b  <=>  q*b = a with b != 0
            q = z3.Real("quot!%d" % t.id)
            sd["q%d" % t.id] = z3.And(b != 0, q * b == a)
            return q
        f = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul,
             "fdiv": z3.fpDiv}[op]
        return f(_RM, a, b)
    if op == "fneg":
        return -arg(0, w) if MODE == "real" else z3.fpNeg(arg(0, w))
    if op == "fabs":
        a = arg(0, w)
        return z3.If(a < 0, -a, a) if MODE == "real" else z3.fpAbs(a)
    if op == "fsqrt":
        a = arg(0, w)
        if MODE == "real":
            s = z3.Real("sqrt!%d" % t.id)
            sd["s%d" % t.id] = z3.And(s >= 0, s * s == a)
            return s
        return z3.fpSqrt(_RM, a)
    if op == "fcast":
        if MODE == "real":
            return arg(0, w)
        return z3.fpToFP(_RM, arg(0, None), _SORT[w])
    if op in ("sitofp", "uitofp"):
        a = arg(0, None)
        if MODE == "real":
            return z3.ToReal(z3.BV2Int(a, op == "sitofp"))
        return (z3.fpSignedToFP if op == "sitofp" else z3.fpUnsignedToFP)(
            _RM, a, _SORT[w])
    if op in ("fptosi", "fptoui"):
        if MODE == "real":
            raise Unsupported(op)
        return (z3.fpToSBV if op == "fptosi" else z3.fpToUBV)(
            z3.RTZ(), arg(0, None), z3.BitVecSort(w))
    if op == "f2b":
        if MODE == "real":
            raise Unsupported(op)
        return z3.fpToIEEEBV(arg(0, None))
    if op == "b2f":
        if MODE == "real":
            raise Unsupported(op)
        return z3.fpBVToFP(arg(0, None), _SORT[w])
    if op.startswith("uf:"):
        s = z3.RealSort() if MODE == "real" else _SORT[w]
        f = z3.Function(op[3:], *([s] * (len(t.a) + 1)))
        return f(*[arg(i, w) for i in range(len(t.a))])
    a, b = arg(0, w), arg(1, w)
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op == "udiv":
        return z3.UDiv(a, b)
    if op == "sdiv":
        return a / b
    if op == "urem":
        return z3.URem(a, b)
    if op == "srem":
        return z3.SRem(a, b)
    if op == "and":
        return a & b
    if op == "or":
        return a | b
    if op == "xor":
        return a ^ b
    if op == "shl":
        return a << b
    if op == "lshr":
        return z3.LShR(a, b)
    if op == "ashr":
        return a >> b
    raise Unsupported("to_z3 " + op)


# ------------------------------------------- order abstraction (fp mode)
# Comparisons, negation, absolute value and widening of floating-point values
# only depend on their order: such terms are translated to (real, is-NaN)
# pairs.  "unsat" is conclusive; a model is checked by exact evaluation before
# being used, otherwise the bit-precise translation decides.
ORD_INF = None
_FLOPS = {"fneg", "fabs", "fcast", "ite", "var"}


class NotOrd(Exception):
    pass


_ordtab = {}


def to_ord(e, side):
    """Z3 term (integers, booleans) or (real, nan) pair of e."""
    r = _ordtab.get(e)
    if r is None:
        stack = [e]
        while stack:
            t = stack[-1]
            if t in _ordtab:
                stack.pop()
                continue
            todo = [x for x in t.a if x.__class__ is E and x not in _ordtab]
            if todo:
                stack.extend(todo)
                continue
            try:
                _ordtab[t] = _tr_ord(t)
            except NotOrd:
                _ordtab[t] = False
            stack.pop()
        r = _ordtab[e]
    if r is False:
        raise NotOrd()
    for v in variables(e):
        if v.w.__class__ is not int and v not in side:
            x = _ordtab[v][0]
            side[v] = z3.And(x >= -ORD_INF, x <= ORD_INF)
    return r


def _ord_const(x):
    if x != x:
        return (z3.RealVal(0), z3.BoolVal(True))
    if x == INF:
        return (ORD_INF, z3.BoolVal(False))
    if x == -INF:
        return (-ORD_INF, z3.BoolVal(False))
    n, d = float(x).as_integer_ratio()
    return (z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n), z3.BoolVal(False))


def _tr_ord(t):
    global ORD_INF
    if ORD_INF is None:
        ORD_INF = z3.RealVal(10**400)
    op, w = t.op, t.w
    for x in t.a:
        if x.__class__ is E and _ordtab[x] is False:
            raise NotOrd()

    def arg(i, ws):
        x = t.a[i]
        if x.__class__ is E:
            return _ordtab[x]
        return _ord_const(x) if ws.__class__ is not int else zconst(x, ws)

    if op == "var" and w.__class__ is not int:
        return (z3.Real("o!" + t.a[0]), z3.Bool("n!" + t.a[0]))
    if op in ("feq", "flt", "fle"):
        (a, na), (b, nb) = arg(0, "d"), arg(1, "d")
        c = a == b if op == "feq" else a < b if op == "flt" else a <= b
        return z3.And(z3.Not(na), z3.Not(nb), c)
    if op == "isnan":
        return arg(0, "d")[1]
    if op == "fneg":
        a, n = arg(0, w)
        return (-a, n)
    if op == "fabs":
        a, n = arg(0, w)
        return (z3.If(a < 0, -a, a), n)
    if op == "fcast":
        if w != "d":
            raise NotOrd()
        return arg(0, w)
    if op == "ite" and w.__class__ is not int:
        c = arg(0, 1)
        (a, na), (b, nb) = arg(1, w), arg(2, w)
        return (z3.If(c, a, b), z3.If(c, na, nb))
    if w.__class__ is not int or any(
            x.__class__ is E and x.w.__class__ is not int for x in t.a):
        raise NotOrd()
    # integers and booleans: same translation, over the translated arguments
    old = [(x, x.z) for x in t.a if x.__class__ is E]
    try:
        for x, _ in old:
            x.z = (_ordtab[x], {})
        return _tr(t, {})
    finally:
        for x, z in old:
            x.z = z


def show(e, depth=4):
    if e.__class__ is not E:
        return str(float(e)) if e.__class__ is Fraction else str(e)
    if e.op == "var":
        return e.a[0]
    if depth == 0:
        return "..."
    return "(%s %s)" % (e.op, " ".join(show(x, depth - 1) for x in e.a))
