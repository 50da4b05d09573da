"""Normal form of ideal arithmetic: terms as products of powers of polynomials.

A term is  c * prod_i P_i**e_i  with c a rational number, the P_i primitive
multivariate polynomials with integer coefficients and the e_i integers.  The
indeterminates ("atoms") are the variables, the absolute values and the square
roots of polynomials and opaque terms.  A comparison of two terms becomes a
boolean combination of the signs of the polynomials of their difference, so
that equal conditions, however they are computed, are the same expression and
no quotient reaches the solver.
"""
import hashlib
from fractions import Fraction
from math import gcd, isqrt

LIMIT = 250          # largest number of terms of a polynomial


class TooBig(Exception):
    pass


class State:
    def __init__(self):
        self.atoms = {}      # name -> (kind, E or poly)
        self.names = {}      # E -> name
        self.memo = {}       # E -> term or None
        self.polyE = {}      # poly -> E
        self.signs = {}
        self.factors = {}
        self.definite = {}


S = State()
X = None                     # module expr


def reset():
    S.__init__()


# A monomial is a tuple of (atom, exponent), in decreasing order; a polynomial a dict
# monomial -> int or Fraction; a frozen polynomial a tuple of items, sorted.
ONE = ()


def atom(kind, val):
    """name of an atom; it only depends on its structure, so that every
    process orders the atoms in the same way"""
    n = kind + (val.a[0] if kind == "v" and val.op == "var" else
                "#" + structure(val) if kind == "v" else
                "#" + hashlib.sha1(repr(val).encode()).hexdigest()[:16])
    if n not in S.atoms:
        S.atoms[n] = (kind, val)
    return n


def structure(e):
    n = S.names.get(e)
    if n is None:
        stack = [e]
        while stack:
            x = stack[-1]
            todo = [y for y in x.a if y.__class__ is X.E and y not in S.names]
            if todo:
                stack.extend(todo)
                continue
            S.names[x] = hashlib.sha1(repr((x.op, x.w) + tuple(
                S.names[y] if y.__class__ is X.E else y for y in x.a)).encode()).hexdigest()[:16]
            stack.pop()
        n = S.names[e]
    return n


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items(), reverse=True))


def pmul(a, b):
    if len(a) * len(b) > 40 * LIMIT:
        raise TooBig()
    r = {}
    special = False
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = mmul(ma, mb)
            c = r.get(m, 0) + ca * cb
            if c:
                r[m] = c
            else:
                r.pop(m, None)
    for m in r:
        for k, e in m:
            if e > 1 and S.atoms[k][0] != "v":
                special = True
    if special:
        r = reduce(r)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def reduce(p):
    """replace the squares of absolute values and of square roots"""
    r = {}
    for m, c in p.items():
        rest, extra = [], None
        for k, e in m:
            kind, val = S.atoms[k]
            if e > 1 and kind != "v":
                q = dict(val)
                if kind == "a":
                    q = pmul(q, q)
                t = ppow(q, e // 2)
                extra = t if extra is None else pmul(extra, t)
                if e & 1:
                    rest.append((k, 1))
            else:
                rest.append((k, e))
        m = tuple(rest)
        if extra is None:
            padd(r, {m: c})
        else:
            padd(r, pmul({m: c}, extra))
    return r


def padd(r, p, c=1):
    for m, v in p.items():
        t = r.get(m, 0) + c * v
        if t:
            r[m] = t
        else:
            r.pop(m, None)
    return r


def ppow(p, n):
    r = {ONE: 1}
    while n:
        if n & 1:
            r = pmul(r, p)
        n >>= 1
        if n:
            p = pmul(p, p)
    return r


def freeze(p):
    return tuple(sorted(p.items()))


def mdiv(a, b):
    """quotient of monomials or None"""
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) - e
        if n < 0:
            return None
        if n:
            d[k] = n
        else:
            del d[k]
    return tuple(sorted(d.items(), reverse=True))


def mkey(m):
    # lexicographic order
    return m


def lead(p):
    return max(p, key=mkey)


def pdiv(a, b):
    """exact quotient of polynomials (atoms being independent) or None"""
    lb = lead(b)
    cb = b[lb]
    a = dict(a)
    q = {}
    n = 0
    while a:
        la = lead(a)
        m = mdiv(la, lb)
        n += 1
        if m is None or n > LIMIT:
            return None
        c = Fraction(a[la]) / cb
        q[m] = c
        for mb, vb in b.items():
            k = mmul(m, mb)
            t = a.get(k, 0) - c * vb
            if t:
                a[k] = t
            else:
                a.pop(k, None)
    return q


# ------------------------------------------------------------------- terms
# (c, {factor: exponent}) with factor a frozen primitive polynomial
ZERO = (Fraction(0), {})


def const(c):
    return (Fraction(c), {})


def from_poly(p):
    """-> term"""
    if not p:
        return ZERO
    # content
    den = 1
    for c in p.values():
        d = Fraction(c).denominator
        den = den * d // gcd(den, d)
    num = 0
    ip = {}
    for m, c in p.items():
        v = Fraction(c) * den
        ip[m] = v.numerator
        num = gcd(num, v.numerator)
    # monomial content
    it = iter(ip)
    common = dict(next(it))
    for m in it:
        if not common:
            break
        d = dict(m)
        common = {k: min(e, d[k]) for k, e in common.items() if k in d}
    fs = {}
    if common:
        mono = tuple(sorted(common.items(), reverse=True))
        ip = {mdiv(m, mono): c for m, c in ip.items()}
        for k, e in mono:
            fs[((((k, 1),), 1),)] = e
    if ip[lead(ip)] < 0:
        num = -num
    c = Fraction(num, den)
    if len(ip) == 1 and ONE in ip:
        return norm((c * (ip[ONE] // num), fs))
    f = freeze({m: v // num for m, v in ip.items()})
    for g, e in factors(f):
        fs[g] = fs.get(g, 0) + e
    return norm((c, fs))


def factors(f):
    """irreducible factors of a primitive polynomial with a positive leading
    coefficient when they are cheap to compute"""
    r = S.factors.get(f)
    if r is None:
        r = S.factors[f] = _factors(f)
    return r


def _factors(f):
    names = sorted({k for m, _ in f for k, _ in m}, reverse=True)
    deg = max(sum(e for _, e in m) for m, _ in f)
    if deg < 2 or any(S.atoms[k][0] != "v" for k in names) or \
       len(names) > 1 and (len(names) > FACTOR[0] or len(f) > FACTOR[1] or deg > FACTOR[2]) or deg > 60:
        return ((f, 1),)
    from sympy.polys.rings import ring
    from sympy import ZZ
    R = ring(["x%d" % i for i in range(len(names))], ZZ)[0]
    pos = {k: i for i, k in enumerate(names)}

    def exps(m):
        t = [0] * len(names)
        for k, e in m:
            t[pos[k]] = e
        return tuple(t)
    c, fl = R.from_dict({exps(m): int(v) for m, v in f}).factor_list()
    out = []
    for g, e in fl:
        d = {tuple((k, n) for k, n in zip(names, m) if n): int(v) for m, v in g.items()}
        if d[lead(d)] < 0:
            d = {m: -v for m, v in d.items()}
        out.append((freeze(d), e))
    return tuple(out)


FACTOR = (3, 30, 6)          # variables, terms and degree of factored polynomials


def definite(f):
    """True if the polynomial of a single variable has no real root"""
    r = S.definite.get(f)
    if r is None:
        r = False
        names = {k for m, _ in f for k, _ in m}
        if len(names) == 1 and S.atoms[next(iter(names))][0] == "v":
            d = {(m[0][1] if m else 0): v for m, v in f}
            n = max(d)
            if n % 2 == 0:
                from sympy.polys.rootisolation import dup_count_real_roots
                from sympy import ZZ
                r = dup_count_real_roots([ZZ(d.get(i, 0)) for i in range(n, -1, -1)], ZZ) == 0
        S.definite[f] = r
    return r


def special(f):
    """kind and value of the atom if the factor is a special atom"""
    if len(f) == 1 and f[0][1] == 1 and len(f[0][0]) == 1 and f[0][0][0][1] == 1:
        kind, val = S.atoms[f[0][0][0][0]]
        if kind != "v":
            return kind, val
    return None


def norm(t):
    """special atoms only appear with exponent one"""
    c, fs = t
    for f, e in list(fs.items()):
        if e == 0:
            del fs[f]
        elif e != 1:
            s = special(f)
            if s is not None:
                k = e // 2
                if e & 1:
                    fs[f] = 1
                else:
                    del fs[f]
                q = from_poly(dict(s[1]))
                t2 = power(q, 2 * k if s[0] == "a" else k)
                return mul((c, fs), t2)
    return (c, fs)


def power(t, n):
    return norm((t[0] ** n, {f: e * n for f, e in t[1].items()}))


def mul(a, b):
    c = a[0] * b[0]
    if not c:
        return ZERO
    fs = dict(a[1])
    for f, e in b[1].items():
        fs[f] = fs.get(f, 0) + e
    return norm((c, fs))


def inv(a):
    return norm((1 / a[0], {f: -e for f, e in a[1].items()}))


def expand(c, fs):
    p = {ONE: c}
    for f, e in sorted(fs.items(), key=lambda t: len(t[0])):
        p = pmul(p, ppow(dict(f), e))
    return p


def add(a, b, sign=1):
    if not a[0]:
        return (sign * b[0], b[1])
    if not b[0]:
        return a
    common = {}
    for f in set(a[1]) | set(b[1]):
        e = min(a[1].get(f, 0), b[1].get(f, 0))
        if e:
            common[f] = e
    ra = {f: e - common.get(f, 0) for f, e in a[1].items() if e != common.get(f, 0)}
    rb = {f: e - common.get(f, 0) for f, e in b[1].items() if e != common.get(f, 0)}
    for f, e in common.items():
        if f not in a[1] and e:
            ra[f] = -e
        if f not in b[1] and e:
            rb[f] = -e
    p = expand(a[0], ra)
    padd(p, expand(sign * b[0], rb))
    if not p:
        return ZERO
    t = from_poly(p)
    # cancel the denominators
    r = mul(t, (Fraction(1), common))
    again = True
    while again:
        again = False
        dens = [f for f, e in r[1].items() if e < 0 and len(f) > 1]
        nums = [f for f, e in r[1].items() if e > 0 and len(f) > 1]
        for d in dens:
            for n in nums:
                if len(d) > len(n):
                    continue
                q = pdiv(dict(n), dict(d))
                if q is not None:
                    fs = dict(r[1])
                    fs[n] -= 1
                    fs[d] += 1
                    r = mul((r[0], {f: e for f, e in fs.items() if e}), from_poly(q))
                    again = True
                    break
            if again:
                break
    return r


def pabs(f):
    """absolute value of a factor, as a term"""
    s = special(f)
    if s is not None:
        return (Fraction(1), {f: 1})
    k = atom("a", f)
    return (Fraction(1), {((((k, 1),), 1),): 1})


def tabs(t):
    r = (abs(t[0]), {})
    for f, e in t[1].items():
        if e & 1:
            r = mul(r, power(pabs(f), 1))
            if e != 1:
                r = mul(r, (Fraction(1), {f: e - 1}))
        else:
            r = mul(r, (Fraction(1), {f: e}))
    return r


def square_part(n):
    """n = a*a*b"""
    a, b = 1, n
    r = isqrt(n)
    if r * r == n:
        return r, 1
    for p in (2, 3, 5, 7, 11, 13):
        while b % (p * p) == 0:
            b //= p * p
            a *= p
    return a, b


def tsqrt(t):
    c, fs = t
    if not c:
        return ZERO
    neg = c < 0
    c = abs(c)
    a, b = square_part(c.numerator * c.denominator)
    r = (Fraction(a, c.denominator), {})
    odd = {}
    for f, e in fs.items():
        k = e // 2
        if e & 1:
            odd[f] = 1
        if k:
            r = mul(r, tabs((Fraction(1), {f: k})))
    if odd or b != 1 or neg:
        p = expand(-b if neg else b, odd)
        f = freeze(p)
        k = atom("s", f)
        r = mul(r, (Fraction(1), {((((k, 1),), 1),): 1}))
    return r


# --------------------------------------------------------------- from E
def opaque(e):
    k = atom("v", e)
    return (Fraction(1), {((((k, 1),), 1),): 1})


def term(e):
    """term of an expression or a constant"""
    if e.__class__ is not X.E:
        if e.__class__ is float:
            raise TooBig()
        return const(e)
    t = S.memo.get(e)
    if t is None and e not in S.memo:
        stack = [e]
        while stack:
            x = stack[-1]
            if x in S.memo:
                stack.pop()
                continue
            if x.op in OPS:
                todo = [y for y in x.a if y.__class__ is X.E and y not in S.memo]
                if todo:
                    stack.extend(todo)
                    continue
            try:
                S.memo[x] = conv(x)
            except TooBig:
                S.memo[x] = None
            stack.pop()
        t = S.memo[e]
    if t is None:
        raise TooBig()
    return t


OPS = {"fadd", "fsub", "fmul", "fdiv", "fneg", "fabs", "fsqrt", "fcast"}


def conv(e):
    op = e.op
    if op not in OPS:
        return opaque(e)
    a = term(e.a[0])
    if op == "fneg":
        return (-a[0], a[1])
    if op == "fcast":
        return a
    if op == "fabs":
        return tabs(a)
    if op == "fsqrt":
        return tsqrt(a)
    b = term(e.a[1])
    if op == "fadd":
        return add(a, b)
    if op == "fsub":
        return add(a, b, -1)
    if op == "fmul":
        return mul(a, b)
    if not b[0]:
        raise TooBig()
    return mul(a, inv(b))


# ----------------------------------------------------------------- to E
def poly_expr(f):
    e = S.polyE.get(f)
    if e is None:
        r = None
        for m, c in sorted(f, key=lambda t: mkey(t[0]), reverse=True):
            t = None
            for k, n in m:
                kind, val = S.atoms[k]
                if kind == "v":
                    x = val
                else:
                    x = poly_expr(val)
                    x = X.mk("fabs" if kind == "a" else "fsqrt", "d", x) \
                        if x.__class__ is X.E else (abs(x) if kind == "a" else X.fsqrt(x, "d"))
                for _ in range(n):
                    t = x if t is None else X.fop("fmul", "d", t, x)
            c = Fraction(c)
            t = c if t is None else X.fop("fmul", "d", c, t)
            r = t if r is None else X.fop("fadd", "d", r, t)
        e = r
        S.polyE[f] = e
    return e


def sign(f, op):
    """condition f < 0 ('lt'), f > 0 ('gt') or f == 0 ('eq')"""
    c = S.signs.get((f, op))
    if c is None and definite(f):
        c = S.signs[(f, op)] = 1 if op == "gt" else 0
    if c is None:
        # a + b*x with a single indeterminate or x - y: keep them readable
        x, y = poly_expr(f), Fraction(0)
        pos = [(m, v) for m, v in f if v > 0 and m != ONE]
        neg = [(m, v) for m, v in f if v < 0 or m == ONE]
        if len(pos) == 1 and len(neg) == 1:
            x = poly_expr(tuple(pos))
            y = X.fneg(poly_expr(tuple(neg)), "d")
        if op == "eq":
            c = X.raw_feq(x, y)
        elif op == "lt":
            c = X.mk("flt", 1, x, y)
        else:
            c = X.mk("flt", 1, y, x)
        S.signs[(f, op)] = c
    return c


def signs(fs, positive):
    """product of factors is positive (or negative)"""
    if len(fs) == 1:
        return sign(fs[0], "gt" if positive else "lt")
    return X.or_(X.and_(sign(fs[0], "gt"), signs(fs[1:], positive)),
                 X.and_(sign(fs[0], "lt"), signs(fs[1:], not positive)))


def compare(x, y, op):
    """x < y ('lt') or x == y ('eq'); None if out of reach"""
    try:
        c, fs = add(term(x), term(y), -1)
    except TooBig:
        return None
    if not c:
        return 1 if op == "eq" else 0
    if op == "eq":
        r = 0
        for f in sorted(f for f, e in fs.items() if e > 0):
            s = special(f)
            if s is not None:
                f = s[1]
            r = X.or_(r, zero(f))
        return r
    odd, nz = [], []
    for f, e in sorted(fs.items()):
        s = special(f)
        if s is not None:
            nz.append(s[1])
        elif e & 1:
            if not definite(f):
                odd.append(f)
        elif e > 0:
            nz.append(f)
    if len(odd) > 5:
        return None
    r = signs(odd, c < 0) if odd else (1 if c < 0 else 0)
    for f in nz:
        r = X.and_(r, X.not_(zero(f)))
    return r


def zero(f):
    """f == 0, any polynomial"""
    c, fs = from_poly(dict(f))
    r = 0
    for g in sorted(fs):
        s = special(g)
        r = X.or_(r, zero(s[1]) if s is not None else sign(g, "eq"))
    return r
