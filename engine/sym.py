"""Symbolic numbers for the IR executor: hash-consed DAG over reals/integers.

Node kinds
  var  name
  lin  const + sum(coef * node)          (coefs are exact Fractions)
  prod product of node^power             (powers may be negative: division)
  fn   uninterpreted/axiomatised function application (sin, cos, sqrt, floor, ...)
Concrete numbers are plain Python ints / floats and never become Nodes.
"""
from fractions import Fraction as Fr
import math

INF = float('inf')
REAL, ROUND = 'real', 'round'


class Node:
    __slots__ = ('id', 'k', 'a', 'lo', 'hi', 'isint', 'grid', '_v')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # plain-python operators, used by specifications
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __neg__(self): return scale(self, -1)
    def __bool__(self): raise TypeError('symbolic truth value')
    def __float__(self): raise TypeError('symbolic value has no float')
    def __int__(self): raise TypeError('symbolic value has no int')
    def __index__(self): raise TypeError('symbolic value has no index')


NOISE = Fr(1, 10**14)


class SymState:
    def __init__(self):
        self.reset()

    def reset(self):
        self.table = {}
        self.nodes = []
        self.fns = {}
        self.drop_rel = Fr(1, 10**14)
        self.fnapprox = True
        self.linapprox = False     # identify linear forms that differ by rounding noise of their coefficients only
        self.lins = {}


S = SymState()


def _new(k, a, lo, hi, isint, grid):
    n = Node()
    n.id = len(S.nodes)
    n.k = k
    n.a = a
    n.lo = lo
    n.hi = hi
    n.isint = isint
    n.grid = grid
    n._v = None
    S.nodes.append(n)
    return n


def var(name, lo=-INF, hi=INF, isint=False, grid=None):
    key = ('var', name)
    n = S.table.get(key)
    if n is None:
        n = _new('var', name, float(lo), float(hi), isint, 0 if isint else grid)
        S.table[key] = n
    return n


def isn(x):
    return type(x) is Node


def fr(x):
    if type(x) is float:
        if x != x or x in (INF, -INF):
            raise ArithmeticError('non-finite constant in symbolic expression')
        return Fr(x)
    return Fr(x)


def _v2(c):
    """exponent e such that c is an odd multiple of 2**e, or None when c is not dyadic"""
    q = c.denominator
    if q & (q - 1):
        return None
    p = c.numerator
    return (p & -p).bit_length() - 1 - (q.bit_length() - 1)


def wid(lo, hi):
    if lo == hi and lo == int(lo) if abs(lo) < 1e15 else False:
        return lo, hi
    e = max(abs(lo), abs(hi))
    if e == INF:
        return lo, hi
    e = e * 4e-16 + 5e-324
    return lo - e, hi + e


def _term(n):
    """view of a number as (const, {node: coef})"""
    if not isn(n):
        return fr(n), {}
    if n.k == 'lin':
        return n.a[0], dict(n.a[1])
    return Fr(0), {n: Fr(1)}


def cnum(c, isint):
    """concrete result"""
    if isint and c.denominator == 1:
        return int(c)
    return float(c)


def mk_lin(c, d, isint=None):
    d = {n: k for n, k in d.items() if k}
    if not d:
        return cnum(c, isint) if isint is not None else cnum(c, False)
    if c == 0 and len(d) == 1:
        (n, k), = d.items()
        if k == 1:
            return n
    items = tuple(sorted(d.items(), key=lambda t: t[0].id))
    key = ('lin', c, tuple((n.id, k) for n, k in items))
    r = S.table.get(key)
    if r is not None:
        return r
    if S.linapprox:
        bk = tuple(n.id for n, k in items)
        for m in S.lins.setdefault(bk, []):
            c2, it2 = m.a
            if abs(c - c2) <= NOISE * max(abs(c), abs(c2)) and all(abs(k - k2) <= NOISE * abs(k) for (_, k), (_, k2) in zip(items, it2)):
                S.table[key] = m
                return m
    lo = hi = float(c)
    mag = abs(lo)
    ii = c.denominator == 1
    g = _v2(c) if c else 10**6
    for n, k in items:
        fk = float(k)
        a, b = fk * n.lo if n.lo not in (INF, -INF) else (n.lo if fk > 0 else -n.lo), \
            fk * n.hi if n.hi not in (INF, -INF) else (n.hi if fk > 0 else -n.hi)
        if a > b:
            a, b = b, a
        lo += a
        hi += b
        mag = max(mag, abs(a), abs(b))
        ii = ii and n.isint and k.denominator == 1
        if g is not None:
            e = _v2(k)
            g = None if (e is None or n.grid is None) else min(g, e + n.grid)
    if mag != INF and not (ii and mag < 1e15):
        w = mag * 1e-15 * (len(items) + 1)
        lo -= w
        hi += w
    r = _new('lin', (c, items), lo, hi, ii, g)
    S.table[key] = r
    if S.linapprox and not ii:
        S.lins[bk].append(r)
    return r


def add(a, b):
    if not isn(a) and not isn(b):
        return a + b
    c1, d1 = _term(a)
    c2, d2 = _term(b)
    c = c1 + c2
    d = d1
    for n, k in d2.items():
        o = d.get(n)
        if o is None:
            d[n] = k
        else:
            s = o + k
            if s and S.drop_rel and abs(s) <= S.drop_rel * max(abs(o), abs(k)):
                s = Fr(0)
            d[n] = s
    if S.drop_rel and c and c1 and c2 and abs(c) <= S.drop_rel * max(abs(c1), abs(c2)):
        c = Fr(0)
    return mk_lin(c, d, isint(a) and isint(b))


def isint(x):
    return x.isint if isn(x) else type(x) is int


def scale(a, k):
    if not isn(a):
        return a * k
    ii = a.isint and (type(k) is int or (isinstance(k, Fr) and k.denominator == 1))
    k = fr(k)
    if k == 0:
        return 0 if ii else 0.0
    if k == 1:
        return a
    c, d = _term(a)
    return mk_lin(c * k, {n: v * k for n, v in d.items()}, ii)


def sub(a, b):
    if not isn(a) and not isn(b):
        return a - b
    return add(a, scale(b, -1) if isn(b) else -b)


def _factors(n):
    """(coef, {base: power}) with monic bases"""
    if n.k == 'prod':
        return Fr(1), dict(n.a)
    if n.k == 'lin':
        c, items = n.a
        k = items[0][1]
        if c == 0 and len(items) == 1:
            co, f = _factors(items[0][0])
            return co * k, f
        if k == 1:
            return Fr(1), {n: 1}
        m = mk_lin(c / k, {x: v / k for x, v in items})
        return k, {m: 1}
    return Fr(1), {n: 1}


def _ipow(lo, hi, p):
    if p == 1:
        return lo, hi
    if p < 0:
        if lo > 0 or hi < 0:
            lo, hi = 1 / hi if hi not in (INF, -INF) else 0.0, 1 / lo if lo not in (INF, -INF) else 0.0
            if lo > hi:
                lo, hi = hi, lo
            return _ipow(lo, hi, -p)
        if lo == 0 and hi > 0:
            return (0.0 if hi == INF else (1 / hi) ** (-p)), INF
        return (0.0, INF) if p % 2 == 0 else (-INF, INF)
    try:
        a, b = lo ** p, hi ** p
    except OverflowError:
        a, b = (-INF if p % 2 else INF), INF
    if p % 2:
        return a, b
    if lo <= 0 <= hi:
        return 0.0, max(a, b)
    return min(a, b), max(a, b)


def _imul(a, b):
    r = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                r.append(0.0)
            else:
                r.append(x * y)
    return min(r), max(r)


def mk_prod(coef, f):
    """coef * prod(base^pow)"""
    extra = None
    g = {}
    for b, p in f.items():
        if p == 0:
            continue
        if b.k == 'fn' and b.a[0] == 'sqrt' and abs(p) >= 2:
            q, r = divmod(abs(p), 2)
            sg = 1 if p > 0 else -1
            e = power(b.a[1][0], sg * q)
            extra = e if extra is None else mul(extra, e)
            if r:
                g[b] = sg
        else:
            g[b] = p
    if extra is not None:
        base = mk_prod(coef, g) if g else (float(coef))
        return mul(base, extra)
    if not g:
        return float(coef)
    if len(g) == 1:
        (b, p), = g.items()
        if p == 1:
            return scale(b, coef) if coef != 1 else b
    items = tuple(sorted(g.items(), key=lambda t: t[0].id))
    key = ('prod', tuple((b.id, p) for b, p in items))
    r = S.table.get(key)
    if r is None:
        iv = (1.0, 1.0)
        ii = True
        gr = 0
        for b, p in items:
            iv = _imul(iv, _ipow(b.lo, b.hi, p))
            ii = ii and b.isint and p > 0
            gr = None if (gr is None or b.grid is None or p < 0) else gr + b.grid * p
        lo, hi = iv
        if not ii:
            lo, hi = wid(lo, hi)
        r = _new('prod', items, lo, hi, ii, gr)
        S.table[key] = r
    return scale(r, coef) if coef != 1 else r


def mul(a, b):
    if not isn(a) and not isn(b):
        return a * b
    if not isn(a):
        return scale(b, a if type(a) is int else fr(a))
    if not isn(b):
        return scale(a, b if type(b) is int else fr(b))
    c1, f1 = _factors(a)
    c2, f2 = _factors(b)
    for n, p in f2.items():
        f1[n] = f1.get(n, 0) + p
    r = mk_prod(c1 * c2, f1)
    if not isn(r) and isint(a) and isint(b):
        r = int(r)
    return r


def power(a, p):
    if not isn(a):
        return a ** p
    if p == 0:
        return 1.0
    c, f = _factors(a)
    return mk_prod(c ** p, {n: q * p for n, q in f.items()})


def div(a, b):
    if not isn(b):
        if not isn(a):
            return a / b
        return scale(a, 1 / fr(b))
    return mul(a, power(b, -1)) if isn(a) else scale(power(b, -1), fr(a))


# ---------------------------------------------------------------- functions

def _approx_same(x, y):
    """are two numbers the same up to coefficient rounding noise?"""
    if x is y:
        return True
    if not isn(x) or not isn(y):
        if isn(x) or isn(y):
            return False
        return abs(x - y) <= 1e-14 * max(1.0, abs(x), abs(y))
    c1, d1 = _term(x)
    c2, d2 = _term(y)
    if len(d1) != len(d2):
        return False
    sc = 0
    for n, k in d1.items():
        k2 = d2.get(n)
        if k2 is None:
            return False
        if abs(k - k2) > NOISE * abs(k):
            return False
        sc = max(sc, abs(k))
    return abs(c1 - c2) <= NOISE * max(abs(c1), abs(c2), 1)


def mk_fn(name, args, lo=-INF, hi=INF, isint=False):
    key = ('fn', name, tuple(x.id if isn(x) else ('c', x) for x in args))
    n = S.table.get(key)
    if n is not None:
        return n
    if S.fnapprox:
        for m in S.fns.get(name, ()):
            if all(_approx_same(p, q) for p, q in zip(m.a[1], args)):
                S.table[key] = m
                return m
    n = _new('fn', (name, tuple(args)), lo, hi, isint, 0 if isint else None)
    S.table[key] = n
    S.fns.setdefault(name, []).append(n)
    return n


TWO_PI = 2 * math.pi


def _angle_canon(x):
    """x -> (sign, quarter turns q, canonical argument) with x = sign*y + q*pi/2 (+2 pi k)"""
    c, d = _term(x)
    dd = {}
    for n, k in d.items():
        if n.isint:
            t = float(k) / TWO_PI
            if abs(t) > 0.5 and abs(t - round(t)) < 1e-10 * max(1, abs(t)):
                continue
        dd[n] = k
    q = 0
    cf = float(c)
    if cf:
        t = cf / (math.pi / 2)
        r = round(t)
        if r and abs(t - r) < 1e-11 * max(1, abs(t)):
            q = r % 4
            c = Fr(0)
        elif abs(cf) > math.pi + 1e-9:
            c = c - round(cf / TWO_PI) * fr(TWO_PI)
    if not dd:
        return 1, q, float(c)
    first = min(dd, key=lambda n: n.id)
    sg = 1
    if dd[first] < 0:
        sg = -1
        c = -c
        dd = {n: -k for n, k in dd.items()}
    if not c and len(dd) == 1:
        n, k = next(iter(dd.items()))
        if k != 1 and abs(float(k) - 1) < 1e-13 and n.k == 'fn':
            return sg, q, n
    return sg, q, mk_lin(c, dd)


def _is_scaled_fn(x, names):
    return isn(x) and x.k == 'fn' and x.a[0] in names


def fsin(x):
    if not isn(x):
        return math.sin(x)
    sg, q, y = _angle_canon(x)
    if q == 0:
        r = _sin0(y)
        return scale(r, sg) if isn(r) else sg * r
    if q == 1:                       # sin(s*y+pi/2)=cos(y)
        return _cos0(y)
    if q == 2:
        r = _sin0(y)
        return scale(r, -sg) if isn(r) else -sg * r
    return scale(_cos0(y), -1) if isn(_cos0(y)) else -_cos0(y)


def fcos(x):
    if not isn(x):
        return math.cos(x)
    sg, q, y = _angle_canon(x)
    if q == 0:
        return _cos0(y)
    if q == 1:                       # cos(s*y+pi/2) = -sin(s*y)
        r = _sin0(y)
        return scale(r, -sg) if isn(r) else -sg * r
    if q == 2:
        r = _cos0(y)
        return scale(r, -1) if isn(r) else -r
    r = _sin0(y)
    return scale(r, sg) if isn(r) else sg * r


def _sin0(y):
    if not isn(y):
        return math.sin(y)
    if _is_scaled_fn(y, ('asin',)):
        return y.a[1][0]
    if _is_scaled_fn(y, ('acos',)):
        return fsqrt(sub(1, mul(y.a[1][0], y.a[1][0])))
    if _is_scaled_fn(y, ('atan',)):
        t = y.a[1][0]
        return div(t, fsqrt(add(1, mul(t, t))))
    if _is_scaled_fn(y, ('atan2',)):
        p, q = y.a[1]
        return div(p, fsqrt(add(mul(p, p), mul(q, q))))
    lo, hi = -1.0, 1.0
    if 0 <= y.lo and y.hi <= math.pi:
        lo = 0.0
    if -math.pi <= y.lo and y.hi <= 0:
        hi = 0.0
    return mk_fn('sin', (y,), lo, hi)


def _cos0(y):
    if not isn(y):
        return math.cos(y)
    if _is_scaled_fn(y, ('acos',)):
        return y.a[1][0]
    if _is_scaled_fn(y, ('asin',)):
        return fsqrt(sub(1, mul(y.a[1][0], y.a[1][0])))
    if _is_scaled_fn(y, ('atan',)):
        t = y.a[1][0]
        return div(1.0, fsqrt(add(1, mul(t, t))))
    if _is_scaled_fn(y, ('atan2',)):
        p, q = y.a[1]
        return div(q, fsqrt(add(mul(p, p), mul(q, q))))
    lo = 0.0 if (-math.pi / 2 - 1e-9 <= y.lo and y.hi <= math.pi / 2 + 1e-9) else -1.0
    return mk_fn('cos', (y,), lo, 1.0)


def ftan(x):
    if not isn(x):
        return math.tan(x)
    return div(fsin(x), fcos(x))


def fasin(x):
    if not isn(x):
        return math.asin(x) if -1 <= x <= 1 else float('nan')
    lo, hi = -math.pi / 2, math.pi / 2
    if x.lo >= 0:
        lo = 0.0
    if x.hi <= 0:
        hi = 0.0
    return mk_fn('asin', (x,), lo, hi)


def facos(x):
    if not isn(x):
        return math.acos(x) if -1 <= x <= 1 else float('nan')
    return mk_fn('acos', (x,), 0.0, math.pi)


def fatan(x):
    if not isn(x):
        return math.atan(x)
    return mk_fn('atan', (x,), -math.pi / 2, math.pi / 2)


def _const_of(x):
    """x as a constant when it is one algebraically"""
    if isn(x) and x.k in ('lin', 'prod'):
        try:
            p = expand(x, limit=200)
            sc = gross_scale(x)
            if all(not m or abs(float(c)) < 1e-13 * sc for m, c in p.items()):
                return float(p.get((), 0))
        except TooBig:
            pass
    return x


def fatan2(y, x):
    y, x = _const_of(y), _const_of(x)
    if not isn(y) and not isn(x):
        return math.atan2(y, x)
    lo, hi = -math.pi, math.pi
    if (isn(y) and y.lo >= 0) or (not isn(y) and y >= 0):
        lo = 0.0
    if isn(y) and y.hi < 0:
        hi = 0.0
    return mk_fn('atan2', (y, x), lo, hi)


def fsqrt(x):
    if not isn(x):
        return math.sqrt(x) if x >= 0 else float('nan')
    # sqrt of a perfect even product
    c, f = _factors(x)
    if c > 0 and all(p % 2 == 0 and b.lo >= 0 for b, p in f.items()):
        r = mk_prod(Fr(1), {b: p // 2 for b, p in f.items()})
        return mul(r, math.sqrt(float(c)))
    lo = math.sqrt(max(0.0, x.lo)) * (1 - 1e-15)
    hi = math.sqrt(x.hi) * (1 + 1e-15) if x.hi > 0 and x.hi < INF else (INF if x.hi > 0 else 0.0)
    key = ('sqc', x.id)
    r = S.table.get(key)
    if r is None:
        y, m = _sqrt_canon(x)
        if y is None:
            r = mk_fn('sqrt', (x,), lo, hi)
        elif not isn(y):
            r = math.sqrt(y) if y >= 0 else mk_fn('sqrt', (x,), lo, hi)
            r = div(r, m) if isn(m) else r / m
        else:
            y2 = _one_minus_sin2(y)
            if y2 is not None:
                y = y2
            cy, fy = _factors(y)
            if cy > 0 and all(p % 2 == 0 and b.lo >= 0 for b, p in fy.items()):
                r = mul(mk_prod(Fr(1), {b: p // 2 for b, p in fy.items()}), math.sqrt(float(cy)))
            elif m == 1:
                r = mk_fn('sqrt', (y,), lo, hi)
            else:
                r = div(mk_fn('sqrt', (y,), math.sqrt(max(0.0, y.lo)), math.sqrt(y.hi) if 0 < y.hi < INF else INF), m)
        S.table[key] = r
    return r


def _one_minus_sin2(y):
    """k*m^2*(1 - sin(a)^2) -> k*m^2*cos(a)^2"""
    c0, d = _term(y)
    ts = list(d.items())
    if c0:
        ts.append((None, c0))
    if len(ts) != 2:
        return None
    for (a, ka), (b, kb) in (ts, ts[::-1]):
        if abs(ka + kb) > abs(ka) * Fr(1, 10 ** 13):
            continue
        _, fa = _factors(a) if a is not None else (1, {})
        _, fb = _factors(b) if b is not None else (1, {})
        r = {n: q - fa.get(n, 0) for n, q in fb.items() if q != fa.get(n, 0)}
        if any(n not in fb for n in fa) or len(r) != 1:
            continue
        (n, q), = r.items()
        if q == 2 and n.k == 'fn' and n.a[0] == 'sin':
            cs = _cos0(n.a[1][0])
            if isn(cs):
                return mul(mk_prod(ka, dict(fa)), mul(cs, cs)) if fa else scale(mul(cs, cs), ka)
    return None


def _lin_to_sqrt(p):
    """negative powers of a sum that is the argument of a known square root, written with that root"""
    out = {}
    for mono, c in p.items():
        d = {}
        for i, q in mono:
            b = S.nodes[i]
            if q < 0 and b.k == 'lin':
                r = S.table.get(('fn', 'sqrt', (i,)))
                if r is not None:
                    d[r.id] = d.get(r.id, 0) + 2 * q
                    continue
            d[i] = d.get(i, 0) + q
        m = tuple(sorted((i, q) for i, q in d.items() if q))
        v = out.get(m, 0) + c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def _sqrt_canon(x):
    """x = y / m^2 with y an expanded polynomial (sin^2+cos^2 reduced) and m a non-negative monomial"""
    try:
        p = _lin_to_sqrt(expand(x, limit=300))
        negs = {}
        for mono in p:
            for i, q in mono:
                if q < 0:
                    negs[i] = max(negs.get(i, 0), -q)
        m = 1
        if negs:
            mm = {}
            for i, q in negs.items():
                b = S.nodes[i]
                if b.lo < 0 or b.k == 'lin':
                    return None, None
                mm[b] = (q + 1) // 2
            m = mk_prod(Fr(1), mm)
            p2 = {}
            for mono, c in p.items():
                d = dict(mono)
                for b, q in mm.items():
                    d[b.id] = d.get(b.id, 0) + 2 * q
                t = mk_prod(c, {S.nodes[i]: q for i, q in d.items() if q})
                for mo, v in (expand(t, 300) if isn(t) else {(): fr(t)}).items():
                    w = p2.get(mo, 0) + v
                    if w:
                        p2[mo] = w
                    else:
                        p2.pop(mo, None)
            p = p2
        sc = max([abs(c) for c in p.values()] or [1])
        y = 0.0
        for mo in sorted(p):
            c = p[mo]
            if abs(c) < sc * Fr(1, 10 ** 14):
                continue
            y = add(y, mk_prod(c, {S.nodes[i]: q for i, q in mo}) if mo else cnum(c, False))
        return y, m
    except TooBig:
        return None, None


def ffloor(x):
    """integer-valued node"""
    if not isn(x):
        return math.floor(x)
    if x.isint:
        return x
    c, d = _term(x)
    # pull out the integer part
    ip = Fr(math.floor(c))
    di = {n: k for n, k in d.items() if n.isint and k.denominator == 1}
    if di or ip:
        rest = mk_lin(c - ip, {n: k for n, k in d.items() if n not in di})
        whole = mk_lin(ip, di, True)
        return add(whole, ffloor(rest) if isn(rest) else math.floor(rest))
    lo = math.floor(x.lo) if x.lo > -INF else -INF
    hi = math.floor(x.hi) if x.hi < INF else INF
    if lo == hi:
        return int(lo)
    return mk_fn('floor', (x,), float(lo), float(hi), True)


def fgeneric(name, *args):
    return mk_fn(name, tuple(args))


# ---------------------------------------------------------------- conditions

class Cond:
    __slots__ = ('op', 'a')

    def __init__(self, op, a):
        self.op = op
        self.a = a

    def __bool__(self):
        raise TypeError('symbolic condition used as a concrete truth value')

    def __repr__(self):
        if self.op in ('and', 'or'):
            return '(' + (' %s ' % self.op).join(map(repr, self.a)) + ')'
        return '(%r %s 0)' % (self.a, {'le': '<=', 'lt': '<', 'eq': '==', 'ne': '!='}[self.op])


def cmp0(op, n):
    """n op 0, constant folded through intervals"""
    if not isn(n):
        return {'le': n <= 0, 'lt': n < 0, 'eq': n == 0, 'ne': n != 0}[op]
    if op == 'le':
        if n.hi <= 0: return True
        if n.lo > 0: return False
    elif op == 'lt':
        if n.hi < 0: return True
        if n.lo >= 0: return False
    elif op == 'eq':
        if n.lo > 0 or n.hi < 0: return False
    else:
        if n.lo > 0 or n.hi < 0: return True
    return Cond(op, n)


def lt(a, b): return cmp0('lt', sub(a, b))
def le(a, b): return cmp0('le', sub(a, b))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b): return cmp0('eq', sub(a, b))
def ne(a, b): return cmp0('ne', sub(a, b))


def neg(c):
    if type(c) is bool:
        return not c
    op = c.op
    if op == 'le': return Cond('lt', scale(c.a, -1))
    if op == 'lt': return Cond('le', scale(c.a, -1))
    if op == 'eq': return Cond('ne', c.a)
    if op == 'ne': return Cond('eq', c.a)
    if op == 'and': return Cond('or', tuple(neg(x) for x in c.a))
    return Cond('and', tuple(neg(x) for x in c.a))


def cand(*cs):
    r = []
    for c in cs:
        if c is False: return False
        if c is True: continue
        r.append(c)
    if not r: return True
    if len(r) == 1: return r[0]
    return Cond('and', tuple(r))


def cor(*cs):
    r = []
    for c in cs:
        if c is True: return True
        if c is False: continue
        r.append(c)
    if not r: return False
    if len(r) == 1: return r[0]
    return Cond('or', tuple(r))


def cxor(a, b):
    return cor(cand(a, neg(b)), cand(neg(a), b))


# ---------------------------------------------------------------- evaluation

MFN = {'sin': math.sin, 'cos': math.cos, 'atan': math.atan, 'atan2': math.atan2,
       'asin': lambda x: math.asin(max(-1.0, min(1.0, x))), 'acos': lambda x: math.acos(max(-1.0, min(1.0, x))),
       'sqrt': lambda x: math.sqrt(x) if x >= 0 else (0.0 if x > -1e-9 else float('nan')),
       'floor': math.floor, 'exp': math.exp, 'log': lambda x: math.log(x) if x > 0 else float('nan'),
       'pow': lambda x, y: x ** y if x >= 0 else float('nan')}


def evalf(x, env, memo=None):
    """numeric value; env maps var names to numbers"""
    if not isn(x):
        return x
    if memo is None:
        memo = {}
    stack = [x]
    while stack:
        n = stack[-1]
        if n.id in memo:
            stack.pop()
            continue
        if n.k == 'var':
            memo[n.id] = env.get(n.a, 0.0)
            stack.pop()
            continue
        if n.k == 'lin':
            ch = [t for t, _ in n.a[1]]
        elif n.k == 'prod':
            ch = [t for t, _ in n.a]
        else:
            ch = [t for t in n.a[1] if isn(t)]
        miss = [t for t in ch if t.id not in memo]
        if miss:
            stack.extend(miss)
            continue
        try:
            if n.k == 'lin':
                v = float(n.a[0])
                if n.isint:
                    v = int(n.a[0])
                for t, k in n.a[1]:
                    v += (int(k) if n.isint else float(k)) * memo[t.id]
            elif n.k == 'prod':
                v = 1 if n.isint else 1.0
                for t, p in n.a:
                    v *= memo[t.id] ** p
            else:
                f = MFN[n.a[0]]
                v = f(*[memo[t.id] if isn(t) else t for t in n.a[1]])
        except (ZeroDivisionError, OverflowError, ValueError):
            v = float('nan')
        memo[n.id] = v
        stack.pop()
    return memo[x.id]


def evalc(c, env, memo=None, slack=0.0):
    if type(c) is bool:
        return c
    if c.op == 'and':
        return all(evalc(x, env, memo, slack) for x in c.a)
    if c.op == 'or':
        return any(evalc(x, env, memo, slack) for x in c.a)
    v = evalf(c.a, env, memo)
    if c.op == 'le': return v <= slack
    if c.op == 'lt': return v < slack if slack else v < 0
    if c.op == 'eq': return abs(v) <= slack
    return v != 0


def subst_vars(x, acc=None):
    """set of var nodes below x"""
    seen = set()
    out = set()
    st = [x]
    while st:
        n = st.pop()
        if not isn(n) or n.id in seen:
            continue
        seen.add(n.id)
        if n.k == 'var':
            out.add(n)
        elif n.k == 'lin':
            st.extend(t for t, _ in n.a[1])
        elif n.k == 'prod':
            st.extend(t for t, _ in n.a)
        else:
            st.extend(n.a[1])
    return out


def show(n, depth=6):
    if not isn(n):
        return '%r' % (n,)
    if depth == 0:
        return '#%d' % n.id
    if n.k == 'var':
        return n.a
    if n.k == 'lin':
        s = []
        c, it = n.a
        if c:
            s.append('%.10g' % float(c))
        for t, k in it:
            s.append(('%.10g*' % float(k) if k != 1 else '') + show(t, depth - 1))
        return '(' + ' + '.join(s) + ')'
    if n.k == 'prod':
        return '*'.join(show(t, depth - 1) + ('^%d' % p if p != 1 else '') for t, p in n.a)
    return '%s(%s)' % (n.a[0], ', '.join(show(t, depth - 1) for t in n.a[1]))


# ---------------------------------------------------------------- normal form

class TooBig(Exception):
    pass


def expand(x, limit=20000, memo=None):
    """polynomial {monomial: Fraction}; monomial = tuple of (node id, power) sorted; trig/sqrt rules applied.
    Negative powers stay attached to their (opaque) base."""
    if memo is None:
        memo = {}

    def padd(p, q, k=Fr(1)):
        for m, c in q.items():
            v = p.get(m, 0) + c * k
            if v:
                p[m] = v
            else:
                p.pop(m, None)
        return p

    def mono_mul(m1, m2):
        d = dict(m1)
        for i, p in m2:
            d[i] = d.get(i, 0) + p
        return d

    def reduce_mono(d, coef):
        """apply cos^2 -> 1-sin^2, sqrt^2 -> arg; returns polynomial"""
        for i, p in d.items():
            n = S.nodes[i]
            if p >= 2 and n.k == 'fn' and n.a[0] in ('cos', 'sqrt'):
                rest = dict(d)
                rest[i] = p - 2
                if n.a[0] == 'cos':
                    s = _sin0(n.a[1][0])
                    e = {(): Fr(1)}
                    sp = expand(s, limit, memo)
                    padd(e, pmul(sp, sp), Fr(-1))
                else:
                    e = expand(n.a[1][0], limit, memo)
                base = {tuple(sorted((j, q) for j, q in rest.items() if q)): coef}
                return pmul(base, e)
        # inverse of a base also present with positive powers via expansion is not cancelled here
        return {tuple(sorted((j, q) for j, q in d.items() if q)): coef}

    def pmul(p, q):
        if len(p) * len(q) > limit:
            raise TooBig()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                padd(r, reduce_mono(mono_mul(m1, m2), c1 * c2))
        if len(r) > limit:
            raise TooBig()
        return r

    def ex(n):
        if not isn(n):
            return {(): fr(n)} if n else {}
        got = memo.get(n.id)
        if got is not None:
            return got
        if n.k == 'lin':
            r = {(): n.a[0]} if n.a[0] else {}
            for t, k in n.a[1]:
                padd(r, ex(t), k)
        elif n.k == 'prod':
            r = {(): Fr(1)}
            for t, p in n.a:
                if p < 0:
                    r = pmul(r, {((t.id, p),): Fr(1)})
                else:
                    e = ex(t)
                    for _ in range(p):
                        r = pmul(r, e)
        else:
            r = {((n.id, 1),): Fr(1)}
        memo[n.id] = r
        return r
    return ex(x)


def clear_denoms(p, limit=20000):
    """multiply polynomial by all bases occurring with negative power; returns polynomial without negative powers"""
    memo = {}
    for _ in range(12):
        negs = {}
        for m in p:
            for i, q in m:
                if q < 0:
                    negs[i] = max(negs.get(i, 0), -q)
        if not negs:
            return p, True
        i = max(negs)
        k = negs[i]
        base = expand(S.nodes[i], limit, memo)
        r = {}
        for m, c in p.items():
            d = dict(m)
            q = d.pop(i, 0) + k
            rest = {tuple(sorted(d.items())): c}
            e = rest
            for _ in range(q):
                e2 = {}
                for m1, c1 in e.items():
                    for m2, c2 in base.items():
                        dd = dict(m1)
                        for a, b in m2:
                            dd[a] = dd.get(a, 0) + b
                        mm = tuple(sorted((a, b) for a, b in dd.items() if b))
                        v = e2.get(mm, 0) + c1 * c2
                        if v:
                            e2[mm] = v
                        else:
                            e2.pop(mm, None)
                if len(e2) > limit:
                    raise TooBig()
                e = e2
            for mm, v in e.items():
                w = r.get(mm, 0) + v
                if w:
                    r[mm] = w
                else:
                    r.pop(mm, None)
        # re-reduce cos^2 / sqrt^2
        red = {}
        for m, c in r.items():
            x = _mono_node(m)
            for mm, v in (expand(x, limit, memo).items() if isn(x) else [((), fr(x))]):
                w = red.get(mm, 0) + v * c
                if w:
                    red[mm] = w
                else:
                    red.pop(mm, None)
        p = red
    return p, False


def _mono_node(m):
    r = 1.0
    for i, q in m:
        r = mul(r, power(S.nodes[i], q))
    return r


def is_zero(x, rel=1e-11):
    """True when x is algebraically zero up to coefficient noise (relative to the terms that cancel)"""
    if not isn(x):
        return abs(x) < 1e-12
    try:
        memo = {}
        p = expand(x, memo=memo)
        p, ok = clear_denoms(p)
    except TooBig:
        return False
    if not ok:
        return False
    if not p:
        return True
    sc = gross_scale(x)
    return all(abs(float(c)) <= rel * sc for c in p.values())


def gross_scale(x):
    """largest coefficient seen while summing (so that cancellation noise can be judged)"""
    if x.k == 'lin':
        r = abs(float(x.a[0]))
        for t, k in x.a[1]:
            r = max(r, abs(float(k)))
        return max(r, 1e-300)
    return 1.0


# ---------------------------------------------------------------- substitution

def subst(x, m, memo=None):
    """replace nodes by values/nodes"""
    if not isn(x):
        return x
    if memo is None:
        memo = {}
    r = memo.get(x.id)
    if r is not None:
        return r
    if x.id in m:
        r = m[x.id]
    elif x.k == 'var':
        r = x
    elif x.k == 'lin':
        acc = x.a[0]
        dd = {}
        for t, k in x.a[1]:
            v = subst(t, m, memo)
            c, d = _term(v)
            acc += c * k
            for n, q in d.items():
                dd[n] = dd.get(n, 0) + q * k
        r = mk_lin(acc, {n: q for n, q in dd.items() if q})
    elif x.k == 'prod':
        r = 1.0
        for t, p in x.a:
            r = mul(r, power(subst(t, m, memo), p)) if isn(subst(t, m, memo)) else mul(r, subst(t, m, memo) ** p)
    else:
        a = [subst(t, m, memo) if isn(t) else t for t in x.a[1]]
        F = dict(sin=fsin, tan=ftan, cos=fcos, asin=fasin, acos=facos, atan=fatan, atan2=fatan2, sqrt=fsqrt, floor=ffloor)
        r = F[x.a[0]](*a) if x.a[0] in F else fgeneric(x.a[0], *a)
    memo[x.id] = r
    return r


def subst_cond(c, m, memo=None):
    if type(c) is bool:
        return c
    if memo is None:
        memo = {}
    if c.op == 'and':
        return cand(*[subst_cond(x, m, memo) for x in c.a])
    if c.op == 'or':
        return cor(*[subst_cond(x, m, memo) for x in c.a])
    return cmp0(c.op, subst(c.a, m, memo))


def simp_cond(c):
    """decide comparisons whose expression is constant up to coefficient noise"""
    if type(c) is bool:
        return c
    if c.op == 'and':
        return cand(*[simp_cond(x) for x in c.a])
    if c.op == 'or':
        return cor(*[simp_cond(x) for x in c.a])
    if c.op in ('eq', 'ne') or not isn(c.a):
        return c
    x = c.a
    try:
        p, ok = clear_denoms(expand(x))
    except TooBig:
        return c
    if not ok or not p:
        return c if not ok else (c.op == 'le')
    sc = gross_scale(x)
    k = float(p.get((), 0))
    if all(abs(float(v)) <= 1e-11 * sc for m, v in p.items() if m != ()) and abs(k) > 1e-11 * sc:
        # the denominators cleared are positive or squared only when nothing was cleared
        try:
            if all(q > 0 for m in expand(x) for _, q in m):
                return k < 0 if c.op == 'lt' else k <= 0
        except TooBig:
            pass
    return c


def clear_cond(c):
    """multiply a comparison by its (non-negative, hence positive) denominators; None when the sign is not known"""
    if type(c) is bool or c.op in ('and', 'or') or not isn(c.a):
        return None
    try:
        p = _lin_to_sqrt(expand(c.a, limit=3000))
        ch = False
        for _ in range(6):
            negs = {}
            for m in p:
                for i, q in m:
                    if q < 0:
                        negs[i] = max(negs.get(i, 0), -q)
            if not negs:
                break
            ch = True
            mm = {}
            for i, q in negs.items():
                b = S.nodes[i]
                if b.k == 'lin' or (b.lo < 0 and c.op in ('le', 'lt')):
                    return None
                mm[i] = q
            p2 = {}
            for mono, k in p.items():
                d = dict(mono)
                for i, q in mm.items():
                    d[i] = d.get(i, 0) + q
                t = mk_prod(k, {S.nodes[i]: q for i, q in d.items() if q})
                for mo, v in (expand(t, 3000) if isn(t) else {(): fr(t)}).items():
                    w = p2.get(mo, 0) + v
                    if w:
                        p2[mo] = w
                    else:
                        p2.pop(mo, None)
            p = p2
        if not ch:
            return None
        y = 0.0
        for mo in sorted(p):
            y = add(y, mk_prod(p[mo], {S.nodes[i]: q for i, q in mo}) if mo else cnum(p[mo], False))
        return cmp0(c.op, y)
    except TooBig:
        return None


def by_interval(c):
    """decide a comparison by interval evaluation of its expanded polynomial"""
    if type(c) is bool or c.op not in ('le', 'lt') or not isn(c.a):
        return False
    try:
        p = expand(c.a, limit=3000)
    except TooBig:
        return False
    hi = 0.0
    for mo, k in p.items():
        l, h = 1.0, 1.0
        for i, q in mo:
            n = S.nodes[i]
            a, b = _ipow(n.lo, n.hi, q)
            l, h = _imul((l, h), (a, b))
        hi += max(float(k) * l, float(k) * h)
    return hi < 0 if c.op == 'lt' else hi <= 0


def int_atoms(c, acc=None):
    """integer-valued function atoms (floor ...) of a condition or node"""
    out = {}
    st = [c]
    seen = set()
    while st:
        n = st.pop()
        if isinstance(n, Cond):
            if n.op in ('and', 'or'):
                st.extend(n.a)
            else:
                st.append(n.a)
            continue
        if not isn(n) or n.id in seen:
            continue
        seen.add(n.id)
        if n.k == 'fn' and n.isint:
            out[n.id] = n
        if n.k == 'lin':
            st.extend(t for t, _ in n.a[1])
        elif n.k == 'prod':
            st.extend(t for t, _ in n.a)
        elif n.k == 'fn':
            st.extend(n.a[1])
    return out
