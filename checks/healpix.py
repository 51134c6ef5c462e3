"""H-group: the sky-pixel library (HealpixC/chealpix.c)."""
import ctypes
import math

import build
import fw
import rt as rtm
import sym
import zs
from fw import Inp, close, nfun
from rt import Ptr, isn

T = fw.THOROUGH
PI = math.pi
L = ctypes.c_long
LP = ctypes.POINTER(L)
N32 = [1 << k for k in range(14)]
N64 = [1 << k for k in range(30)]
Q32 = [1, 2, 4, 16, 128, 1024, 4096, 8192]
Q64 = [1, 2, 8, 64, 4096, 8192, 1 << 16, 1 << 20, 1 << 24, 1 << 25, 1 << 26, 1 << 27, 1 << 29]
REALS = 'ang2pix/pix2ang: numbers as real arithmetic (directions within rounding of a pixel edge are outside the claim)'
SQRT = 'sqrt of an integer plus one half: the correctly rounded root, modelled by its integer part (exact below 2^50, possibly one off within relative 3*2^-53 of a square above)'


def lib():
    return fw.native_lib('hpx', units=['chealpix'])


def prepare():
    lib()
    fw.new_rt(['chealpix'], 'hpx')


def nm(f, w):
    return f + ('64' if w == 64 else '')


def n2(f, w, n, p):
    """native conversion (nside, index) -> index"""
    o = L(-77)
    nfun(lib(), nm(f, w), None, L, L, LP)(n, p, ctypes.byref(o))
    return o.value


def napix(f, w, n, t, p):
    o = L(-77)
    nfun(lib(), nm(f, w), None, L, ctypes.c_double, ctypes.c_double, LP)(n, t, p, ctypes.byref(o))
    return o.value


def nvpix(f, w, n, v):
    o = L(-77)
    nfun(lib(), nm(f, w), None, L, ctypes.POINTER(ctypes.c_double), LP)(n, (ctypes.c_double * 3)(*v), ctypes.byref(o))
    return o.value


def ncentre(f, w, n, p):
    a, b = ctypes.c_double(-9), ctypes.c_double(-9)
    nfun(lib(), nm(f, w), None, L, L, ctypes.POINTER(ctypes.c_double), ctypes.POINTER(ctypes.c_double))(n, p, ctypes.byref(a), ctypes.byref(b))
    return a.value, b.value


def nvec(f, w, n, p):
    v = (ctypes.c_double * 3)()
    nfun(lib(), nm(f, w), None, L, L, ctypes.POINTER(ctypes.c_double))(n, p, v)
    return list(v)


# ---------------------------------------------------------------- ring geometry (independent formulae)

REG = ('north cap', 'belt', 'south cap')


def ring_pix(n, reg, i, k):
    """index of the k-th (from 0) pixel of ring i of a region, as a polynomial; works for ints and nodes"""
    m = lambda a, b: sym.mul(a, b) if isn(a) or isn(b) else a * b
    if reg == 0: return m(m(2, i), i) - m(2, i) + k if isn(i) else 2 * i * (i - 1) + k
    if reg == 1: return 2 * n * (n - 1) + (i - n) * (4 * n) + k
    return 12 * n * n - m(m(2, i), i) - m(2, i) + k if isn(i) else 12 * n * n - 2 * i * (i + 1) + k


def ring_of(n, p):
    """(region, ring, k) of an index"""
    c = 2 * n * (n - 1)
    if p < c:
        i = (1 + math.isqrt(1 + 2 * p)) // 2
        return 0, i, p - 2 * i * (i - 1)
    if p < 12 * n * n - c: return 1, n + (p - c) // (4 * n), (p - c) % (4 * n)
    q = 12 * n * n - 1 - p
    i = (1 + math.isqrt(1 + 2 * q)) // 2
    return 2, i, p - (12 * n * n - 2 * i * (i + 1))


def centre(n, p):
    """z, phi of a ring index"""
    r, i, k = ring_of(n, p)
    if r == 0: return 1 - i * i / (3. * n * n), (k + .5) * PI / 2 / i, i / n * math.sqrt((2 - i * i / (3. * n * n)) / 3.)
    if r == 2: return i * i / (3. * n * n) - 1, (k + .5) * PI / 2 / i, i / n * math.sqrt((2 - i * i / (3. * n * n)) / 3.)
    z = (2 * n - i) * 2 / (3. * n)
    return z, (k + (0 if (i + n) & 1 else .5)) * PI / 2 / n, math.sqrt(1 - z * z)


def interesting(rnd, n):
    """an index of the sphere, often at the edge of a ring or of a region"""
    N = 12 * n * n
    c = 2 * n * (n - 1)
    x = rnd.random()
    if x < .15: p = rnd.choice([0, 1, 2, 3, 4, N - 1, N - 2, N - 4, N - 5, c, c - 1, c + 1, N - c, N - c - 1, N - c + 1, N // 2, N // 2 - 1])
    elif x < .55:
        i = rnd.choice([1, 2, 3, n - 1, n - 2, rnd.randrange(1, n + 1), 1 << rnd.randrange(0, max(1, n.bit_length()))])
        i = max(1, min(i, n))
        r = rnd.choice([0, 2])
        p = (2 * i * (i - 1) if r == 0 else N - 2 * i * (i + 1)) + rnd.choice([0, 1, -1, 2, 4 * i - 1, 4 * i, i, 2 * i, 3 * i, i - 1])
    elif x < .75:
        p = c + 4 * n * rnd.randrange(0, 2 * n + 1) + rnd.choice([0, 1, -1, n, 2 * n, 4 * n - 1])
    else: p = rnd.randrange(N)
    return min(max(p, 0), N - 1)


def width(rnd, n=None):
    w = rnd.choice([32, 64])
    return w, 1 << (rnd.randrange(14) if w == 32 else rnd.randrange(30))


def nat(C, name, draw, test, seconds):
    import time
    t = time.time() + min(seconds, max(1, C.left()))
    while time.time() < t and not C.viol:
        e = draw(C.rnd)
        for _ in range(20):
            C.validated += 1
            w = test(e)
            if w:
                C.violation(name, 'replayed: ' + w, repr(e))
                break
            e = draw(C.rnd)


# ---------------------------------------------------------------- symbolic side

class Env:
    """the public functions of one width and resolution, nested codes taken apart by tokens (the code itself is decided by CBMC in H01)"""
    def __init__(self, R, w, n):
        self.R, self.w, self.n = R, w, n
        self.tok = {}
        self.hints = []
        self.nt = 0
        R.stubs = dict(R.stubs)
        R.stubs[nm('xyf2nest', w)] = self.enc
        R.stubs[nm('nest2xyf', w)] = self.dec
        R.stubs['sqrt'] = self.sqrt
        R.stubs['llvm.sqrt.f64'] = self.sqrt
        self.xyf = []
        self.geo = None
        self.rules = []
        R.f_fmul, R.f_fdiv, R.f_fsub, R.f_fadd = self.fmul, self.fdiv, self.fsub, self.fadd
        for f in ('sin', 'cos', 'acos', 'atan2'): R.stubs[f] = getattr(self, f)

    def reset(self):
        self.tok = {}
        self.nt = 0
        self.xyf = []
        self.ns = 0
        self.geo = None
        self.rules = []

    def enc(self, rt, ns, ix, iy, f):
        self.nt += 1
        v = sym.var('nest%d' % self.nt, 0, 12 * self.n * self.n - 1, True)
        self.tok[v.id] = (ix, iy, f)
        self.xyf.append((ix, iy, f))
        return v

    def dec(self, rt, ns, pix, px, py, pf):
        t = self.tok.get(pix.id) if isn(pix) else None
        if t is None: raise rtm.Unsupported('nested index not made by the code under test')
        for p, v in zip((px, py, pf), t):
            rt.store(p, 4, v, 'i32')

    # products are distributed over sums, coefficients within rounding noise of a half integer are taken as that, and tau*w is replaced by its definition
    def fix(self, x):
        if not isn(x): return x
        c, d = sym._term(x)
        o = 0
        for n, k in d.items():
            h = round(2 * float(k))
            if h and abs(k - sym.Fr(h, 2)) <= sym.Fr(1, 10 ** 13) * abs(k): k = sym.Fr(h, 2)
            o = sym.add(o, sym.scale(n, k))
        h = round(2 * float(c))
        if c and abs(c - sym.Fr(h, 2)) <= sym.Fr(1, 10 ** 13) * max(1, abs(c)): c = sym.Fr(h, 2)
        return sym.add(o, int(c) if c.denominator == 1 else c) if c else o

    def terms(self, x):
        c, d = sym._term(x)
        return [(sym.Fr(c), None)] * bool(c) + [(k, n) for n, k in d.items()]

    def fmul(self, a, b):
        R = self.R
        if not isn(a) or not isn(b) or not (a.k == 'lin' or b.k == 'lin' or self.rules): return R.flo(self.fix(rtm.RT.f_fmul(R, a, b)))
        o = 0
        for ka, na in self.terms(a):
            for kb, nb in self.terms(b):
                t = na if nb is None else nb if na is None else sym.mul(na, nb)
                hit = False
                for tau, w, num, full in self.rules:
                    _, f = sym._factors(t) if isn(t) else (1, {})
                    if f.get(tau) == 1 and f.get(w) == 1:
                        f = dict(f)
                        del f[tau], f[w]
                        t = num if not f else sym.mul(num, sym.mk_prod(sym.Fr(1), f))
                        hit = True
                    elif t is w and full is not None and (self.has(a, tau) or self.has(b, tau)):
                        t = full
                o = sym.add(o, ka * kb if t is None else sym.scale(t, ka * kb))
        return self.fix(R.flo(o))

    def has(self, x, tau):
        return any(n is not None and tau in sym._factors(n)[1] for _, n in self.terms(x))

    def fdiv(self, a, b):
        R = self.R
        if isn(a) and isn(b) and a.k == 'lin':
            for tau, w, num, full in self.rules:
                if b is w and full is None:
                    # (c w + num) / w = c + tau
                    _, d = sym._term(a)
                    for k, n in self.terms(sym.sub(a, sym.scale(w, d.get(w, 0)))):
                        pass
                    rest = sym.sub(a, sym.scale(w, d.get(w, 0)))
                    q = None
                    if isn(rest) and isn(num):
                        c1, d1 = sym._term(rest)
                        c2, d2 = sym._term(num)
                        n = next(iter(d2))
                        if n in d1:
                            q = d1[n] / d2[n]
                            if not sym.is_zero(self.fix(sym.sub(rest, sym.scale(num, q)))): q = None
                    if q is not None: return self.fix(sym.add(sym.scale(tau, q), d.get(w, 0)))
        return R.flo(self.fix(rtm.RT.f_fdiv(R, a, b)))

    def fsub(self, a, b): return self.R.flo(self.fix(rtm.RT.f_fsub(self.R, a, b)))
    def fadd(self, a, b): return self.R.flo(self.fix(rtm.RT.f_fadd(self.R, a, b)))

    def same(self, x, y):
        """identity of two expressions, recognised at twelve points"""
        import random
        r = random.Random(5)
        for _ in range(12):
            e = {v: r.uniform(1, max(1.001, self.n * .99)) for v in self.geo['vars']}
            e[self.geo['r'].a] = sym.evalf(self.geo['rdef'], e) ** .5
            try:
                u, v = sym.evalf(x, dict(e)), sym.evalf(y, dict(e))
            except Exception:
                return False
            if not abs(u - v) <= 1e-9 * max(abs(u), abs(v)): return False
        return True

    def setgeo(self, w, south):
        """cap geometry: |z| = 1 - w^2/(3 n^2); sine w/n r with r = sqrt((1+|z|)/3)"""
        n = self.n
        t = sym.scale(sym.mul(w, w), sym.Fr(1, 3 * n * n))
        za = sym.sub(1, t)
        r = sym.var('rr', math.sqrt(5 / 9.) - 1e-9, math.sqrt(2 / 3.) + 1e-9)
        self.geo = dict(w=w, za=za, z=sym.scale(za, -1) if south else za, S=sym.scale(sym.mul(w, r), sym.Fr(1, n)), r=r, rdef=sym.scale(sym.add(1, za), sym.Fr(1, 3)), vars=[w.a], t=t)

    def sin(self, rt, x):
        g = self.geo
        if g and isn(x) and (x is g.get('theta') or x.k == 'fn' and x.a[0] == 'acos'): return g['S']
        return sym.fsin(x)

    def cos(self, rt, x):
        g = self.geo
        if g and isn(x) and x is g.get('theta'): return g['z']
        return sym.fcos(x)

    def acos(self, rt, x):
        return rtm.m_acos(rt, x)

    def atan2(self, rt, y, x):
        g = self.geo
        if g and isn(y) and isn(x) and y is g['S'] and self.same(x, g['z']): return sym.facos(x)
        return rtm.m_atan2(rt, y, x)

    def sqrt(self, rt, x):
        g = self.geo
        if g and isn(x) and not (sym.isn(sym.sub(x, .5)) and sym.sub(x, .5).isint):
            if self.same(x, g['rdef']): return g['r']
            if self.same(x, sym.mul(g['t'], sym.sub(2, g['t']))): return g['S']
            if self.same(x, sym.scale(g['t'], 3)): return sym.scale(g['w'], sym.Fr(1, self.n))
        if not isn(x) or not self.hints or not isn(sym.sub(x, .5)) or not sym.sub(x, .5).isint:
            return rtm.m_sqrt(rt, x)
        self.ns += 1
        t = sym.var('frac%d' % self.ns, 0, .9999999)
        for j, k in enumerate(self.hints):
            k2 = sym.mul(k, k)
            big = self.n >= 1 << 23 and self.w == 64
            # possible integer parts: k^2 <= x < (k+1)^2, with slack for the rounding of large arguments
            sl = sym.scale(sym.add(sym.add(k2, sym.scale(k, 2)), 1), 3 * 2. ** -53) if big else 0
            c = sym.cand(sym.ge(sym.add(x, sl), k2), sym.lt(sym.sub(x, sl), sym.add(sym.add(k2, sym.scale(k, 2)), 1)))
            if c is False: continue
            coin = sym.var('coin%d_%d' % (self.ns, j), 0, 1, True)
            if j == len(self.hints) - 1 or rt.branch(sym.eq(coin, 1)):
                rt.assume(c)
                return sym.add(k, t)
        raise rtm.Infeasible()

    def out(self, name='o', n=1):
        return Ptr(self.R.new(name, 8 * n), 0)

    def conv(self, f, p):
        o = self.out()
        self.R.call(nm(f, self.w), (self.n, p, o))
        return self.R.load(o, 8, 'i64')

    def near(self, r, i):
        """integer roots the ring number of a cap can come from"""
        self.hints = [] if r == 1 else [sym.add(sym.scale(i, 2), d) for d in (-2, -1, 0, 1)]


def params(n, reg, bc=None):
    if reg == 1:
        b, c = bc[:2]
        if len(bc) > 2: return [Inp('d', 0, n - 1, (0, 1, n - 1), isint=True)]
        return [Inp('a%d' % b, 0, n if b == 0 else n - 1, (0, 1, n, n - 1), isint=True), Inp('d', 0, n - 1, (0, 1, n - 1), isint=True)]
    if bc: return [Inp('ring', 1, n - 1, (1, 2, n - 1, n - 2), isint=True), Inp('d', 0, max(0, n - 2), (0, 1, n - 2), isint=True)]
    hi = {0: n - 1, 1: 3 * n, 2: n}[reg]
    lo = n if reg == 1 else 1
    if reg == 0 and hi < lo: return None
    return [Inp('ring%d' % reg, lo, hi, (lo, lo + 1, hi, hi - 1), isint=True),
            Inp('k', 0, 4 * n - 1, (0, 1, n, n - 1, 4 * n - 1, 4 * n - 2), isint=True)]


def clampk(n, reg, e, bc=None):
    if bc and reg != 1:
        i = min(max(int(round(e['ring'])), 1), max(1, n - 1))
        return i, bc[1] * i + min(max(int(round(e['d'])), 0), i - 1)
    if reg == 1:
        b, c = bc[:2]
        a, d = bc[2] if len(bc) > 2 else int(round(e['a%d' % b])), int(round(e['d']))
        return n + 2 * min(max(a, 0), n - b) + b, c * n + min(max(d, 0), n - 1)
    if reg == 1: raise KeyError(reg)
    i, k = int(round(e['ring%d' % reg])), int(round(e['k']))
    i = min(max(i, 1), n - 1 if n > 1 else 1)
    lim = 4 * n if reg == 1 else 4 * i
    return i, min(max(k, 0), lim - 1)


def start(E, reg, inps, bc=None):
    """symbolic pixel of a region with its constraints on the path; belt: ring n + 2a + b, position c n + d"""
    R, n = E.R, E.n
    i, k = [x.node() for x in inps] if len(inps) > 1 else (bc[2], inps[0].node())
    E.reset()
    if reg != 1 and bc:
        R.assume(sym.le(k, sym.sub(i, 1)))
        k = sym.add(sym.scale(i, bc[1]), k)
    elif reg == 1:
        i, k = sym.add(sym.scale(i, 2), n + bc[0]) if isn(i) else n + 2 * i + bc[0], sym.add(k, bc[1] * n) if isn(k) else k + bc[1] * n
    if reg != 1 and not bc: R.assume(sym.le(k, sym.sub(sym.scale(i, 4), 1)))
    if reg == 2 and n > 1: R.assume(sym.le(i, n - 1))
    E.near(reg, i)
    return i, k, ring_pix(n, reg, i, k)


def regions(n):
    for reg in range(3):
        if n == 1 and reg in (0, 2): continue
        for bc in [(b, c) for b in (0, 1) for c in range(4)] if reg == 1 else [None]:
            yield reg, bc


def eqn(a, b):
    return sym.eq(a, b) if isn(a) or isn(b) else a == b


def inr(x, lo, hi):
    return sym.cand(sym.ge(x, lo), sym.le(x, hi)) if isn(x) else lo <= x <= hi


# ---------------------------------------------------------------- H01

def test_bij(e):
    w, n, p = e
    N = 12 * n * n
    q = n2('nest2ring', w, n, p)
    if not 0 <= q < N: return '%s(%d, %d) = %d, outside the sphere' % (nm('nest2ring', w), n, p, q)
    b = n2('ring2nest', w, n, q)
    if b != p: return '%s(%d, %d) = %d, back with ring2nest: %d' % (nm('nest2ring', w), n, p, q, b)
    q = n2('ring2nest', w, n, p)
    if not 0 <= q < N: return '%s(%d, %d) = %d, outside the sphere' % (nm('ring2nest', w), n, p, q)
    b = n2('nest2ring', w, n, q)
    if b != p: return '%s(%d, %d) = %d, back with nest2ring: %d' % (nm('ring2nest', w), n, p, q, b)
    return None


def draw_bij(rnd):
    w, n = width(rnd)
    return w, n, interesting(rnd, n)


def test_np2(e):
    w, n, p = e
    for f in ('nest2ring', 'ring2nest'):
        r = n2(f, w, n, p)
        if r != -1: return '%s(%d, %d) = %d for a resolution that is not a power of two' % (nm(f, w), n, p, r)
    return None


def draw_np2(rnd):
    w = rnd.choice([32, 64])
    while 1:
        n = rnd.choice([rnd.randrange(3, 64), rnd.randrange(3, 8192), (1 << rnd.randrange(2, 13 if w == 32 else 29)) + rnd.choice([1, -1, 2, 3]), 3 << rnd.randrange(0, 12)])
        if n & (n - 1) and n > 0: return w, n, rnd.randrange(12 * n * n)


CODE = '''#include "chealpix.c"
@T nondet_pix(void);
int main(void)
{
  @T n = (@T)1 << K, p = nondet_pix(), q; int x = -1, y = -1, f = -1;
  __CPROVER_assume( p >= 0 && p < 12 * n * n);
  nest2xyf@S( n, p, &x, &y, &f);
  __CPROVER_assert( f >= 0 && f < 12 && x >= 0 && x < n && y >= 0 && y < n, "coordinates inside the face");
  q = xyf2nest@S( n, x, y, f);
  __CPROVER_assert( q == p, "nested code inverse");
  return 0;
}
'''
NP2 = '''#include "chealpix.h"
long nondet_long(void);
int main(void)
{
  long n = nondet_long(), p = nondet_long(), o = 5; int k, pw = 0;
  __CPROVER_assume( n > 0);
  for( k = 0; k < 63; k++) if( n == 1L << k) pw = 1;
  __CPROVER_assume( !pw);
  @F( n, p, &o);
  __CPROVER_assert( o == -1, "not a power of two is reported");
  return 0;
}
'''


def ringfam(C, w, n):
    R = fw.new_rt(['chealpix'], 'hpx')
    for reg, bc in regions(n):
        E = Env(R, w, n)
        inps = params(n, reg, bc)

        def entry(reg=reg, bc=bc, inps=inps, E=E):
            i, k, p = start(E, reg, inps, bc)
            q = E.conv('ring2nest', p)
            if not E.xyf: raise rtm.Unsupported('nested code not made by xyf2nest')
            x, y, f = E.xyf[-1]
            b = E.conv('nest2ring', q)
            return p, x, y, f, b

        def goals(p):
            v, x, y, f, b = p.ret
            yield 'face coordinates', sym.cand(inr(x, 0, n - 1), inr(y, 0, n - 1), inr(f, 0, 11))
            yield 'round trip', eqn(b, v)

        def replay(e, reg=reg, bc=bc):
            i, k = clampk(n, reg, e, bc)
            return test_bij((w, n, ring_pix(n, reg, i, k)))
        fw.fn_check(C, 'ring2nest%s nside %d %s' % ('64' if w == 64 else '', n, REG[reg] + ' ' + ''.join(map(str, bc)) if bc else REG[reg]), R, entry, inps, goals, replay, validate=2, tries=300, timeout=10000)


def H01(C):
    C.assume(SQRT, 'ring part decided in integer arithmetic with ring and position in ring as unknowns; nested code (bit interleaving) decided by CBMC; both one-sided inverses between finite sets of 12 nside^2 elements, hence bijections')
    C.bound('every pixel of the resolutions listed in the obligations (powers of two, 1..8192 for the 32-bit and 1..2^29 for the 64-bit functions); all positive resolutions that are not powers of two')
    prepare()
    A = sorted(N32 if T else Q32)
    B = sorted(N64 if T else Q64)
    J = []
    for w in (32, 64):
        for k in (range(0, 14) if w == 32 else range(0, 30)):
            if not T and (1 << k) not in (Q32 if w == 32 else Q64): continue
            t = 'int' if w == 32 else 'int64_t'
            H = CODE.replace('@T', t).replace('@S', '64' if w == 64 else '')
            J.append(('code %d 2^%d' % (w, k), lambda C, H=H, k=k, w=w: fw.cb(
                C, 'nested code %d bit, nside 2^%d' % (w, k), H, [], lambda e, w=w, k=k: test_bij((w, 1 << k, e['p'])) if 0 <= e['p'] < 12 << 2 * k else None,
                scalars=('p',), draw=lambda r, k=k: dict(p=interesting(r, 1 << k)), defs=('K=%d' % k,), unwind=2, checks=False, seconds=4, timeout=200)))
        for f in ('nest2ring', 'ring2nest'):
            J.append(('np2 %s %d' % (f, w), lambda C, f=f, w=w: fw.cb(
                C, 'not a power of two: ' + nm(f, w), NP2.replace('@F', nm(f, w)), ['chealpix'], lambda e, w=w: test_np2((w, e['n'], e['p'])) if e['n'] > 0 and e['n'] & (e['n'] - 1) and e['n'] < 1 << 14 and 0 <= e['p'] < 12 * e['n'] ** 2 else None,
                scalars=('n', 'p'), draw=lambda r, w=w: (lambda x: dict(n=x[1], p=x[2]))(draw_np2(r)), unwind=65, checks=False, seconds=4, timeout=200, opts=('--slice-formula',))))
        for n in (A if w == 32 else B):
            J.append(('ring %d %d' % (w, n), lambda C, w=w, n=n: ringfam(C, w, n)))
    J.append(('native', lambda C: nat(C, 'bijection', draw_bij, test_bij, 4)))
    J.append(('native np2', lambda C: nat(C, 'not a power of two', draw_np2, test_np2, 1)))
    fw.par(C, J)


# ---------------------------------------------------------------- H04

def test_npix(e):
    w, v = e
    r = nfun(lib(), nm('npix2nside', w), L, L)(v)
    s = math.isqrt(v // 12)
    want = s if 12 * s * s == v else -1
    if r != want: return '%s(%d) = %d, expected %d' % (nm('npix2nside', w), v, r, want)
    if want > 0:
        m = nfun(lib(), nm('nside2npix', w), L, L)(s)
        if m != v: return '%s(%d) = %d, expected %d' % (nm('nside2npix', w), s, m, v)
    return None


def draw_npix(rnd):
    w = rnd.choice([32, 64])
    hi = 8192 if w == 32 else 1 << 29
    s = rnd.choice([rnd.randrange(1, hi + 1), rnd.randrange(1, min(hi, 100)), 1 << rnd.randrange(hi.bit_length()), int(math.exp(rnd.uniform(0, math.log(hi))))])
    if w == 64 and rnd.random() < .4: s = min(hi, max(1, int(2 ** rnd.uniform(23, 29)) + rnd.randrange(-3, 3)))
    return w, max(1, 12 * s * s + rnd.choice([0, 0, 0, 1, -1, 12, -12, 6, -6, 11, rnd.randrange(-1000, 1000)]))


def H04(C):
    C.assume(SQRT)
    C.bound('nside 1..8192 (32-bit functions) and 1..2^29 (64-bit functions), all values; every positive pixel count up to 12*8192^2 and 12*2^58')
    prepare()

    def fam(C, w):
        R = fw.new_rt(['chealpix'], 'hpx')
        hi = 8192 if w == 32 else 1 << 29
        n = Inp('n', 1, hi, (1, 2, hi, hi - 1, 3, 94906267, 94906265), isint=True)
        d = Inp('d', 0, 24 * hi + 11, (0, 1, 11, 12, 23, 24 * hi), isint=True)
        E = Env(R, w, hi)

        def entry():
            a, b = n.node(), d.node()
            E.reset()
            E.hints = [sym.add(a, j) for j in (-1, 0, 1)]
            R.assume(sym.le(b, sym.add(sym.scale(a, 24), 11)))
            np = sym.add(sym.mul(sym.mul(12, a), a), b)
            # the pixel count of the code
            m = R.call(nm('nside2npix', w), (a,))
            if R.branch(sym.eq(b, 0)):
                return m, sym.mul(sym.mul(12, a), a), R.call(nm('npix2nside', w), (m,)), a
            return m, sym.mul(sym.mul(12, a), a), R.call(nm('npix2nside', w), (np,)), -1

        def goals(p):
            m, wm, r, wr = p.ret
            yield 'nside2npix', eqn(m, wm)
            yield 'npix2nside', eqn(r, wr)

        def replay(e):
            a, b = int(e['n']), min(int(e['d']), 24 * int(e['n']) + 11)
            return test_npix((w, 12 * a * a + b)) or test_npix((w, 12 * a * a))
        fw.fn_check(C, 'pixel count %d bit' % w, R, entry, [n, d], goals, replay, timeout=15000)
    fw.par(C, [('32', lambda C: fam(C, 32)), ('64', lambda C: fam(C, 64)), ('native', lambda C: nat(C, 'pixel count', draw_npix, test_npix, 4))])


# ---------------------------------------------------------------- H02

def edge_distance(n, t, p):
    """how far a direction is from the pixel edges (in pixel units)"""
    z, tt = math.cos(t), math.fmod(p, 2 * PI) / (PI / 2) % 4
    if abs(z) <= 2 / 3.:
        a = [n * (.5 + tt - .75 * z), n * (.5 + tt + .75 * z)]
    else:
        tp = tt - int(tt)
        s = n * math.sin(t) / math.sqrt((1 + abs(z)) / 3)
        a = [tp * s, (1 - tp) * s]
        if min(tp, 1 - tp) < 1e-12 * n: return 0
    return min([abs(x - round(x)) for x in a] + [abs(abs(z) - 2 / 3.) * n])


def spec_ring(n, t, p):
    """ring index of a direction, from the definition"""
    z, tt = math.cos(t), math.fmod(p, 2 * PI) / (PI / 2) % 4
    if abs(z) <= 2 / 3.:
        jp, jm = math.floor(n * (.5 + tt - .75 * z)), math.floor(n * (.5 + tt + .75 * z))
        i = n + 1 + jp - jm
        k = (jp + jm - n + (1 - (i & 1)) + 1) // 2 % (4 * n)
        return 2 * n * (n - 1) + (i - 1) * 4 * n + k
    tp = tt - int(tt)
    s = n * math.sin(t) / math.sqrt((1 + abs(z)) / 3)
    i = int(tp * s) + int((1 - tp) * s) + 1
    k = int(tt) * i + int(tp * s)
    return 2 * i * (i - 1) + k if z > 0 else 12 * n * n - 2 * i * (i + 1) + k


def test_dir(e):
    w, n, t, p = e
    N = 12 * n * n
    a = napix('ang2pix_ring', w, n, t, p)
    b = napix('ang2pix_nest', w, n, t, p)
    v = [math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)]
    c = nvpix('vec2pix_ring', w, n, v)
    d = nvpix('vec2pix_nest', w, n, v)
    for f, x in (('ang2pix_ring', a), ('ang2pix_nest', b), ('vec2pix_ring', c), ('vec2pix_nest', d)):
        if not 0 <= x < N: return '%s(%d, %r, %r) = %d, outside 0..%d' % (nm(f, w), n, t, p, x, N - 1)
    if n > 1 << 22 or edge_distance(n, t, p) < 1e-5 + n * 1e-13 * (1 + abs(p)): return None
    s = spec_ring(n, t, p)
    if a != s: return '%s(%d, %r, %r) = %d, the pixel of that direction is %d' % (nm('ang2pix_ring', w), n, t, p, a, s)
    if n2('nest2ring', w, n, b) != a: return '%s(%d, %r, %r) = %d, in ring numbering %d, but ang2pix_ring gives %d' % (nm('ang2pix_nest', w), n, t, p, b, n2('nest2ring', w, n, b), a)
    if edge_distance(n, t, p) > 1e-3 and n < 1 << 20:
        if c != a: return '%s of (%r, %r) is %d, ang2pix_ring %d (nside %d)' % (nm('vec2pix_ring', w), t, p, c, a, n)
        if d != b: return '%s of (%r, %r) is %d, ang2pix_nest %d (nside %d)' % (nm('vec2pix_nest', w), t, p, d, b, n)
        for q in (p + 2 * PI, p - 2 * PI):
            x = napix('ang2pix_ring', w, n, t, q)
            if x != a: return '%s(%d, %r, %r) = %d, a whole turn away from longitude %r: %d' % (nm('ang2pix_ring', w), n, t, q, x, p, a)
    return None


def draw_dir(rnd):
    w, n = width(rnd)
    x = rnd.random()
    t = rnd.choice([0, PI, PI / 2, math.acos(2 / 3.), math.acos(-2 / 3.)]) if x < .25 else math.acos(rnd.uniform(-1, 1)) if x < .8 else rnd.choice([0, PI]) + 10 ** rnd.uniform(-9, -.5) * rnd.choice([-1, 1])
    p = rnd.choice([0, PI / 2, PI, 1.5 * PI, 2 * PI, -PI, -1e-18, -1e-10, 4 * PI, -2 * PI, math.nextafter(2 * PI, 0)]) if rnd.random() < .3 else rnd.uniform(-20, 20) if rnd.random() < .5 else rnd.uniform(0, 2 * PI)
    if rnd.random() < .2: t, p = t + rnd.choice([-1, 1]) * 1e-15, p + rnd.choice([-1, 1]) * 1e-15
    return w, n, min(max(t, 0), PI), p


EDGE = 1e-6


def beltfam(C, w, n):
    """|z| <= 2/3: directions at least EDGE of a pixel inside the pixel between the edges jp, jp + 1 (rising) and jm, jm + 1 (falling),
    with A = n (1/2 + tt - 3/4 z), B = n (1/2 + tt + 3/4 z), tt the longitude in quarters; jp = n ap + 2 x + pp, jm = n am + 2 y + pm"""
    R = fw.new_rt(['chealpix'], 'hpx')
    e = EDGE
    for j, (ap, am, pp, pm) in enumerate((ap, am, pp, pm) for ap in range(5) for am in range(5) if abs(ap - am) < 2 for pp in (0, 1) for pm in (0, 1)):
        if n == 1 and pp + pm or n == 2 and (ap + am == 0 and pp + pm == 0 or (pp, pm) == (int(ap > am), int(ap < am)) and ap != am or ap + am == 8 and pp + pm == 2): continue   # outside the belt
        hi = max(0, n // 2 - 1)
        inps = [Inp('x', 0, hi, (0, 1, hi), isint=True), Inp('y', 0, hi, (0, 1, hi), isint=True), Inp('f', e, 1 - e), Inp('g', e, 1 - e)]
        turn = (0, 4, -4, 396, -400)[j % 5]
        E = Env(R, w, n)

        def entry(E=E, inps=inps, ap=ap, am=am, pp=pp, pm=pm, turn=turn):
            E.reset()
            x, y, f, g = [v.node() for v in inps]
            jp, jm = sym.add(sym.scale(x, 2), n * ap + pp), sym.add(sym.scale(y, 2), n * am + pm)
            if n == 1: jp, jm = ap, am
            A, B = sym.add(f, jp), sym.add(g, jm)
            tt = sym.sub(sym.scale(sym.add(A, B), sym.Fr(1, 2 * n)), .5)
            z = sym.scale(sym.sub(B, A), sym.Fr(2, 3 * n))
            d = sym.sub(B, A)
            for c in (sym.ge(tt, 1e-12), sym.le(tt, 4 - 1e-12), sym.ge(d, -n + e), sym.le(d, n - e)): R.assume(c)
            th = sym.var('theta', 0, PI)
            E.geo = dict(theta=th, z=z, S=sym.var('sinth', .7, 1), belt=True)
            i = n + 1 + ap * n + pp - am * n - pm
            s = 1 - i % 2
            o = s + 1 - n - (pp + pm + s + 1 - n) % 2
            k = sym.scale(sym.add(sym.add(jp, jm), o), sym.Fr(1, 2)) if isn(jp) else (jp + jm + s + 1 - n) // 2
            ring = sym.add(sym.sub(jp, jm), n + 1) if isn(jp) else jp - jm + n + 1
            return both(E, w, n, th, sym.scale(sym.add(tt, turn), PI / 2)) + (ring, k)

        def goals(p):
            if p.ret is None:
                yield 'ends normally', False
                return
            for g in dirgoals(n, None)(Cut(p)): yield g
            a, ring, k = p.ret[0], p.ret[3], p.ret[4]
            q = sym.sub(a, sym.add(sym.scale(sym.sub(ring, 1), 4 * n), 2 * n * (n - 1))) if isn(a) or isn(ring) else a - (ring - 1) * 4 * n - 2 * n * (n - 1)
            d = sym.sub(q, k) if isn(q) or isn(k) else q - k
            yield 'the pixel of the direction', sym.cand(inr(q, 0, 4 * n - 1), sym.cor(eqn(d, 0), eqn(d, 4 * n), eqn(d, -4 * n)))

        def replay(v, ap=ap, am=am, pp=pp, pm=pm, turn=turn):
            x, y = int(v['x']), int(v['y'])
            if n == 1: x = y = 0
            for f, g in ((v['f'], v['g']), (.5, .5), (.1, .9), (.9, .1), (.2, .2), (.8, .8)):
                A, B = n * ap + 2 * x + pp + f, n * am + 2 * y + pm + g
                tt, z = (A + B) / (2 * n) - .5, (B - A) * 2 / (3. * n)
                if not (0 <= tt < 4 and abs(z) <= 2 / 3.): continue
                t = test_dir((w, n, math.acos(z), (tt + turn) * PI / 2))
                if t: return t
            return None
        fw.fn_check(C, 'direction %d bit nside %d belt faces %d %d parities %d %d' % (w, n, ap, am, pp, pm), R, entry, inps, goals, replay, validate=2, tries=300, timeout=5000, max_paths=100, time_limit=20)


class Cut:
    def __init__(self, p): self.ret = p.ret[:3]


def both(E, w, n, t, p):
    """the direction looked up in both numberings: ring pixel, ring pixel of the nested pixel, place in the face"""
    R = E.R
    a, b = E.out('a'), E.out('b')
    R.call(nm('ang2pix_nest', w), (n, t, p, b))
    b = R.load(b, 8, 'i64')
    xyf = E.xyf[-1] if E.xyf else None
    if xyf is None: raise rtm.Unsupported('nested code not made by xyf2nest')
    R.call(nm('ang2pix_ring', w), (n, t, p, a))
    return R.load(a, 8, 'i64'), E.conv('nest2ring', b), xyf


def dirgoals(n, want):
    N = 12 * n * n

    def goals(p):
        if p.ret is None:
            yield 'ends normally', False
            return
        a, b, (x, y, f) = p.ret
        yield 'inside the sphere', inr(a, 0, N - 1)
        yield 'inside the face', sym.cand(inr(x, 0, n - 1), inr(y, 0, n - 1), inr(f, 0, 11))
        yield 'same pixel', eqn(a, b)
        if want is not None: yield 'the pixel of the direction', eqn(a, want)
    return goals


def pairs(n):
    """edges counted from the two sides of the quarter, of the cap pixels looked at"""
    if n <= (8 if T else 4): v = range(n)
    else: v = sorted({0, 1, n // 3, n // 2, n - 2, n - 1} | ({2, 3, n // 5, n // 7, n - 3} if T else set()))
    return [(a, b) for a in v for b in v if a + b < n]


def capfam(C, w, n):
    """|z| > 2/3: directions inside the pixel bounded by edges jp, jp+1 (from one side) and jm, jm+1 (from the other) of quarter q;
    with s = n sqrt(3 (1 - |z|)) the distance from the pole in rings, tau the place in the quarter, P = tau s, M = (1 - tau) s"""
    R = fw.new_rt(['chealpix'], 'hpx')
    for j, (jp, jm) in enumerate(pairs(n)):
        ring = jp + jm + 1
        # lemma: jp < tau ring < jp+1 follows from jp < P < jp+1, jm < M < jm+1, tau = P / (P + M); proved multiplied by P + M > 0
        tau = sym.var('tau', 1e-10, 1 - 1e-10)
        P, M = sym.var('P%d' % jp, jp + EDGE, jp + 1 - EDGE), sym.var('M%d' % jm, jm + EDGE, jm + 1 - EDGE)
        low = EDGE / 2
        bound = sym.cand(sym.ge(sym.scale(tau, ring), jp + low), sym.le(sym.scale(tau, ring), jp + 1 - low))
        pr, lo, hi = sym.scale(P, ring), sym.scale(sym.add(P, M), jp + low), sym.scale(sym.add(P, M), jp + 1 - low)
        st, _ = fw.z_prove([], sym.cand(sym.ge(pr, lo), sym.le(pr, hi)))
        C.ob('pixel edges %d %d' % (jp, jm), 'proved' if st == 'proved' else 'unknown')
        if st != 'proved': continue
        for south in (False, True):
            for q in range(4):
                turn = (0, 4, -4, 396, -400)[(j + q) % 5]
                u = Inp('u%d' % ring, max(jp + jm + 2 * EDGE, 1e-6), min(n * (1 - 1e-9), jp + jm + 2 - 2 * EDGE))
                if u.lo >= u.hi: continue
                E = Env(R, w, n)

                def entry(E=E, u=u, q=q, turn=turn, south=south):
                    E.reset()
                    s = u.node()
                    E.setgeo(s, south)
                    E.geo['theta'] = sym.var('theta', 0, PI)
                    E.rules = [(tau, s, P, sym.add(P, M))]
                    R.assume(bound)
                    R.assume(sym.eq(s, sym.add(P, M)))
                    return both(E, w, n, E.geo['theta'], sym.scale(sym.add(tau, q + turn), PI / 2))
                want = ring_pix(n, 2 if south else 0, ring, q * ring + jp) if ring < n else 2 * n * (n - 1) + (2 * n * 4 * n if south else 0) + q * n + jp

                def replay(e, q=q, turn=turn, south=south, u=u, jp=jp, jm=jm):
                    s = min(max(e[u.name], u.lo), u.hi)
                    lo, hi = max(jp, s - jm - 1) / s, min(jp + 1, s - jm) / s
                    if lo >= hi: return None
                    for f in (.5, .05, .95, .001, .999):
                        t = 2 * math.asin(min(1, s / n / math.sqrt(6)))
                        x = test_dir((w, n, PI - t if south else t, (lo + f * (hi - lo) + q + turn) * PI / 2))
                        if x: return x
                    return None
                fw.fn_check(C, 'direction %d bit nside %d %s cap quarter %d edges %d %d' % (w, n, 'south' if south else 'north', q, jp, jm), R, entry, [u], dirgoals(n, want), replay, validate=2, tries=300, timeout=5000, max_paths=60, time_limit=20)


def H02(C):
    C.assume(REALS)
    C.bound('all directions at least 1e-6 of a pixel away from the edges of their pixel, longitude in whole turns -100, -1, 0, 1, 99: every pixel of the belt, every cap pixel for nside <= 4, cap pixels at the ends and in the middle of rows for larger ones; nside 1..8192 (32 bit), 1..2^22 belt and 1..2^20 caps (64 bit), powers of two listed in the obligations')
    prepare()
    J = []
    for w in (32, 64):
        for n in (N32 if T else (1, 2, 4, 64, 8192)) if w == 32 else ([x for x in N64 if x <= 1 << 22] if T else (1, 8, 1024, 1 << 20)):
            J.append(('belt %d %d' % (w, n), lambda C, w=w, n=n: beltfam(C, w, n)))
            if n <= 1 << 20: J.append(('caps %d %d' % (w, n), lambda C, w=w, n=n: capfam(C, w, n)))
    J.append(('native', lambda C: nat(C, 'directions', draw_dir, test_dir, 6)))
    fw.par(C, J)


# ---------------------------------------------------------------- H03

def test_centre(e):
    w, n, p = e
    N = 12 * n * n
    t, f = ncentre('pix2ang_ring', w, n, p)
    z, ph, s = centre(n, p)
    # colatitude from sine and cosine: the 32-bit functions lose digits near the poles (acos of a value near 1)
    wt = math.atan2(s, z)
    tol = 1e-12 + (1e-15 / max(s, 1e-9) if w == 32 else 2e-14 if s > .14 else 0)
    if not (0 <= t <= PI and 0 <= f < 2 * PI): return '%s(%d, %d) = (%r, %r), outside the sphere' % (nm('pix2ang_ring', w), n, p, t, f)
    if abs(t - wt) > tol or abs(f - ph) > 1e-12: return '%s(%d, %d) = (%r, %r), the centre is (%r, %r)' % (nm('pix2ang_ring', w), n, p, t, f, wt, ph)
    v = nvec('pix2vec_ring', w, n, p)
    u = [math.sin(wt) * math.cos(ph), math.sin(wt) * math.sin(ph), math.cos(wt)]
    if max(abs(a - b) for a, b in zip(v, u)) > 1e-12 + tol: return '%s(%d, %d) = %r, the centre is %r' % (nm('pix2vec_ring', w), n, p, v, u)
    ok = n <= 8192 or (w == 64 and n <= 1 << 24)
    if ok:
        b = napix('ang2pix_ring', w, n, t, f)
        if b != p: return 'centre of ring pixel %d (nside %d) is looked up as %d (%d bit)' % (p, n, b, w)
        b = nvpix('vec2pix_ring', w, n, v)
        if b != p: return 'cartesian centre of ring pixel %d (nside %d) is looked up as %d (%d bit)' % (p, n, b, w)
    if n & (n - 1): return None
    q = n2('ring2nest', w, n, p)
    t2, f2 = ncentre('pix2ang_nest', w, n, q)
    if abs(t2 - t) > tol or abs(f2 - f) > 1e-12: return '%s(%d, %d) = (%r, %r), in ring numbering pixel %d has the centre (%r, %r)' % (nm('pix2ang_nest', w), n, q, t2, f2, p, t, f)
    v2 = nvec('pix2vec_nest', w, n, q)
    if max(abs(a - b) for a, b in zip(v2, u)) > 1e-12 + tol: return '%s(%d, %d) = %r, the centre is %r' % (nm('pix2vec_nest', w), n, q, v2, u)
    if ok:
        b = napix('ang2pix_nest', w, n, t2, f2)
        if b != q: return 'centre of nested pixel %d (nside %d) is looked up as %d (%d bit)' % (q, n, b, w)
        b = nvpix('vec2pix_nest', w, n, v2)
        if b != q: return 'cartesian centre of nested pixel %d (nside %d) is looked up as %d (%d bit)' % (q, n, b, w)
    return None


def draw_centre(rnd):
    w, n = width(rnd)
    if rnd.random() < .3: n = rnd.randrange(1, 8193)
    return w, n, interesting(rnd, n)


def rings(n):
    """rings of the caps looked at"""
    if n <= 16: return range(1, n)
    return sorted({1, 2, 3, n // 3, n // 2, n - 2, n - 1} | ({4, 5, 7, n // 7, n // 4, n // 2 + 1, 2 * n // 3, n - 3} if T else set()))


def cenfam(C, w, n):
    R = fw.new_rt(['chealpix'], 'hpx')
    pw = n & (n - 1) == 0
    for reg, bc in [(1, (b, c)) for b in (0, 1) for c in range(4) if b or n > 1] + [(1, (0, c, a)) for c in range(4) for a in (0, n)] + [(r, ('ring', i)) for r in (0, 2) for i in rings(n)]:
        E = Env(R, w, n)
        inps = params(n, reg, bc) if reg == 1 else [Inp('k%d' % bc[1], 0, 4 * bc[1] - 1, (0, bc[1], bc[1] - 1, 2 * bc[1], 3 * bc[1], 4 * bc[1] - 1), isint=True)]

        def centre_of(f, p, E=E):
            a, b = E.out('t'), E.out('f')
            R.call(nm(f, w), (n, p, a, b))
            return R.load(a, 8, 'double'), R.load(b, 8, 'double')

        def entry(reg=reg, bc=bc, inps=inps, E=E, centre_of=centre_of):
            if reg == 1: i, k, p = start(E, reg, inps, bc)
            else:
                i, k = bc[1], inps[0].node()
                E.reset()
                E.near(reg, i)
                p = ring_pix(n, reg, i, k)
            if reg == 1 and bc[0] == 0 and len(bc) == 2:
                # the rings at |z| = 2/3 apart
                a = inps[0].node()
                R.assume(sym.ge(a, 1))
                R.assume(sym.le(a, n - 1))
            t, f = centre_of('pix2ang_ring', p)
            q = E.conv('ring2nest', p) if pw else None
            t2, f2 = centre_of('pix2ang_nest', q) if pw else (t, f)
            E.hints = []
            a = E.out('a')
            R.call(nm('ang2pix_ring', w), (n, t, f, a))
            a = R.load(a, 8, 'i64')
            xyf = E.xyf[-1] if pw else None
            b = None
            if pw:
                b = E.out('b')
                R.call(nm('ang2pix_nest', w), (n, t2, f2, b))
                b = E.xyf[-1]
            half = 0
            return i, k, half, p, t, f, t2, f2, a, xyf, b

        def goals(p, reg=reg, bc=bc):
            if p.ret is None:
                yield 'ends normally', False
                return
            i, k, half, pix, t, f, t2, f2, a, xyf, b = p.ret
            if reg == 1:
                z = sym.scale(sym.sub(2 * n, i), 2 / (3. * n)) if isn(i) else (2 * n - i) * 2 / (3. * n)
                ph = sym.scale(sym.add(k, 0 if bc[0] else .5), PI / 2 / n)
            else:
                z = (1 - i * i / (3. * n * n)) * (-1 if reg == 2 else 1)
                ph = sym.scale(sym.add(k, .5), PI / 2 / i)
            yield 'colatitude', close(sym.fcos(t), z, 1e-13)
            yield 'longitude', close(f, ph, 1e-12)
            yield 'range', sym.cand(inr(t, 0, PI), sym.ge(f, 0), sym.lt(f, 2 * PI)) if isn(f) else inr(t, 0, PI)
            yield 'looked up again', eqn(a, pix)
            if pw:
                yield 'colatitude of both', close(sym.fcos(t2), sym.fcos(t), 1e-13)
                yield 'longitude of both', close(f2, f, 1e-12)
                yield 'nested looked up again', sym.cand(*[eqn(u, v) for u, v in zip(xyf, b)])

        def replay(e, reg=reg, bc=bc, inps=inps):
            i, k = clampk(n, reg, e, bc) if reg == 1 else (bc[1], min(max(int(round(e[inps[0].name])), 0), 4 * bc[1] - 1))
            return test_centre((w, n, ring_pix(n, reg, i, k)))
        fw.fn_check(C, 'centre %d bit nside %d %s' % (w, n, REG[reg] + ' ' + ''.join(map(str, bc)) if bc else REG[reg]), R, entry, inps, goals, replay, validate=3, tries=1000, timeout=10000, time_limit=60)


def H03(C):
    C.assume(REALS, SQRT)
    C.bound('every pixel of the resolutions listed in the obligations; polar rings: all of them up to nside 16, selected ones above')
    prepare()
    J = []
    for w in (32, 64):
        for n in (sorted(N32 + [3, 5, 6, 7, 10, 100, 1000, 5000]) if T else (1, 2, 3, 6, 16, 1024, 8192)) if w == 32 else (sorted([x for x in N64 if x <= 1 << 20] + [3, 5, 6, 7, 10, 100, 1000, 10 ** 6]) if T else (1, 2, 5, 64, 8192, 1 << 20)):
            J.append(('%d %d' % (w, n), lambda C, w=w, n=n: cenfam(C, w, n)))
    J.append(('native', lambda C: nat(C, 'centres', draw_centre, test_centre, 6)))
    fw.par(C, J)
