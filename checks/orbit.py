"""O-group: satellite propagation (sgp4.c, sdp4.c, deep.c, common.c)."""
import ctypes
import math
import os
import subprocess
import time

import build
import fw
import rt as rtm
import sym
import zs
from fw import Inp, close, nfun
from rt import Ptr, isn

T = fw.THOROUGH
PI = math.pi
UNITS = ['sgp4', 'sdp4', 'deep', 'common', 'basics']
REALS = 'numbers as real arithmetic; sine, cosine, arc tangent, powers and roots as functions of their arguments'
KM = 6378.135
KE = 0.0743669161331734132
J2, J3, J4 = 1.082616e-3, -2.53881e-6, -1.65597e-6
CK2, CK4, A3 = J2 / 2, -.375 * J4, -J3 / (J2 / 2)
RECS = ('bstar', 'xincl', 'xnodeo', 'eo', 'omegao', 'xmo', 'xno')

_off = None


def offs():
    global _off
    if _off is None:
        d = build.scratch()
        c = os.path.join(d, 'toff.c')
        f = ['epoch', 'xndt2o', 'xndd6o'] + list(RECS) + ['norad_number', 'bulletin_number', 'revolution_number', 'classification', 'ephemeris_type', 'intl_desig']
        open(c, 'w').write('#include <stdio.h>\n#include <stddef.h>\n#include "norad.h"\nint main(void){%sprintf("size %%zu\\nnpar %%d\\n",sizeof(tle_t),(int)N_SAT_PARAMS);return 0;}\n'
                           % ''.join('printf("%s %%zu\\n",offsetof(tle_t,%s));' % (x, x) for x in f))
        build.run(['gcc', '-w'] + build.INC() + [c, '-o', c[:-2]])
        _off = {a.split()[0]: int(a.split()[1]) for a in subprocess.check_output([c[:-2]]).decode().splitlines()}
    return _off


def lib():
    return fw.native_lib('orb', units=UNITS)


def prepare():
    offs()
    lib()
    fw.new_rt(UNITS, 'orb')


# ---------------------------------------------------------------- native side

class Sat:
    """an element set with its own parameter array"""
    def __init__(self, el, epoch=2458861.5, deep=False, fill=1e300):
        o = offs()
        self.tle = ctypes.create_string_buffer(o['size'] + 16)
        for k, v in dict(el, epoch=epoch, xndt2o=0., xndd6o=0.).items():
            ctypes.c_double.from_buffer(self.tle, o[k]).value = v
        self.tle[o['ephemeris_type']] = b'0'
        self.par = (ctypes.c_double * (o['npar'] + 4))(*[fill] * (o['npar'] + 4))
        self.m = 'SDP4' if deep else 'SGP4'
        nfun(lib(), self.m + '_init', None, ctypes.c_void_p, ctypes.c_void_p)(self.par, self.tle)

    def at(self, t, vel=True):
        p, v = (ctypes.c_double * 3)(7., 7., 7.), (ctypes.c_double * 3)(7., 7., 7.)
        r = nfun(lib(), self.m, ctypes.c_int, ctypes.c_double, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p)(t, self.tle, self.par, p, v if vel else None)
        return r, list(p), list(v)


# ---------------------------------------------------------------- the published theory, over numbers or symbolic reals

class Num:
    sin, cos, sqrt, pow, atan2, fabs = math.sin, math.cos, math.sqrt, math.pow, math.atan2, abs
    lt = staticmethod(lambda a, b: a < b)
    le = staticmethod(lambda a, b: a <= b)


def root(R, x):
    """square root where it is real"""
    if not isn(x): return rtm.m_sqrt(R, x)
    if x.lo < 0: R.assume(sym.ge(x, 0))
    return sym.fsqrt(x)


class Sy:
    """the same operations on the path of a run of the real code"""
    def __init__(self, R):
        self.R = R
        self.sin, self.cos = sym.fsin, sym.fcos
        self.sqrt = lambda x: root(R, x)
        self.pow = lambda x, y: rtm.m_pow(R, x, y)
        self.atan2 = lambda y, x: rtm.m_atan2(R, y, x)
        self.lt = lambda a, b: R.branch(sym.lt(a, b))
        self.le = lambda a, b: R.branch(sym.le(a, b))
        self.fabs = self.positive

    def positive(self, x):
        """the argument of the absolute value of the theory, 1 - eta^2, is positive for the orbits looked at"""
        self.R.assume(sym.gt(x, 0))
        return x


def theory_init(o, el):
    """coefficients of Spacetrack Report 3, SGP4"""
    bstar, i, e, w, M, n0 = el['bstar'], el['xincl'], el['eo'], el['omegao'], el['xmo'], el['xno']
    K = {}
    th = o.cos(i)
    th2 = th * th
    x3, b2 = 3. * th2 - 1., 1 - e * e
    b = o.sqrt(b2)
    a1 = o.pow(KE / n0, 2. / 3)
    k = 1.5 * CK2 * x3 / (b * b2)
    d1 = k / (a1 * a1)
    a0 = a1 * (1 - d1 * (1. / 3 + d1 * (1 + 134. / 81 * d1)))
    d0 = k / (a0 * a0)
    n, a = n0 / (1 + d0), a0 / (1 - d0)
    per = (a * (1 - e) - 1) * KM
    s, q4 = 1 + 78 / KM, ((120 - 78) / KM) ** 4
    K['regime'] = 'high'
    if o.lt(per, 156.):
        if o.le(per, 98.):
            s = 20.
        else:
            s = per - 78.
        q = (120. - s) / KM
        q4 = q * q * q * q
        s = s / KM + 1.
    p1 = 1. / (a * b2)
    p2 = p1 * p1
    x = 1. / (a - s)
    eta = a * e * x
    et2, ee = eta * eta, e * eta
    ps = o.fabs(1 - et2)
    cf = q4 * (x * x * x * x)
    cf1 = cf / o.pow(ps, 3.5)
    c2 = cf1 * n * (a * (1 + 1.5 * et2 + ee * (4 + et2)) + .75 * CK2 * x / ps * x3 * (8 + 3 * et2 * (8 + et2)))
    c1 = bstar * c2
    si = o.sin(i)
    c4 = 2 * n * cf1 * a * b2 * (eta * (2 + .5 * et2) + e * (.5 + 2 * et2) - 2 * CK2 * x / (a * ps) * (-3 * x3 * (1 - 2 * ee + et2 * (1.5 - .5 * ee)) + .75 * (1 - th2) * (2 * et2 - ee * (1 + et2)) * o.cos(2 * w)))
    th4 = th2 * th2
    t1 = 3 * CK2 * p2 * n
    t2 = t1 * CK2 * p2
    t3 = 1.25 * CK4 * p2 * p2 * n
    K['mdot'] = n + t1 * b * x3 / 2. + t2 * b * (13 - 78 * th2 + 137 * th4) / 16.
    K['wdot'] = -1 * t1 * (1 - 5 * th2) / 2. + t2 * (7 - 114 * th2 + 395 * th4) / 16. + t3 * (3 - 36 * th2 + 49 * th4)
    h1 = -1 * t1 * th
    K['ndot'] = h1 + (t2 * (4 - 19 * th2) / 2. + 2 * t3 * (3 - 7 * th2)) * th
    K['nodcf'] = 3.5 * b2 * h1 * c1
    K['t2'] = 1.5 * c1
    K.update(c1=c1, c4=c4, a=a, n=n, th=th, si=si, eta=eta)
    K['simple'] = simple = o.lt(a * (1 - e), 220. / KM + 1.)
    if not simple:
        c12 = c1 * c1
        dm = 1 + eta * o.cos(M)
        K['delmo'] = dm * dm * dm
        d2 = 4 * a * x * c12
        t = d2 * x * c1 / 3
        d3 = (17 * a + s) * t
        d4 = .5 * t * a * x * (221 * a + 31 * s) * c1
        K['t3'] = d2 + 2 * c12
        K['t4'] = .25 * (3 * d3 + c1 * (12 * d2 + 10 * c12))
        K['t5'] = .2 * (3 * d4 + 12 * c1 * d3 + 6 * d2 * d2 + 15 * c12 * (2 * d2 + c12))
        K.update(d2=d2, d3=d3, d4=d4, sinmo=o.sin(M))
        if o.lt(e, 1e-4):
            K['wcf'] = K['mcf'] = 0.
        else:
            c3 = cf * x * A3 * n * si / e
            K['mcf'] = -2. / 3 * cf * bstar / ee
            K['wcf'] = bstar * c3 * o.cos(w)
        K['c5'] = 2 * cf1 * a * b2 * (1 + 2.75 * (et2 + ee) + ee * et2)
    K['per'] = per
    return K


def theory_secular(o, el, K, t):
    """mean elements at the time: longitude, perigee, node, factor of the axis, eccentricity"""
    xm, w, nd = el['xmo'] + K['mdot'] * t, el['omegao'] + K['wdot'] * t, el['xnodeo'] + K['ndot'] * t
    t2 = t * t
    nd = nd + K['nodcf'] * t2
    ta, te, tl = 1 - K['c1'] * t, el['bstar'] * K['c4'] * t, K['t2'] * t2
    if not K['simple']:
        d = 1 + K['eta'] * o.cos(xm)
        d = K['mcf'] * (d * d * d - K['delmo'])
        d = d + K['wcf'] * t
        xm, w = xm + d, w - d
        t3 = t2 * t
        t4 = t3 * t
        ta = ta - K['d2'] * t2 - K['d3'] * t3 - K['d4'] * t4
        te = te + el['bstar'] * K['c5'] * (o.sin(xm) - K['sinmo'])
        tl = tl + K['t3'] * t3 + t4 * (K['t4'] + t * K['t5'])
    e = el['eo'] - te
    return xm + w + nd + K['n'] * tl, w, nd, ta, e


def theory_long(o, K, xl, w, a, e):
    th, si = K['th'], K['si']
    axn = e * o.cos(w)
    q = 1 / (a * (1 - e * e))
    xlt = xl + q * (.125 * A3 * si * (3 + 5 * th) / (1 + th)) * axn
    return xlt, axn, e * o.sin(w) + q * (.25 * A3 * si)


def theory_short(o, K, el, nd, a, axn, ayn, E):
    th, si, i = K['th'], K['si'], el['xincl']
    th2 = th * th
    x3, x1, x7 = 3. * th2 - 1., 1 - th2, 7. * th2 - 1.
    sE, cE = o.sin(E), o.cos(E)
    ec, es = axn * cE + ayn * sE, axn * sE - ayn * cE
    el2 = axn * axn + ayn * ayn
    t = 1 - el2
    pl, r = a * t, a * (1 - ec)
    q = a / r
    b = o.sqrt(t)
    g = es / (1 + b)
    cu, su = q * (cE - axn + ayn * g), q * (sE - ayn - axn * g)
    u = o.atan2(su, cu)
    s2, c2 = 2 * su * cu, 2 * cu * cu - 1
    k1 = CK2 / pl
    k2 = k1 / pl
    rk = r * (1 - 1.5 * k2 * b * x3) + .5 * k1 * x1 * c2
    uk = u - .25 * k2 * x7 * s2
    nk = nd + 1.5 * k2 * th * s2
    ik = i + 1.5 * k2 * th * si * c2
    rd, rf, n = KE * o.sqrt(a) * es / r, KE * o.sqrt(pl) / r, KE / (a * o.sqrt(a))
    rdk, rfk = rd - n * k1 * x1 * s2, rf + n * k1 * (x1 * c2 + 1.5 * x3)
    su, cu, si, ci, sn, cn = o.sin(uk), o.cos(uk), o.sin(ik), o.cos(ik), o.sin(nk), o.cos(nk)
    mx, my = -1 * sn * ci, cn * ci
    U = [mx * su + cn * cu, my * su + sn * cu, si * su]
    V = [mx * cu - cn * su, my * cu - sn * su, si * cu]
    return [rk * x * KM for x in U], [(rdk * x + rfk * y) * KM for x, y in zip(U, V)]


def theory(el, t):
    """status and state by the published theory, in numbers"""
    K = theory_init(Num, el)
    xl, w, nd, ta, e = theory_secular(Num, el, K, t)
    if ta < 0: return 'negative axis', None, None, K
    a = K['a'] * ta * ta
    e = max(e, 1e-6)
    if e >= 1: return 'hyperbolic', None, None, K
    if not a > 0: return 'parabolic', None, None, K
    xlt, axn, ayn = theory_long(Num, K, xl, w, a, e)
    el2 = axn * axn + ayn * ayn
    if el2 > 1 - 1e-6: return 'parabolic', None, None, K
    m = math.fmod(xlt - nd, 2 * PI)
    E = m
    lo, hi = m - 1.1, m + 1.1
    for _ in range(200):
        f = E - axn * math.sin(E) + ayn * math.cos(E) - m
        if f > 0: hi = E
        else: lo = E
        d = f / (1 - axn * math.cos(E) - ayn * math.sin(E))
        E2 = E - d
        if not lo < E2 < hi: E2 = (lo + hi) / 2
        if abs(E2 - E) < 1e-15 * (1 + abs(E)): break
        E = E2
    p, v = theory_short(Num, K, el, nd, a, axn, ayn, E)
    pr = a * (1 - e), a * (1 + e)
    st = 'within' if pr[0] < 1 and pr[1] < 1 else 'perigee' if pr[0] < 1 or pr[1] < 1 else 'ok'
    return st, p, v, K


STATUS = {'ok': 0, 'negative axis': -2, 'parabolic': -1, 'within': -3, 'perigee': -4}


def test_theory(el, t):
    """text when the real propagation differs from the theory where that is well conditioned"""
    try:
        st, p, v, K = theory(el, t)
        if not 45 < K['per'] < 36000: return None
        amb = abs(K['per'] - 156) < 1e-6 or abs(K['per'] - 98) < 1e-6 or abs(K['per'] - 220) < 1e-6 or abs(el['eo'] - 1e-4) < 1e-12
        if amb: return None
        # conditioning: elements moved by some units in the last place
        sp = sv = 0.
        for k in RECS + ('t',):
            e2, t2 = dict(el), t
            if k == 't': t2 = t * (1 + 4e-15)
            else: e2[k] = el[k] * (1 + 4e-15)
            s2, p2, v2, _ = theory(e2, t2)
            if s2 != st: return None
            if p is not None:
                sp += max(abs(a - b) for a, b in zip(p, p2))
                sv += max(abs(a - b) for a, b in zip(v, v2))
        if p is not None and not (sp < 1e-4 and sv < 1e-5): return None
    except (ValueError, ZeroDivisionError, OverflowError):
        return None
    r, cp, cv = Sat(el).at(t)
    at = 'elements %s at %r minutes' % (', '.join('%s=%r' % x for x in el.items()), t)
    if st == 'hyperbolic':
        # the perigee is within the earth for these, or the orbit is reported as impossible
        return None if r else '%s: status 0 for a hyperbolic orbit' % at
    if p is None:
        if r not in (-1, -2): return '%s: status %d, but the theory gives %s' % (at, r, st)
        if any(cp) or any(cv): return '%s: status %d with coordinates %r' % (at, r, cp)
        return None
    if r in (-1, -2, -6):
        return '%s: status %d, but the theory has the position %r' % (at, r, p) if r != -6 or max(abs(x) for x in p) < 1e9 and el['eo'] < .9 else None
    if r != STATUS[st]:
        # on the edge between two verdicts
        return '%s: status %d, expected %d' % (at, r, STATUS[st])
    if not max(abs(a - b) for a, b in zip(p, cp)) <= 1e-5 + 1e3 * sp: return '%s: position %r, the theory gives %r' % (at, cp, p)
    if not max(abs(a - b) for a, b in zip(v, cv)) <= 1e-6 + 1e3 * sv: return '%s: velocity %r, the theory gives %r' % (at, cv, v)
    return None


def draw_el(rnd, deep=False):
    """an element set: mean motion, or perigee and eccentricity"""
    x = rnd.random()
    e = rnd.choice([0., 1e-7, 5e-5, 9.9e-5, 1.1e-4, 1e-3, .01]) if x < .3 else 10 ** rnd.uniform(-4, -.1) if x < .8 else rnd.uniform(0, .8)
    per = rnd.choice([rnd.uniform(46, 98), rnd.uniform(98, 156), rnd.uniform(156, 220), rnd.uniform(220, 2000), rnd.uniform(220, 36000)])
    a = (1 + per / KM) / (1 - e)
    n = KE / a ** 1.5
    if deep:
        n = rnd.choice([1.0027, .5, 2.0056, rnd.uniform(.1, 6.39)]) * 2 * PI / 1440
        e = rnd.choice([rnd.uniform(0, .01), rnd.uniform(0, .5), rnd.uniform(.5, .75)])
        if n > .005 and e > .4 and KE ** (2 / 3.) / n ** (2 / 3.) * (1 - e) < 1.03: e = .01
    ang = lambda: rnd.choice([0., PI / 2, PI, rnd.uniform(0, 2 * PI), rnd.uniform(0, 2 * PI), rnd.uniform(0, 2 * PI)])
    inc = rnd.choice([0., PI / 2, math.radians(63.4349), math.radians(98), rnd.uniform(0, 3.1), rnd.uniform(0, 3.1)])
    return dict(bstar=rnd.choice([0., 1e-5, 1e-4, -1e-4, .01, rnd.uniform(-.01, .1)]), xincl=inc, xnodeo=ang(), eo=e, omegao=ang(), xmo=ang(), xno=n)


def draw_t(rnd):
    return rnd.choice([0., 0., 1., -1., 1440., rnd.uniform(-1440, 1440), rnd.uniform(-1440, 1440), rnd.uniform(-2e4, 2e4)])


# ---------------------------------------------------------------- symbolic side

def inputs():
    return dict(bstar=Inp('bstar', -.5, .5, (0, 1e-4)), xincl=Inp('xincl', 0, PI, (0, PI / 2)), xnodeo=Inp('xnodeo', 0, 2 * PI, (0, PI)), eo=Inp('eo', 0, .999, (0, .01)),
                omegao=Inp('omegao', 0, 2 * PI, (0, PI)), xmo=Inp('xmo', 0, 2 * PI, (0, PI)), xno=Inp('xno', .02, .075, (.065,)), t=Inp('t', -20000, 20000, (0, 1440)))


class Run:
    """memory of an element set in the symbolic machine"""
    def __init__(self, R, el, deep=False, name='A', epoch=2458861.5):
        o = offs()
        self.R, self.m = R, 'SDP4' if deep else 'SGP4'
        self.tle = Ptr(R.new('tle' + name, o['size']), 0)
        for k, v in dict(el, epoch=epoch, xndt2o=0., xndd6o=0.).items():
            R.store(self.at(self.tle, o[k]), 8, v, 'double')
        for k in ('norad_number', 'bulletin_number', 'revolution_number'): R.store(self.at(self.tle, o[k]), 4, 1, 'i32')
        for k in ('classification', 'ephemeris_type'): R.store(self.at(self.tle, o[k]), 1, 48, 'i8')
        for k in range(9): R.store(self.at(self.tle, o['intl_desig'] + k), 1, 0, 'i8')
        self.par = Ptr(R.new('par' + name, 8 * o['npar']), 0)
        self.n = o['npar']
        R.call(self.m + '_init', (self.par, self.tle))

    @staticmethod
    def at(p, k): return Ptr(p.o, p.off + k)

    def go(self, t):
        R = self.R
        p, v = Ptr(R.new('pos', 24), 0), Ptr(R.new('vel', 24), 0)
        r = R.call(self.m, (t, self.tle, self.par, p, v))
        return [r] + [R.load(self.at(q, 8 * k), 8, 'double') for q in (p, v) for k in range(3)]


class Kep:
    """bounds the Kepler iterations and remembers the eccentric anomaly (the last argument of the sine before the arc tangent)"""
    def __init__(self, R, most):
        R.stubs = dict(R.stubs)
        self.R, self.most = R, most
        R.stubs['sin'] = self.sin
        R.stubs['atan2'] = self.atan2
        R.stubs['sqrt'] = R.stubs['llvm.sqrt.f64'] = root
        # quotients by an expression that can be zero: only the case where it is not
        R.f_fdiv = lambda a, b: R.flo(sym.div(a, b)) if isn(b) else rtm.RT.f_fdiv(R, a, b)
        self.start()

    def start(self):
        self.n, self.last, self.E = 0, None, None

    def sin(self, rt, x):
        self.n += 1
        if self.n > self.most: raise rtm.Infeasible()
        self.last = x
        return sym.fsin(x)

    def atan2(self, rt, y, x):
        self.E = self.last
        self.n -= 100
        return rtm.m_atan2(rt, y, x)


def numeric_match(x, y, names):
    """the two expressions agree at random points (a hint; the proof follows)"""
    import random
    r = random.Random(11)
    good = 0
    for _ in range(12):
        env = {k: v.draw(r) for k, v in names.items()}
        try:
            a, b = sym.evalf(x, dict(env)) if isn(x) else x, sym.evalf(y, dict(env)) if isn(y) else y
            if isinstance(a, complex) or isinstance(b, complex) or a != a or b != b: continue
        except Exception:
            continue
        good += 1
        if abs(a - b) > 1e-9 * max(abs(a), abs(b)): return False
    return good >= 3


COEF = ('a', 'n', 'th', 'si', 'mdot', 'wdot', 'ndot', 'nodcf', 't2', 'c1', 'c4', 'eta', 'd2', 'd3', 'd4', 'delmo', 'sinmo', 't3', 't4', 't5', 'wcf', 'mcf', 'c5')
REGIMES = {'perigee above 220 km': (220.01, 1e9), 'perigee 156 to 220 km': (156.01, 219.99), 'perigee 98 to 156 km': (98.01, 155.99), 'perigee below 98 km': (-1e9, 97.99)}


def same(a, b):
    if not isn(a) and not isn(b): return abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    d = sym.sub(a, b)
    return sym.is_zero(d) if isn(d) else abs(d) < 1e-12


def nearcond(o, K, lo, hi):
    R = o.R
    for c in (sym.gt(K, lo), sym.lt(K, hi)): R.assume(c)


def thfam(C, regime, smalle, most):
    """one perigee regime: coefficients, then the propagation with the coefficients as unknowns"""
    R = fw.new_rt(UNITS, 'orb')
    kep = Kep(R, most)
    R.feasible = lambda c: True
    S = Sy(R)
    I = inputs()
    lo, hi = REGIMES[regime]
    inps = [v for k, v in I.items()]
    names = dict(I)

    def entry():
        kep.start()
        kep.most = 1000
        el = {k: I[k].node() for k in RECS}
        t = I['t'].node()
        # the class of perigees and eccentricities of this family
        R.assume(sym.lt(el['eo'], 1e-4) if smalle else sym.ge(el['eo'], 1e-4))
        per = theory_per(S, el)
        for v in (98., 156.):
            R.assume(sym.gt(per, v) if lo > v else sym.lt(per, v))
        simple = theory_simple(S, el)
        R.assume(simple if hi < 220 else sym.neg(simple))
        K = theory_init(S, el)
        A = Run(R, el)
        res = [('coefficient ' + k, None) for k in COEF if k in K]
        found = {}
        for j in range(A.n):
            try:
                v = R.load(A.at(A.par, 8 * j), 8, 'double')
            except rtm.Hazard:
                continue
            if not isn(v) and not isinstance(v, (int, float)): continue
            for k in COEF:
                if k in K and k not in found and isn(K[k]) and isn(v) and (v is K[k] or numeric_match(v, K[k], names)):
                    found[k] = (j, v)
                    break
        F = dict(K)
        out = []
        for k in COEF:
            if k not in K or not isn(K[k]): continue
            if k in found:
                j, v = found[k]
                ok = same(v, K[k])
                out.append((k, ok))
                if ok:
                    F[k] = sym.var('K_' + k, *{'a': (.9, 50), 'n': (.002, .08), 'th': (-1, 1), 'si': (0, 1), 'sinmo': (-1, 1)}.get(k, (-1e6, 1e6)))
                    R.store(A.at(A.par, 8 * j), 8, F[k], 'double')
            else: out.append((k, None))
        kep.most, kep.n = most, 0
        xl, w, nd, ta, e = theory_secular(S, el, F, t)
        R.assume(sym.gt(ta, 0))
        a = F['a'] * ta * ta
        R.assume(sym.gt(a, 0))
        if S.lt(e, 1e-6): e = 1e-6
        xlt, axn, ayn = theory_long(S, F, xl, w, a, e)
        st = 'parabolic' if S.lt(1 - 1e-6, axn * axn + ayn * ayn) else None
        kep.n = 0
        r = A.go(t)
        if st is None:
            in1, in2 = S.lt(a * (1 - e), 1.), S.lt(a * (1 + e), 1.)
            st = 'within' if in1 and in2 else 'perigee' if in1 or in2 else 'ok'
        E = kep.E
        pos = None
        if E is not None:
            pos = theory_short(S, F, el, nd, a, axn, ayn, E)
        return out, r, st, E, pos, (xlt - nd, axn, ayn)

    def goals(p):
        if p.ret is None:
            yield 'ends normally', False
            return
        out, r, st, E, pos, (m, axn, ayn) = p.ret
        for k, ok in out:
            if ok is not None: yield 'coefficient ' + k, ok
        if E is None:
            yield 'status without a position', r[0] == (STATUS['parabolic'] if st == 'parabolic' else -6) if not isn(r[0]) else False
            yield 'no position', all(not isn(x) and x == 0 for x in r[1:])
            return
        yield 'status', r[0] == STATUS[st]
        yield 'Kepler equation', kepler(p.pc, m, axn, ayn, E)
        for k in range(3):
            yield 'position %d' % k, same(r[1 + k], pos[0][k])
        for k in range(3):
            yield 'velocity %d' % k, same(r[4 + k], pos[1][k])

    def replay(env):
        return test_theory({k: env[k] for k in RECS}, env['t'])
    fw.fn_check(C, '%s, eccentricity %s 1e-4' % (regime, 'below' if smalle else 'above'), R, entry, inps, goals, replay, validate=0, max_paths=400, time_limit=100, timeout=2000)


def theory_per(o, el):
    K = theory_axis(o, el)
    return (K * (1 - el['eo']) - 1) * KM


def theory_simple(o, el):
    return sym.lt(theory_axis(o, el) * (1 - el['eo']), 220. / KM + 1.)


def theory_axis(o, el):
    th, e = o.cos(el['xincl']), el['eo']
    th2, b2 = th * th, 1 - e * e
    b = o.sqrt(b2)
    a1 = o.pow(KE / el['xno'], 2. / 3)
    k = 1.5 * CK2 * (3. * th2 - 1.) / (b * b2)
    d1 = k / (a1 * a1)
    a0 = a1 * (1 - d1 * (1. / 3 + d1 * (1 + 134. / 81 * d1)))
    return a0 / (1 - k / (a0 * a0))


def kepler(pc, m, axn, ayn, E):
    """the path ended because the residual of Kepler's equation was below 1e-12 (whole turns apart)"""
    f = m - E + axn * sym.fsin(E) - ayn * sym.fcos(E)

    def whole(x):
        """x is -1e-12..0 beyond whole turns"""
        if isn(x):
            k, d = sym._term(x)
            for n, c in d.items():
                if not (n.isint and abs(float(c) / (2 * PI) - round(float(c) / (2 * PI))) < 1e-12):
                    return False
        else: k = x
        k = float(k)
        return -1.1e-11 <= k - 2 * PI * round(k / (2 * PI)) <= 1e-14
    got = set()
    for c in pc:
        if type(c) is bool or c.op not in ('lt', 'le') or not isn(c.a): continue
        for s in (1, -1):
            if s not in got and whole(sym.sub(c.a, sym.scale(f, s))): got.add(s)
        k0, d = sym._term(c.a)
        if -1e-11 <= float(k0) < 0 and len(d) == 1:
            (n, k), = d.items()
            if n.k == 'fn' and n.a[0] in ('fabs', 'abs') and abs(float(k) - 1) < 1e-9 and (whole(sym.sub(n.a[1], f)) or whole(sym.add(n.a[1], f))): return True
    return len(got) == 2


def O03(C):
    C.assume(REALS, 'gravity constants of the published theory (ke, J2, J3, J4, 6378.135 km); eccentricities below 1e-6 are raised to 1e-6 and drag terms divided by the eccentricity dropped below 1e-4, as in the published revision')
    C.bound('all values of the seven elements and of the time in each perigee regime; the coefficients matched with the theory enter the propagation as unknowns; Kepler iteration ended after at most %d rounds' % (4 if T else 2))
    prepare()
    J = []
    for r in REGIMES:
        for s in (False, True):
            J.append((r + str(s), lambda C, r=r, s=s: thfam(C, r, s, 6 if T else 4)))

    def nat(C):
        t = time.time() + min(12, max(1, C.left()))
        while time.time() < t and not C.viol:
            el, tt = draw_el(C.rnd), draw_t(C.rnd)
            C.validated += 1
            x = test_theory(el, tt)
            if x: C.violation('theory', 'replayed: ' + x, repr((el, tt)))
    J.append(('native', nat))
    fw.par(C, J)


# ---------------------------------------------------------------- O01

HIST = (dict(bstar=3e-5, xincl=.9, xnodeo=4.3, eo=.0009, omegao=1.3, xmo=5., xno=.0676), dict(bstar=2e-3, xincl=1.7, xnodeo=.2, eo=.1, omegao=2.2, xmo=.4, xno=.0600))
RESIDUE = 5.0      # km: deep-space orbits keep the lunisolar terms for 30 minutes and the state of the numerical integration of resonances (deep.c)


def test_pure(c):
    """c: element set, deep?, time, earlier times, other element sets and their times"""
    el, deep, t, before, others = c

    def run(fill, hist):
        for e, d, tt in hist:
            try: Sat(e, deep=d).at(tt)
            except (ValueError, OverflowError): pass
        s = Sat(el, deep=deep, fill=fill)
        return s
    a = run(1e300, []).at(t)
    b = run(-3.5, others).at(t)
    what = '%s: elements %r at %r minutes' % ('SDP4' if deep else 'SGP4', el, t)
    if repr(a) != repr(b): return '%s: %r the first time, %r after propagating %r' % (what, a, b, others)
    s = run(7e9, others)
    for x in before: s.at(x)
    for e, d, tt in others: Sat(e, deep=d).at(tt)
    d = s.at(t)
    tol = 0 if not deep else RESIDUE
    ok = repr(a) == repr(d) or tol and a[0] == d[0] and all(abs(x - y) <= tol for x, y in zip(a[1], d[1])) and all(abs(x - y) <= tol / 10 for x, y in zip(a[2], d[2]))
    if not ok: return '%s: %r from new parameters, %r after the times %r and other objects %r' % (what, a, d, before, others)
    n = s.at(t, vel=False)
    if n[0] != a[0] or (not deep and n[1] != d[1]): return '%s: %r without, %r with the velocity' % (what, n, d)
    return None


def draw_pure(rnd):
    deep = rnd.random() < .5
    el = draw_el(rnd, deep)
    oth = []
    for _ in range(rnd.choice([0, 1, 1, 2])):
        d = rnd.random() < .5
        oth.append((draw_el(rnd, d), d, draw_t(rnd)))
    return el, deep, draw_t(rnd), [draw_t(rnd) for _ in range(rnd.choice([0, 1, 1, 2, 5]))], oth


def purefam(C, simple, hist):
    """near-Earth: every element set at every time, before and after a history"""
    R = fw.new_rt(UNITS, 'orb')
    kep = Kep(R, 1000)
    R.feasible = lambda c: True
    S = Sy(R)
    I = inputs()
    I['t2'] = Inp('t2', -20000, 20000, (0, 1440))

    def entry():
        kep.start()
        kep.most = 1000
        el = {k: I[k].node() for k in RECS}
        t = I['t'].node()
        per = theory_per(S, el)
        R.assume(sym.gt(per, 156.01))
        c = theory_simple(S, el)
        R.assume(c if simple else sym.neg(c))
        kep.most = 3 if not simple else 2
        go = lambda A, x: (kep.start(), A.go(x))[1]
        def new(name, e):
            m, kep.most = kep.most, 10 ** 6
            x = Run(R, e, name=name)
            kep.most = m
            return x
        A = new('A', el)
        res = [go(A, t)]
        if hist == 'itself':
            go(A, I['t2'].node())
            res.append(go(A, t))
        else:
            m, kep.most = kep.most, 1000
            B = Run(R, HIST[hist], name='B')
            for x in (0., 100.): go(B, x)
            if hist == 1:
                # a satellite that has decayed
                go(B, 2e6)
            kep.most = m
            res.append(go(A, t))
            A2 = new('A2', el)
            if hist == 0:
                kep.most = 1000
                go(B, 55.)
                kep.most = m
            res.append(go(A2, t))
        return res

    def goals(p):
        if p.ret is None:
            yield 'ends normally', False
            return
        for j, r in enumerate(p.ret[1:]):
            for k, (a, b) in enumerate(zip(p.ret[0], r)):
                yield 'run %d value %d' % (j + 2, k), same(a, b)

    def replay(e):
        el = {k: e[k] for k in RECS}
        return test_pure((el, False, e['t'], [e['t2']], [(h, False, x) for h in HIST for x in (0., 100., 2e6)])) or test_pure((el, False, 0., [e['t2']], [(HIST[0], False, 0.), (HIST[1], False, 100.)]))
    fw.fn_check(C, 'SGP4 %s, history %s' % ('perigee 156 to 220 km' if simple else 'perigee above 220 km', hist), R, entry, list(I.values()), goals, replay, validate=0, max_paths=500 if T else 150, time_limit=50, timeout=1000)


def O01(C):
    C.assume(REALS, 'the deep-space theory keeps lunisolar terms for half an hour and the state of its numerical integration by design: times asked for before may move its positions by up to %g km there' % RESIDUE)
    C.bound('near-Earth: all element sets with perigee above 156 km and all times, one Kepler round; history: another time of the same object (any), other objects (two sets, several times), new parameters; '
            'deep space (SDP4) and longer histories by the native search only')
    prepare()
    J = [('SGP4 %s %s' % (s, h), lambda C, s=s, h=h: purefam(C, s, h)) for s in (False, True) for h in (0, 1, 'itself')]
    J.append(('native', lambda C: native(C, 'history', draw_pure, test_pure, 12)))
    fw.par(C, J)


def native(C, name, draw, test, seconds):
    t = time.time() + min(seconds, max(1, C.left()))
    while time.time() < t and not C.viol:
        c = draw(C.rnd)
        C.validated += 1
        x = test(c)
        if x: C.violation(name, 'replayed: ' + x, repr(c))


def watched(C, name, draw, test, seconds):
    """the same, in processes that are ended when one case takes several seconds"""
    import mmap
    import signal
    end = time.time() + min(seconds, max(1, C.left()))
    while time.time() < end and not C.viol:
        cases = [draw(C.rnd) for _ in range(3000)]
        m = mmap.mmap(-1, 8192)
        pid = os.fork()
        if not pid:
            try:
                for k, c in enumerate(cases):
                    m[:8] = k.to_bytes(8, 'little')
                    x = test(c)
                    if x:
                        b = x.encode()[:8000]
                        m[16:16 + len(b)] = b
                        m[8:16] = len(b).to_bytes(8, 'little')
                        break
            finally:
                os._exit(0)
        at, since = -1, time.time()
        while True:
            if os.waitpid(pid, os.WNOHANG)[0]: break
            k = int.from_bytes(m[:8], 'little')
            if k != at: at, since = k, time.time()
            if time.time() - since > 5:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                C.violation(name, 'replayed: no end within 5 s: %r' % (cases[k],), repr(cases[k]))
                return
            time.sleep(.02)
        n = int.from_bytes(m[8:16], 'little')
        C.validated += int.from_bytes(m[:8], 'little') + 1
        if n:
            C.violation(name, 'replayed: ' + m[16:16 + n].decode('utf8', 'replace'), repr(cases[int.from_bytes(m[:8], 'little')]))


# ---------------------------------------------------------------- O02

OK = (0, -3, -4)


def verdict(what, r, p, v):
    fin = all(math.isfinite(x) for x in p + v)
    if r not in (0, -1, -2, -3, -4, -5, -6): return '%s: status %d' % (what, r)
    if r in OK and not fin: return '%s: status %d with coordinates %r %r' % (what, r, p, v)
    if r in (-1, -2, -6) and (any(p) or any(v)): return '%s: status %d with coordinates %r %r' % (what, r, p, v)
    return None


def test_end(c):
    el, t = c
    r, p, v = Sat(el).at(t)
    return verdict('SGP4, elements %r at %r minutes' % (el, t), r, p, v)


def draw_end(rnd):
    el = draw_el(rnd)
    x = rnd.random()
    if x < .4:
        el.update(eo=rnd.choice([0., rnd.random(), 1 - 10 ** rnd.uniform(-9, 0)]), bstar=rnd.choice([0., rnd.uniform(-1, 1), 10 ** rnd.uniform(-6, 1)]), xno=10 ** rnd.uniform(-2.2, -1))
        if rnd.random() < .3: el['xincl'] = rnd.choice([0., PI / 2, PI, math.nextafter(PI, 0), PI - 1e-9])
    t = draw_t(rnd) if rnd.random() < .6 else rnd.uniform(-1e7, 1e7)
    return el, t


def nposvel(a, ecc, om, xl, nd, inc):
    p, v = (ctypes.c_double * 3)(7., 7., 7.), (ctypes.c_double * 3)(7., 7., 7.)
    D = ctypes.c_double
    r = nfun(lib(), 'sxpx_posn_vel', ctypes.c_int, *([D] * 8 + [ctypes.c_void_p] * 2))(nd, a, ecc, math.cos(inc), math.sin(inc), inc, om, xl, p, v)
    return r, list(p), list(v)


def endfam(C, most):
    """mean elements to state: every value of the mean elements"""
    R = fw.new_rt(UNITS, 'orb')
    kep = Kep(R, 1000)
    R.feasible = lambda c: True
    S = Sy(R)
    I = [Inp('ax', -2, 50, (0, 1)), Inp('e', 1e-6, .9999, (.01, .5)), Inp('om', 0, 7), Inp('xl', 0, 7), Inp('nd', 0, 7), Inp('inc', 0, 3.14, (0, PI / 2))]

    def entry():
        kep.start()
        kep.most = 1000
        a, e, om, xl, nd, inc = [i.node() for i in I]
        th, si = sym.fcos(inc), sym.fsin(inc)
        K = dict(th=th, si=si)
        p, v = Ptr(R.new('pos', 24), 0), Ptr(R.new('vel', 24), 0)
        neg = S.lt(a, 0.)
        R.assume(sym.ne(a, 0))
        xlt, axn, ayn = theory_long(S, K, xl, om, a, e)
        el2 = axn * axn + ayn * ayn
        par = S.lt(1 - 1e-6, el2)
        in1 = in2 = False
        if not neg and not par: in1, in2 = S.lt(a * (1 - e), 1.), S.lt(a * (1 + e), 1.)
        kep.most = 1000
        rounds = kep
        kep.most = most + 1
        r = R.call('sxpx_posn_vel', (nd, a, e, th, si, inc, om, xl, p, v))
        out = [R.load(Run.at(q, 8 * k), 8, 'double') for q in (p, v) for k in range(3)]
        return neg, par, in1, in2, r, out, kep.n

    def goals(p):
        if p.ret is None:
            yield 'ends normally', False
            return
        neg, par, in1, in2, r, out, n = p.ret
        if isn(r):
            yield 'status', False
            return
        if neg or par:
            yield 'impossible orbit reported', r == (-1 if par else -2)
            yield 'no coordinates', all(not isn(x) and x == 0 for x in out)
        elif r == -6:
            yield 'no coordinates', all(not isn(x) and x == 0 for x in out)
        else:
            yield 'status', r == (-3 if in1 and in2 else -4 if in1 or in2 else 0)
            yield 'finite', all(isn(x) or math.isfinite(x) for x in out)

    def replay(v):
        a, e, om, xl, nd, inc = [v[i.name] for i in I]
        if a == 0: return None
        try:
            xlt, axn, ayn = theory_long(Num, dict(th=math.cos(inc), si=math.sin(inc)), xl, om, a, e)
        except (ZeroDivisionError, OverflowError):
            return None
        el2 = axn * axn + ayn * ayn
        r, p, w = nposvel(a, e, om, xl, nd, inc)
        at = 'sxpx_posn_vel, axis %r, eccentricity %r, perigee %r, longitude %r, node %r, inclination %r' % (a, e, om, xl, nd, inc)
        x = verdict(at, r, p, w)
        if x: return x
        if abs(el2 - 1 + 1e-6) < 1e-9 or abs(a * (1 - e) - 1) < 1e-12 or abs(a * (1 + e) - 1) < 1e-12: return None
        ex = -1 if el2 > 1 - 1e-6 else -2 if a < 0 else -3 if a * (1 + e) < 1 else -4 if a * (1 - e) < 1 else 0
        if r != ex and not (r == -6 and el2 > .95): return '%s: status %d, expected %d' % (at, r, ex)
        return None
    fw.fn_check(C, 'state from mean elements', R, entry, I, goals, replay, validate=6, max_paths=600, time_limit=60, timeout=1000)


def O02(C):
    C.assume(REALS, 'quotients with denominator zero (axis or mean motion exactly 0, inclination exactly pi) only in the native search')
    C.bound('mean elements: all axes in [-2, 50] Earth radii, eccentricities [1e-6, 0.9999], all angles; converged states after at most %d rounds; that the iteration itself ends only for the sampled elements' % (3 if T else 2))
    prepare()
    J = [('state', lambda C: endfam(C, 3 if T else 2))]
    J.append(('native', lambda C: watched(C, 'ends', draw_end, test_end, 12)))
    fw.par(C, J)
