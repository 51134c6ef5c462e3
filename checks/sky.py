"""S-group: sky geometry functions of the library, executed symbolically over real arithmetic."""
import math
import fw
import rt as rtm
import sym
import zs
from fw import Inp, close, D, PD, nfun, outd
from rt import Ptr

PI = math.pi
TWOPI = 2 * PI
DEG = 180 / PI
RAD = PI / 180
HRS = 12 / PI
REALS = 'floating point treated as real arithmetic on this path (rounding noise below the stated tolerance is outside the claim); sin/cos/atan2/... are the mathematical functions'


def lib():
    return fw.native_lib('lib')


def dbl(R, n=1, name='out'):
    return Ptr(R.new(name, 8 * n), 0)


def ld(R, p, i=0):
    return R.load(Ptr(p.o, p.off + 8 * i), 8, 'double')


def allunits():
    import build
    return build.all_lib()


def frange(x, lo, hi, tol=1e-9):
    return sym.cand(sym.ge(x, lo - tol), sym.le(x, hi + tol))


def sep_ref(t1, p1, t2, p2):
    """great-circle angle in degrees, from unit vectors (independent of the haversine)"""
    a = [math.cos(t1) * math.cos(p1), math.sin(t1) * math.cos(p1), math.sin(p1)]
    b = [math.cos(t2) * math.cos(p2), math.sin(t2) * math.cos(p2), math.sin(p2)]
    c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    return math.degrees(math.atan2(math.sqrt(sum(x * x for x in c)), sum(x * y for x, y in zip(a, b))))


def adiff(a, b, period=360.0):
    d = math.fmod(a - b, period)
    if d > period / 2: d -= period
    if d < -period / 2: d += period
    return abs(d)


# ---------------------------------------------------------------- S07

def S07(C):
    C.assume(REALS)
    C.bound('longitudes in [-pi, 2pi], latitudes in [-pi/2, pi/2] (all values); no loop')
    R = fw.new_rt(allunits(), 'lib')
    A = [Inp('t1', -PI, TWOPI, (0, PI, -PI, TWOPI, 1e-9)), Inp('p1', -PI / 2, PI / 2, (0, PI / 2, -PI / 2)),
         Inp('t2', -PI, TWOPI, (0, PI, -PI, TWOPI, TWOPI - 1e-9)), Inp('p2', -PI / 2, PI / 2, (0, PI / 2, -PI / 2))]
    f = nfun(lib(), 'skysep_h', fw.ctypes.c_double, D, D, D, D)

    def entry():
        # elementary lemma: cos p1 cos p2 <= (1 + cos(p2-p1))/2 = cos^2((p2-p1)/2), so h <= 1
        R.assume(sym.le(h, 1))
        return R.call('skysep_h', [i.node() for i in A])

    t1, p1, t2, p2 = [i.node() for i in A]
    h = sym.add(sym.power(sym.fsin(sym.scale(sym.sub(p2, p1), 0.5)), 2),
                sym.mul(sym.mul(sym.fcos(p1), sym.fcos(p2)), sym.power(sym.fsin(sym.scale(sym.sub(t2, t1), 0.5)), 2)))
    spec = sym.scale(sym.fasin(sym.fsqrt(h)), 2 * DEG)

    def goals(p):
        # haversine 1 (antipodes): asin(1) = pi/2
        yield 'great-circle', sym.cor(close(p.ret, spec, 1e-9), sym.cand(close(p.ret, 180.0, 1e-9), sym.ge(h, 1)))
        yield 'range', frange(p.ret, 0, 180)

    def replay(e):
        v = f(e['t1'], e['p1'], e['t2'], e['p2'])
        w = sep_ref(e['t1'], e['p1'], e['t2'], e['p2'])
        tol = 1e-6 if w < 179.99 else 1e-3
        if not (abs(v - w) <= tol) or not (-1e-9 <= v <= 180 + 1e-9):
            return 'separation of (%r,%r) and (%r,%r) rad is %r deg, great-circle distance is %r deg' % (e['t1'], e['p1'], e['t2'], e['p2'], v, w)
        for a, b in ((e['t1'], e['t2']), ):
            if abs(f(e['t2'], e['p2'], e['t1'], e['p1']) - v) > 1e-6:
                return 'separation not symmetric: %r' % (e,)
    fw.fn_check(C, 'separation', R, entry, A, goals, replay, timeout=8000)


def isfin(x):
    return isn(x) or (x == x and abs(x) < 1e300)


isn = sym.isn


def rng(x, lo, hi, tol=1e-9):
    if not isfin(x):
        return False
    return frange(x, lo, hi, tol)


def congruent(a, b, period, tol=1e-9):
    """a = b modulo period"""
    if not isfin(a) or not isfin(b):
        return False
    d = sym.scale(sym.sub(a, b), TWOPI / period)
    if not isn(d):
        return abs(math.sin(d / 2)) <= tol
    s, c = sym.fsin(d), sym.fcos(d)
    return sym.cand(close(s, 0.0, tol), sym.ge(c, 0.0) if isn(c) else c > 0)


def same_dir(ang, y, x, tol=1e-9):
    """ang (radians) is the direction of (x, y): cross product zero, dot product not negative"""
    if not isfin(ang):
        return False
    s, c = sym.fsin(ang), sym.fcos(ang)
    cross = sym.sub(sym.mul(y, c), sym.mul(x, s))
    dot = sym.add(sym.mul(x, c), sym.mul(y, s))
    return sym.cand(close(cross, 0.0, tol), sym.ge(dot, -tol))


# ---------------------------------------------------------------- S01
JLO, JHI = 2433282, 2488070      # 1950..2100


def gmst_ref(jd):
    """hours, from the IAU 1982 expression; day split done on the exact double"""
    ut0 = math.floor(jd - 0.5) + 0.5
    t = (ut0 - 2451545.0) / 36525.0
    s = 24110.54841 + t * (8640184.812866 + t * (0.093104 - 6.2e-6 * t))
    return ((s / 3600.0) + 1.00273790934 * (jd - ut0) * 24) % 24


def jd_inputs():
    return [Inp('J', JLO, JHI, (2451544, 2451545, 2415020), isint=True), Inp('f', 0.0, 1 - 2.0 ** -30, (0.0, 0.5, 0.5 - 1e-9, 1 - 2.0 ** -30))]


def gmst_spec(J, f):
    """spec in hours (unreduced) for jd = J + f"""
    ut0 = sym.add(J, sym.sub(sym.ffloor(sym.add(f, 0.5)), 0.5))
    t = sym.scale(sym.sub(ut0, 2451545.0), 1 / sym.Fr(36525))
    g0 = sym.add(24110.54841, sym.mul(t, sym.add(8640184.812866, sym.mul(t, sym.sub(0.093104, sym.scale(t, 6.2e-6))))))
    ut = sym.sub(sym.add(J, f), ut0)
    return sym.add(sym.scale(g0, sym.Fr(1, 3600)), sym.scale(ut, sym.Fr(24) * sym.fr(1.00273790934)))


def S01(C):
    C.assume(REALS, 'years 1950-2100')
    C.bound('all Julian Dates %d..%d, longitudes in [-360,360] deg; loop of the 24 h reduction explored completely' % (JLO, JHI))
    R = fw.new_rt(allunits(), 'lib')
    A = jd_inputs() + [Inp('lon', -360, 360, (0, 180, 360, -360, 359.999999))]
    J, f, lon = [i.node() for i in A]
    fn = nfun(lib(), 'lmst_hr', fw.ctypes.c_double, D, D, PD)

    def entry():
        g = dbl(R)
        r = R.call('lmst_hr', (sym.add(J, f), lon, g))
        R.data['g'] = ld(R, g)
        return r

    def goals(p):
        g = p.data['g']
        yield 'gmst-range', sym.cand(rng(g, 0, 24, 1e-9))
        yield 'lmst-range', sym.cand(rng(p.ret, 0, 24, 1e-9))
        yield 'gmst-iau1982', congruent(g, gmst_spec(J, f), 24, 1e-7)
        yield 'lmst-minus-gmst', congruent(sym.sub(p.ret, g), sym.scale(lon, sym.Fr(1, 15)), 24, 1e-7)

    def replay(e):
        jd = e['J'] + e['f']
        o = outd()
        l = fn(jd, e['lon'], o)
        g = o[0]
        w = gmst_ref(jd)
        if not (-1e-9 <= g <= 24 + 1e-9) or not (-1e-9 <= l <= 24 + 1e-9):
            return 'lmst_hr(jd=%r, lon=%r): gmst=%r lmst=%r out of [0,24)' % (jd, e['lon'], g, l)
        if not adiff(g, w, 24) < 2e-5:
            return 'lmst_hr(jd=%r): gmst=%r, IAU 1982 gives %r' % (jd, g, w)
        if not adiff(l - g, e['lon'] / 15, 24) < 1e-6:
            return 'lmst_hr(jd=%r, lon=%r): lmst-gmst=%r, longitude/15=%r' % (jd, e['lon'], l - g, e['lon'] / 15)
    fw.fn_check(C, 'lmst_hr', R, entry, A, goals, replay)

    # the sidereal angle that places the observer is the reported sidereal time
    R2 = fw.new_rt(allunits(), 'lib')
    oc = nfun(lib(), 'observer_cartesian_coords', None, D, D, D, D, PD)

    def entry2():
        v = dbl(R2, 3)
        R2.call('observer_cartesian_coords', (sym.add(J, f), sym.scale(lon, RAD), 1.0, 0.0, v))
        return [ld(R2, v, i) for i in range(3)]

    def goals2(p):
        a = sym.scale(sym.add(gmst_spec(J, f), sym.scale(lon, sym.Fr(1, 15))), PI / 12)
        yield 'observer-angle-x', close(p.ret[0], sym.scale(sym.fcos(a), 6378.14), 1e-3)
        yield 'observer-angle-y', close(p.ret[1], sym.scale(sym.fsin(a), 6378.14), 1e-3)

    def replay2(e):
        jd = e['J'] + e['f']
        v = outd(3)
        oc(jd, math.radians(e['lon']), 1.0, 0.0, v)
        a = math.radians(gmst_ref(jd) * 15 + e['lon'])
        if not math.hypot(v[0] - 6378.14 * math.cos(a), v[1] - 6378.14 * math.sin(a)) < 0.05:
            return 'observer_cartesian_coords(jd=%r, lon=%r deg): direction %r deg, sidereal angle %r deg' % (
                jd, e['lon'], math.degrees(math.atan2(v[1], v[0])), math.degrees(a) % 360)
    fw.fn_check(C, 'observer angle', R2, entry2, A, goals2, replay2)


# ---------------------------------------------------------------- S02
EQ_M, POL_M = 6378140.0, 6356755.0


def S02(C):
    C.assume(REALS, 'Earth ellipsoid of the parallax constants: semi-axes 6378140 m and 6356755 m')
    C.bound('latitudes [-90,90] deg, heights [-500,10000] m, longitudes [-360,360] deg, all dates 1950-2100')
    A = [Inp('lat', -PI / 2, PI / 2, (0, PI / 2, -PI / 2)), Inp('h', -500, 10000, (0, 2400))]
    lat, h = [i.node() for i in A]
    R = fw.new_rt(allunits(), 'lib')
    fn = nfun(lib(), 'earth_lat_alt_to_parallax', None, D, D, PD, PD)

    def entry():
        a, b = dbl(R), dbl(R)
        R.assume(sym.gt(sym.fcos(lat), 0))      # the cosine of every double in the range is positive
        R.call('earth_lat_alt_to_parallax', (lat, h, a, b))
        return ld(R, a), ld(R, b)

    q2 = (POL_M / EQ_M) ** 2
    s, c = sym.fsin(lat), sym.fcos(lat)
    N = sym.div(1.0, sym.fsqrt(sym.add(sym.mul(c, c), sym.scale(sym.mul(s, s), q2))))     # prime vertical radius / a
    hh = sym.scale(h, 1 / EQ_M)

    def goals(p):
        yield 'rho-cos-phi', close(p.ret[0], sym.mul(sym.add(N, hh), c), 1e-9)
        yield 'rho-sin-phi', close(p.ret[1], sym.mul(sym.add(sym.scale(N, q2), hh), s), 1e-9)

    def replay(e):
        a, b = outd(), outd()
        fn(e['lat'], e['h'], a, b)
        s, c = math.sin(e['lat']), math.cos(e['lat'])
        n = EQ_M / math.sqrt(c * c + q2 * s * s)
        x, z = (n + e['h']) * c / EQ_M, (n * q2 + e['h']) * s / EQ_M
        if not (abs(a[0] - x) < 1e-8 and abs(b[0] - z) < 1e-8):
            return 'earth_lat_alt_to_parallax(lat=%r rad, h=%r m): (rho cos, rho sin) = (%r, %r), ellipsoid gives (%r, %r)' % (e['lat'], e['h'], a[0], b[0], x, z)
    fw.fn_check(C, 'parallax', R, entry, A, goals, replay, timeout=15000)

    R2 = fw.new_rt(allunits(), 'lib')
    B = jd_inputs() + [Inp('lon', -360, 360, (0, 180)), Inp('rc', 0, 1.01, (0, 1)), Inp('rs', -1.01, 1.01, (0, 1, -1))]
    J, f, lon, rc, rs = [i.node() for i in B]
    oc = nfun(lib(), 'observer_cartesian_coords', None, D, D, D, D, PD)

    def entry2():
        v = dbl(R2, 3)
        R2.call('observer_cartesian_coords', (sym.add(J, f), sym.scale(lon, RAD), rc, rs, v))
        return [ld(R2, v, i) for i in range(3)]

    def goals2(p):
        a = sym.scale(sym.add(gmst_spec(J, f), sym.scale(lon, sym.Fr(1, 15))), PI / 12)
        yield 'x', close(p.ret[0], sym.scale(sym.mul(sym.fcos(a), rc), EQ_M / 1000), 1e-3)
        yield 'y', close(p.ret[1], sym.scale(sym.mul(sym.fsin(a), rc), EQ_M / 1000), 1e-3)
        yield 'z', close(p.ret[2], sym.scale(rs, EQ_M / 1000), 1e-6)

    def replay2(e):
        jd = e['J'] + e['f']
        v = outd(3)
        oc(jd, math.radians(e['lon']), e['rc'], e['rs'], v)
        a = math.radians(gmst_ref(jd) * 15 + e['lon'])
        w = [EQ_M / 1000 * e['rc'] * math.cos(a), EQ_M / 1000 * e['rc'] * math.sin(a), EQ_M / 1000 * e['rs']]
        if not max(abs(v[i] - w[i]) for i in range(3)) < 0.05:
            return 'observer_cartesian_coords(%r): %r, expected %r' % (e, list(v), w)
    fw.fn_check(C, 'observer vector', R2, entry2, B, goals2, replay2)


# ---------------------------------------------------------------- S03

def S03(C):
    C.assume(REALS, 'observer and satellite at least 1 m apart')
    C.bound('all vectors with components in [-1e6, 1e6] km')
    R = fw.new_rt(allunits(), 'lib')
    A = [Inp('%s%d' % (k, i), -1e6, 1e6, (0, 6378.14)) for k in 'os' for i in range(3)]
    v = [i.node() for i in A]
    d = [sym.sub(v[3 + i], v[i]) for i in range(3)]
    fn = nfun(lib(), 'get_satellite_ra_dec_delta', None, PD, PD, PD, PD, PD)

    def entry():
        o, s = dbl(R, 3), dbl(R, 3)
        for i in range(3):
            R.store(Ptr(o.o, 8 * i), 8, v[i], 'double')
            R.store(Ptr(s.o, 8 * i), 8, v[3 + i], 'double')
        dd = sym.add(sym.add(sym.mul(d[0], d[0]), sym.mul(d[1], d[1])), sym.mul(d[2], d[2]))
        R.assume(sym.ge(dd, 1e-6))
        a = [dbl(R) for _ in range(3)]
        R.call('get_satellite_ra_dec_delta', (o, s) + tuple(a))
        return [ld(R, x) for x in a]

    def goals(p):
        ra, dec, delta = p.ret
        yield 'ra-range', rng(ra, 0, TWOPI)
        yield 'dec-range', rng(dec, -PI / 2, PI / 2)
        yield 'distance', sym.cand(sym.ge(delta, 0), close(sym.mul(delta, delta), sym.add(sym.add(sym.mul(d[0], d[0]), sym.mul(d[1], d[1])), sym.mul(d[2], d[2])), 1e-6))
        yield 'z', close(sym.mul(delta, sym.fsin(dec)), d[2], 1e-6)
        # horizontal direction: cross product zero and the same sense
        yield 'xy', same_dir(ra, d[1], d[0], 1e-6)

    def replay(e):
        o = (fw.ctypes.c_double * 3)(*[e['o%d' % i] for i in range(3)])
        s = (fw.ctypes.c_double * 3)(*[e['s%d' % i] for i in range(3)])
        a, b, c = outd(), outd(), outd()
        fn(o, s, a, b, c)
        dv = [e['s%d' % i] - e['o%d' % i] for i in range(3)]
        n = math.sqrt(sum(x * x for x in dv))
        if n < 1e-3:
            return None
        w = [c[0] * math.cos(b[0]) * math.cos(a[0]), c[0] * math.cos(b[0]) * math.sin(a[0]), c[0] * math.sin(b[0])]
        if not (0 <= a[0] <= TWOPI and abs(b[0]) <= PI / 2 + 1e-9) or not max(abs(w[i] - dv[i]) for i in range(3)) <= 1e-7 * max(1, n):
            return 'observer %r satellite %r: ra=%r dec=%r distance=%r reproduces %r instead of %r' % (list(o), list(s), a[0], b[0], c[0], w, dv)
    fw.fn_check(C, 'topocentric', R, entry, A, goals, replay)


# ---------------------------------------------------------------- S04

def prec_ref(jd, ra, dec):
    t = (jd - 2451545.0) / 36525
    m = (3.07496 + .00186 * t / 2) / 240 * RAD
    n = (1.33621 - .00057 * t / 2) / 240 * RAD
    return ra - t * 100 * (m + n * math.sin(ra) * math.tan(dec)), dec - t * 100 * n * math.cos(ra)


def S04(C):
    C.assume(REALS, 'formula: Meeus low-precision annual precession m = 3.07496 + 0.00186 T/2, n = 1.33621 - 0.00057 T/2 seconds of time')
    C.bound('all right ascensions in [0,2pi), declinations within [-90,90] deg, dates 1900-2100')
    R = fw.new_rt(allunits(), 'lib')
    A = [Inp('jd', 2415020.0, 2488070.0, (2451545.0, 2460000.5)), Inp('ra', 0, TWOPI, (0, PI, 1e-4, TWOPI - 1e-4)),
         Inp('dec', -PI / 2, PI / 2, (PI / 2, -PI / 2, PI / 2 - 1e-3, 1e-3 - PI / 2, 0))]
    jd, ra, dec = [i.node() for i in A]
    fn = nfun(lib(), 'epoch_of_date_to_j2000', None, D, PD, PD)
    T = sym.scale(sym.sub(jd, 2451545.0), 1 / sym.Fr(36525))
    m = sym.scale(sym.add(3.07496, sym.scale(T, .00186 / 2)), RAD / 240)
    n = sym.scale(sym.sub(1.33621, sym.scale(T, .00057 / 2)), RAD / 240)
    sra = sym.sub(ra, sym.scale(sym.mul(T, sym.add(m, sym.mul(n, sym.mul(sym.fsin(ra), sym.ftan(dec))))), 100))
    sdec = sym.sub(dec, sym.scale(sym.mul(T, sym.mul(n, sym.fcos(ra))), 100))

    def entry():
        a, b = dbl(R), dbl(R)
        R.assume(sym.gt(sym.fcos(dec), 0))
        R.store(a, 8, ra, 'double')
        R.store(b, 8, dec, 'double')
        R.call('epoch_of_date_to_j2000', (jd, a, b))
        return ld(R, a), ld(R, b)

    def goals(p):
        a, b = p.ret
        yield 'ra-range', rng(a, 0, TWOPI)
        yield 'dec-range', rng(b, -PI / 2, PI / 2)
        # the direction is the one of the formula (declinations beyond the pole continue on the other side)
        yield 'dec-formula', close(sym.fsin(b), sym.fsin(sdec), 1e-11) if not (isn(b) and sym.is_zero(sym.sub(b, sdec))) else True
        def over(t):
            return sym.cor(sym.gt(sdec, PI / 2 + t), sym.lt(sdec, -PI / 2 - t))
        yield 'ra-formula', sym.cor(over(-1e-11), congruent(a, sra, TWOPI, 1e-10))
        yield 'ra-beyond-pole', sym.cor(sym.neg(over(1e-11)), congruent(a, sym.add(sra, PI), TWOPI, 1e-10))

    def replay(e):
        if math.cos(e['dec']) <= 0:
            return None
        a, b = (fw.ctypes.c_double * 1)(e['ra']), (fw.ctypes.c_double * 1)(e['dec'])
        fn(e['jd'], a, b)
        wr, wd = prec_ref(e['jd'], e['ra'], e['dec'])
        if not (0 <= a[0] <= TWOPI and abs(b[0]) <= PI / 2 + 1e-12):
            return 'epoch_of_date_to_j2000(jd=%r, ra=%r, dec=%r) = (%r, %r): outside [0,2pi) x [-pi/2,pi/2]' % (e['jd'], e['ra'], e['dec'], a[0], b[0])
        # compare as unit vectors (the right ascension loses meaning at the pole itself)
        v = [math.cos(b[0]) * math.cos(a[0]), math.cos(b[0]) * math.sin(a[0]), math.sin(b[0])]
        w = [math.cos(wd) * math.cos(wr), math.cos(wd) * math.sin(wr), math.sin(wd)]
        tol = 1e-9 + 1e-12 * abs(wr)
        if not max(abs(x - y) for x, y in zip(v, w)) < tol:
            return 'epoch_of_date_to_j2000(jd=%r, ra=%r, dec=%r) = (%r, %r), formula gives (%r, %r)' % (e['jd'], e['ra'], e['dec'], a[0], b[0], wr, wd)
    fw.fn_check(C, 'precession', R, entry, A, goals, replay)


# ---------------------------------------------------------------- S05

def horizon_ref(dec, ha_h, lat_deg):
    h, l = ha_h * 15 * RAD, lat_deg * RAD
    n = math.sin(dec) * math.cos(l) - math.cos(dec) * math.cos(h) * math.sin(l)
    e = -math.cos(dec) * math.sin(h)
    z = math.sin(dec) * math.sin(l) + math.cos(dec) * math.cos(h) * math.cos(l)
    qs, qc = math.cos(l) * math.sin(h), math.sin(l) * math.cos(dec) - math.cos(l) * math.sin(dec) * math.cos(h)
    return n, e, z, qs, qc


def S05(C):
    C.assume(REALS, 'sites within 0.1 arcsec of a pole may be treated as the pole')
    C.bound('declinations and latitudes in [-90,90] deg, hour angles in [-24,24] h; |dec| < 90 deg exactly is decided for all, the exact pole up to rounding')
    R = fw.new_rt(allunits(), 'lib')
    A = [Inp('dec', -PI / 2, PI / 2, (0, PI / 4, PI / 2, -PI / 2, 0.7)), Inp('ha', -24, 24, (0, 6, -6, 12, -12, 24, 18, 1e-9)),
         Inp('lat', -90, 90, (0, 90, -90, 45, 0.7 * DEG))]
    dec, ha, lat = [i.node() for i in A]
    fn = nfun(lib(), 'dechalat2alt', None, D, D, D, PD, PD, PD)
    h, l = sym.scale(ha, PI / 12), sym.scale(lat, RAD)
    sd, cd, sh, ch, sl, cl = sym.fsin(dec), sym.fcos(dec), sym.fsin(h), sym.fcos(h), sym.fsin(l), sym.fcos(l)
    N = sym.sub(sym.mul(sd, cl), sym.mul(sym.mul(cd, ch), sl))
    E = sym.scale(sym.mul(cd, sh), -1)
    Z = sym.add(sym.mul(sd, sl), sym.mul(sym.mul(cd, ch), cl))
    QS = sym.mul(cl, sh)
    QC = sym.sub(sym.mul(sl, cd), sym.mul(sym.mul(cl, sd), ch))

    def entry():
        a = [dbl(R) for _ in range(3)]
        R.assume(sym.gt(cd, 1e-9))
        R.call('dechalat2alt', (dec, ha, lat) + tuple(a))
        return [ld(R, x) for x in a]

    def lemmas(p):
        """identities between the expressions above (each checked algebraically) and elementary bounds"""
        out = []
        for x in (sym.sub(sym.add(sym.add(sym.mul(N, N), sym.mul(E, E)), sym.mul(Z, Z)), 1), sym.sub(sym.add(sym.add(sym.mul(QS, QS), sym.mul(QC, QC)), sym.mul(Z, Z)), 1)):
            if sym.is_zero(x):
                out.append(zs.CV.node(x) == 0)
        if any(type(c) is not bool and c.op == 'eq' for c in p.pc):
            d = sym.sub(dec, l)
            sn, cs = sym.fsin(d), sym.fcos(d)
            zn, zc, zd = zs.CV.node(sn), zs.CV.node(cs), zs.CV.node(d)
            for n in (sn, cs):
                out.extend(zs.CV.ax[sym._factors(n)[1].__iter__().__next__().id])
            out.append(zn == zs.CV.node(sym.sub(sym.mul(sd, cl), sym.mul(cd, sl))))
            out.append(zc == zs.CV.node(sym.add(sym.mul(cd, cl), sym.mul(sd, sl))))
            out += [zs.z3.Implies(zd >= 0, zn <= zd), zs.z3.Implies(zd <= 0, zn >= zd)]
            if all(zs.check(p.pc + [x])[0] == 'unsat' for x in (sym.gt(d, 1.1e-6), sym.lt(d, -1.1e-6))):
                out.append(zc >= 1 - zs.q(2e-12))
        return out

    def goals(p):
        alt, az, q = p.ret
        atpole = None
        if zs.check(p.pc + [sym.ge(cl, 1e-6)])[0] == 'unsat':     # within 1e-6 of a pole: sin = +-(1 - e), cos = c with tiny e, c
            e, c0 = sym.var('pole_e', 0.0, 1e-12), sym.var('pole_c', 0.0, 1e-6)
            if zs.check(p.pc + [sym.lt(lat, 0)])[0] == 'unsat':
                atpole = {sl.id: sym.sub(1, e), cl.id: c0}
            elif zs.check(p.pc + [sym.ge(lat, 0)])[0] == 'unsat':
                atpole = {sl.id: sym.sub(e, 1), cl.id: c0}
        tol = 2e-6
        mer = any(type(c) is not bool and c.op == 'eq' and isn(c.a) and c.a.id == ha.id for c in p.pc)
        if mer:             # hour angle 0: the same expressions written with the zenith distance
            d = sym.sub(dec, l)
            v = (sym.fsin(d), 0.0, sym.fcos(d), 0.0, sym.scale(sym.fsin(d), -1))
        else:
            v = (N, E, Z, QS, QC)
        for lab, c in raw(alt, az, q, tol, *v):
            if atpole:
                c = sym.subst_cond(c, atpole)
            yield lab, c

    def raw(alt, az, q, tol, N, E, Z, QS, QC):
        yield 'altitude', sym.cand(rng(alt, -90, 90), close(sym.fsin(sym.scale(alt, RAD)) if isn(alt) else math.sin(alt * RAD), Z, tol))
        yield 'azimuth-range', rng(az, 0, 360)
        yield 'azimuth', same_dir(sym.scale(az, RAD) if isn(az) else az * RAD, E, N, tol)
        yield 'parallactic', same_dir(sym.scale(q, RAD) if isn(q) else q * RAD, QS, QC, tol)
        yield 'parallactic-range', rng(q, -180, 180)

    def replay(e):
        a, b, c = outd(), outd(), outd()
        fn(e['dec'], e['ha'], e['lat'], a, b, c)
        n, ee, z, qs, qc = horizon_ref(e['dec'], e['ha'], e['lat'])
        ca = math.hypot(n, ee)
        txt = 'dechalat2alt(dec=%r rad, ha=%r h, lat=%r deg): alt=%r az=%r parang=%r; ' % (e['dec'], e['ha'], e['lat'], a[0], b[0], c[0])
        alt = math.degrees(math.atan2(z, ca))
        if not abs(a[0] - alt) < 2e-4 + (2e-4 if ca > 1e-3 else 0.01):
            return txt + 'altitude should be %r' % alt
        if not (0 <= b[0] <= 360):
            return txt + 'azimuth outside [0,360)'
        if ca > 1e-4:
            az = math.degrees(math.atan2(ee, n)) % 360
            if not adiff(b[0], az) * ca < 2e-3:
                return txt + 'azimuth should be %r' % az
            if math.cos(e['dec']) > 1e-4:
                q = math.degrees(math.atan2(qs, qc))
                if not adiff(c[0], q) * ca < 2e-3:
                    return txt + 'parallactic angle should be %r' % q
    fw.fn_check(C, 'horizon', R, entry, A, goals, replay, axioms=lemmas)


# ---------------------------------------------------------------- S06

def sun_ref(jd):
    n = jd - 2451545.0
    g = (357.528 + 0.9856003 * n) * RAD
    lam = (280.460 + 0.9856474 * n + 1.915 * math.sin(g) + 0.020 * math.sin(2 * g)) * RAD
    eps = (23.439 - 0.0000004 * n) * RAD
    return math.atan2(math.cos(eps) * math.sin(lam), math.cos(lam)) % TWOPI, math.asin(math.sin(eps) * math.sin(lam))


def S06(C):
    C.assume(REALS, 'low-precision expressions of the Astronomical Almanac page C24 (coefficients 357.528, 0.9856003, 280.460, 0.9856474, 1.915, 0.020, 23.439, 0.0000004)')
    C.bound('all Julian Dates 1900-2100')
    R = fw.new_rt(allunits(), 'lib')
    A = [Inp('jd', 2415020.0, 2488070.0, (2451545.0, 2451623.8, 2451716.5))]
    jd = A[0].node()
    fn = nfun(lib(), 'lpsun_radec', None, D, PD, PD)
    n = sym.sub(jd, 2451545.0)
    g = sym.scale(sym.add(357.528, sym.scale(n, 0.9856003)), RAD)
    lam = sym.scale(sym.add(sym.add(sym.add(280.460, sym.scale(n, 0.9856474)), sym.scale(sym.fsin(g), 1.915)), sym.scale(sym.fsin(sym.scale(g, 2)), 0.020)), RAD)
    eps = sym.scale(sym.sub(23.439, sym.scale(n, 0.0000004)), RAD)
    x, y, z = sym.fcos(lam), sym.mul(sym.fcos(eps), sym.fsin(lam)), sym.mul(sym.fsin(eps), sym.fsin(lam))

    def entry():
        a, b = dbl(R), dbl(R)
        R.call('lpsun_radec', (jd, a, b))
        return ld(R, a), ld(R, b)

    def goals(p):
        ra, dec = p.ret
        yield 'ra-range', rng(ra, 0, TWOPI)
        yield 'dec-range', rng(dec, -PI / 2, PI / 2)
        yield 'ra', same_dir(ra, y, x, 1e-9)
        yield 'dec', close(sym.fsin(dec) if isn(dec) else math.sin(dec), z, 1e-9)

    def replay(e):
        a, b = outd(), outd()
        fn(e['jd'], a, b)
        r, d = sun_ref(e['jd'])
        if not (0 <= a[0] <= TWOPI) or not adiff(a[0], r, TWOPI) < 1e-7 or not abs(b[0] - d) < 1e-7:
            return 'lpsun_radec(jd=%r) = (%r, %r), almanac formulae give (%r, %r)' % (e['jd'], a[0], b[0], r, d)
    fw.fn_check(C, 'sun', R, entry, A, goals, replay)


# ---------------------------------------------------------------- S08 .. S10: functions of the two programs

PROGS = ('sat_skymap', 'sat_visibility')
ER = 6378.1366
FLAT = 1.0 / 298.25642
AU = 149597870.7


def progrt(prog):
    import build
    return fw.new_rt(build.all_lib() + ['chealpix', prog], prog)


def proglib(prog):
    import build
    return fw.native_lib('lib_' + prog, build.all_lib() + ['chealpix', prog], ('-Dmain=prog_main',))


def has(R, name, want):
    import world
    return world.sig(R, name) == want


def put3(R, v, name='vec'):
    o = dbl(R, 3, name)
    for i in range(3): R.store(Ptr(o.o, 8 * i), 8, v[i], 'double')
    return o


def arr(v): return (fw.ctypes.c_double * len(v))(*v)


def progs_native(C, name, facets, bases, n=40, seconds=6):
    """requests to the real search program around the critical geometry, judged by the independent reference"""
    import time
    import ref
    t = time.time()
    k = 0
    while k < n and time.time() - t < seconds and not C.viol:
        w = ref.native_skymap(C.rnd, dict(C.rnd.choice(bases)), facets)
        C.validated += 1
        k += 1
        if w: C.violation(name, 'replayed: ' + w)


def dot3(a, b): return sym.add(sym.add(sym.mul(a[0], b[0]), sym.mul(a[1], b[1])), sym.mul(a[2], b[2]))


def S08(C):
    C.assume(REALS, 'satellite outside the sphere; Sun at 0.9 to 1.1 AU')
    C.bound('all satellite positions with components in [-1e6, 1e6] km outside the sphere, all Sun vectors of that distance')
    import ref
    ref.exe('sat_skymap')
    for p in PROGS: progrt(p), proglib(p)
    fw.par(C, [('shadow ' + p, lambda c, p=p: shadow(c, p)) for p in PROGS] +
           [('sunlit flag', lambda c: progs_native(c, 'sunlit flag', {'lit', 'json', 'status'}, [dict(k=4, r=180., focus='shadow', flags='H'), dict(k=3, s='any', focus='shadow')]))])


def shadow(C, prog):
    R = progrt(prog)
    A = [Inp('s%d' % i, -1e6, 1e6, (0, 6500, -6500, 42000)) for i in range(3)] + [Inp('p%d' % i, -1.65e8, 1.65e8, (0, AU, -AU)) for i in range(3)]
    S, P = [i.node() for i in A[:3]], [i.node() for i in A[3:]]
    d = [sym.sub(P[i], S[i]) for i in range(3)]
    if not has(R, 'intersect_satsun_sphere', ('ptr',) * 3):
        C.ob('shadow test of ' + prog, 'undecided', 'function not found')
        return
    f = nfun(proglib(prog), 'intersect_satsun_sphere', fw.ctypes.c_int, PD, PD, PD)
    LL = dot3(d, d)
    L = sym.fsqrt(LL)
    q = sym.scale(dot3([sym.div(x, L) for x in d], S), -1)
    c = sym.sub(dot3(S, S), ER * ER)

    def entry():
        R.assume(sym.gt(c, 0))
        R.assume(sym.gt(LL, 1e14))
        for x in ax: R.assume(x)
        e = dbl(R, 2)
        return R.call('intersect_satsun_sphere', (put3(R, S), put3(R, P), e))
    # q: distance along the line to the point closest to the centre, in front of the satellite if positive
    dark = sym.cand(sym.ge(q, 0), sym.ge(sym.sub(sym.mul(q, q), c), 0))
    lit = sym.cor(sym.lt(q, 0), sym.lt(sym.sub(sym.mul(q, q), c), 0))

    # cut: with c > 0 the far intersection is in front exactly when the closest point is
    Q, K = Inp('Q', -1e9, 1e9).node(), Inp('K', 0, 1e13).node()

    def cut(q, c):
        r = sym.fsqrt(sym.scale(sym.sub(sym.mul(q, q), c), 4))
        return sym.cor(sym.lt(sym.sub(sym.mul(q, q), c), 0), sym.cand(sym.ge(q, 0), sym.ge(sym.add(sym.scale(q, 2), r), 0)), sym.cand(sym.lt(q, 0), sym.lt(sym.add(sym.scale(q, 2), r), 0)))
    st, m = fw.z_prove([sym.gt(K, 0)], cut(Q, K), 10000)
    C.ob('shadow %s/lemma on the intersections' % prog, st if st == 'proved' else 'undecided')
    ax = [cut(q, c)] if st == 'proved' else []

    def goals(p):
        if isn(p.ret):
            yield 'flag', sym.cor(sym.cand(sym.ne(p.ret, 0), dark), sym.cand(sym.eq(p.ret, 0), lit))
        else:
            yield 'flag', dark if p.ret else lit

    def replay(e):
        s, pp = [e['s%d' % i] for i in range(3)], [e['p%d' % i] for i in range(3)]
        n, m = math.sqrt(sum(x * x for x in s)), math.sqrt(sum(x * x for x in pp))
        if n <= ER: s = [x * (ER * 1.05 + n * .01) / (n or 1) for x in s] if n else [7000., 0., 0.]
        if m < 1.35e8: pp = [x * 1.35e8 / m for x in pp] if m else [AU, 0., 0.]
        if C.rnd.random() < .7:       # put the satellite near the edge of the shadow
            u = [x / math.sqrt(sum(y * y for y in pp)) for x in pp]
            a = sum(x * y for x, y in zip(s, u))
            t = [x - a * y for x, y in zip(s, u)]
            k = math.sqrt(sum(x * x for x in t)) or 1
            w = ER * C.rnd.choice([1.001, .999, 1.02, .9, .3])
            s = [x / k * w + y * C.rnd.choice([-1, 1]) * C.rnd.choice([400, 3000, 2e4]) for x, y in zip(t, u)]
            if sum(x * x for x in s) <= ER * ER * 1.00001: return None
        d = [a - b for a, b in zip(pp, s)]
        l = math.sqrt(sum(x * x for x in d))
        u = [x / l for x in d]
        t = -sum(x * y for x, y in zip(s, u))
        near = math.sqrt(sum((x + max(t, 0) * y) ** 2 for x, y in zip(s, u)))
        if abs(near - ER) < 1e-3: return None
        v = f(arr(s), arr(pp), arr([0., 0.]))
        if bool(v) != (near < ER):
            return '%s: shadow flag %d for satellite %r Sun %r; closest approach of the ray to the centre is %.4f km (radius %.4f)' % (prog, v, s, pp, near, ER)
    fw.fn_check(C, 'shadow ' + prog, R, entry, A, goals, replay, timeout=15000, validate=4)


def native_visgeo(lb, gm, x, O, off):
    """sat_visibility's version works on the program's global data"""
    ct = fw.ctypes
    fn = nfun(lb, 'sat_geoLocation', None, PD)
    ct.c_double.from_address(ct.addressof(ct.c_char.in_dll(lb, 'p')) + O['gmst']).value = gm
    fn(arr(x))
    a = ct.addressof(ct.c_char.in_dll(lb, 'geo'))
    lon, lat, alt, th = [ct.c_double.from_address(a + k).value for k in off]
    return lat, lon, alt, th


def S09(C):
    N = 6 if fw.THOROUGH else 3
    C.assume(REALS, 'satellite more than 6300 km from the centre and at least 1 m off the axis', 'c = 1/sqrt(1 - e2 sin^2) and alt are compared through the defining equations')
    C.bound('all positions with components in [-1e6, 1e6] km, all sidereal times in [0, 24); the refinement loop is unrolled %d times, the result being proved for an exit after any of these rounds; '
            'more rounds only by native runs' % N)
    import ref
    ref.exe('sat_skymap')
    import world
    world.offsets()
    for p in PROGS: progrt(p), proglib(p)
    fw.par(C, [('sub-point ' + p, lambda c, p=p: subpoint(c, p, N)) for p in PROGS] +
           [('printed sub-point', lambda c: progs_native(c, 'printed sub-point', {'geo', 'json', 'status'}, [dict(k=3, s='any'), dict(k=4, r=180., flags='GH'), dict(k=3, r=180., flags='EH')]))])


def curvature_lemma(C, e2, tag):
    """for |s - t| <= d = 1e-10, a = sqrt(1 - e2 s^2), b = sqrt(1 - e2 t^2): s/a - t/b and (1 - e2 s t)/a - b are below 1e-9"""
    d = 1e-10
    s, t = Inp('ls', -1, 1).node(), Inp('lt', -1, 1).node()
    a, b = Inp('la', .996, 1).node(), Inp('lb', .996, 1).node()
    x, p, q = Inp('lx', -10, 10).node(), Inp('lp', .99, 1).node(), Inp('lq', -1, 1).node()
    sq = lambda u, v: sym.eq(sym.mul(u, u), sym.sub(1, sym.scale(sym.mul(v, v), e2)))
    near = [close(s, t, d)]
    ab = close(a, b, .01 * d)
    st = [('roots', near + [sq(a, s), sq(b, t)], ab),
          ('numerator 1', near + [ab], close(sym.mul(s, b), sym.mul(t, a), 1.02 * d)),
          ('numerator 2', near + [ab, sq(b, t)], close(sym.sub(1, sym.scale(sym.mul(s, t), e2)), sym.mul(a, b), .1 * d)),
          ('quotient', [sym.eq(sym.mul(x, p), q), close(q, 0.0, 1.02 * d)], close(x, 0.0, 2 * d))]
    good = True
    for n, h, g in st:
        r, m = fw.z_prove(h, g, 20000)
        C.ob('radius of curvature lemma, %s (%s)' % (n, tag), r if r == 'proved' else 'undecided')
        good &= r == 'proved'
    return good


def subpoint(c, prog, N):
    import world
    C = c
    R = progrt(prog)
    O = world.offsets()
    sm = prog == 'sat_skymap'
    A = [Inp('x%d' % i, -1e6, 1e6, (0, 6500, -6500, 42000, 1e-3)) for i in range(3)] + [Inp('g', 0, 24, (0, 12, 23.999))]
    X, g = [i.node() for i in A[:3]], A[3].node()
    off = O[prog + '_def.h']
    if not has(R, 'sat_geoLocation', ('double', 'ptr', 'ptr') if sm else ('ptr',)) or off is None or (not sm and O['gmst'] is None):
        C.ob('sub-point of ' + prog, 'undecided', 'function not found')
        return
    R.max_decisions = 4 + N
    R.branch_timeout = 80
    rr = sym.add(sym.mul(X[0], X[0]), sym.mul(X[1], X[1]))
    r = sym.fsqrt(rr)

    at, pos = [], []

    def atan2(rt, y, x):
        """direction of (x, y): an angle whose sine and cosine are proportional to y and x"""
        if not isn(y) and not isn(x): return math.atan2(y, x)
        n = world.U('ATAN2', (y, x), -PI if not (isn(x) and x.lo >= 0) else -PI / 2, PI if not (isn(x) and x.lo >= 0) else PI / 2)
        s, co = sym.fsin(n), sym.fcos(n)
        pos.append(len(rt.pc))
        rt.assume(sym.eq(sym.sub(sym.mul(x, s), sym.mul(y, co)), 0))
        rt.assume(sym.ge(sym.add(sym.mul(x, co), sym.mul(y, s)), 0))
        at.append(n)
        return n
    R.stubs['atan2'] = atan2
    e2 = FLAT * (2 - FLAT)
    root = lambda x: sym.fsqrt(sym.sub(1, sym.scale(sym.mul(x, x), e2)))

    # cut: two sines within 1e-10 give the same radii of curvature to 1e-9
    def cut(s, t):
        us, ut = root(s), root(t)
        far = sym.cor(sym.gt(sym.sub(s, t), 1.0e-10), sym.lt(sym.sub(s, t), -1.0e-10))
        return [sym.cor(far, close(sym.div(s, us), sym.div(t, ut), 1e-9)), sym.cor(far, close(sym.div(sym.sub(1, sym.scale(sym.mul(s, t), e2)), us), ut, 1e-9))]
    ok = curvature_lemma(C, e2, prog)

    def entry():
        del at[:], pos[:]
        R.assume(sym.lt(g, 24))
        R.assume(sym.ge(rr, 1e-6))
        R.assume(sym.ge(sym.add(rr, sym.mul(X[2], X[2])), 6300.0 ** 2))
        if sm:
            o = dbl(R, 4, 'geo')
            R.call('sat_geoLocation', (g, put3(R, X), o))
            out = [R.load(Ptr(o.o, k), 8, 'd') for k in off]
        else:
            q = R.gptr('p', 0)
            R.store(Ptr(q.o, O['gmst']), 8, g, 'd')
            R.call('sat_geoLocation', (put3(R, X),))
            o = R.gptr('geo', 0)
            out = [R.load(Ptr(o.o, k), 8, 'd') for k in off]
        if len(at) >= 3:
            x, y = at[-2:]
            s, t = sym.fsin(x), sym.fsin(y)
            # |sin x - sin y| <= |x - y|
            d, ds = sym.sub(x, y), sym.sub(s, t)
            R.assume(sym.cor(sym.cand(sym.le(ds, d), sym.ge(ds, sym.scale(d, -1))), sym.cand(sym.le(ds, sym.scale(d, -1)), sym.ge(ds, d))))
            if ok:
                for c in cut(s, t): R.assume(c)
        return out + [pos[-1] if pos else 0, pos[1] if len(pos) > 1 else 0]

    def goals(p):
        lon, lat, alt, th, k, k1 = p.ret
        last = p.pc[k:]         # what the final round knows
        first = p.pc[:k1]
        fact = lambda c: True if fw.z_prove(last, c, 8000)[0] == 'proved' else c
        fact1 = lambda c: True if fw.z_prove(first, c, 4000)[0] == 'proved' else c
        yield 'latitude range', rng(lat, -90, 90)
        yield 'longitude range', fact1(rng(lon, -180, 180))
        t = sym.scale(th, RAD)
        yield 'equatorial angle', fact1(same_dir(t, X[1], X[0], 1e-6))
        yield 'longitude', fact1(congruent(lon, sym.sub(th, sym.scale(g, 15)), 360.0))
        l = sym.scale(lat, RAD)
        s, co = sym.fsin(l), sym.fcos(l)
        u = root(s)
        # position along and across the local vertical
        yield 'vertical', fact(close(sym.sub(sym.add(sym.mul(r, co), sym.mul(X[2], s)), alt), sym.scale(u, ER), 1e-4))
        yield 'horizontal', fact(close(sym.sub(sym.mul(r, s), sym.mul(X[2], co)), sym.mul(sym.scale(sym.div(s, u), ER * e2), co), 1e-4))

    import ref
    ref_geo = ref.geodetic
    lb = proglib(prog)
    if sm: fn = nfun(lb, 'sat_geoLocation', None, D, PD, fw.ctypes.c_void_p)

    def replay(e):
        x, gm = [e['x%d' % i] for i in range(3)], e['g']
        if C.rnd.random() < .4: x = [v * C.rnd.choice([7e3, 4.2e4]) / 1e6 for v in x]
        if math.hypot(x[0], x[1]) < 1e-3: x[0] = 7000.
        n = math.sqrt(sum(v * v for v in x))
        if n < 6400: x = [v * 7000 / n for v in x]
        if sm:
            buf = (fw.ctypes.c_double * 4)()
            fn(gm, arr(x), buf)
            lon, lat, alt, th = [buf[k // 8] for k in off]
        else:
            lat, lon, alt, th = native_visgeo(lb, gm, x, O, off)
        w = ref_geo(gm, x)
        if not (-90.0000001 <= lat <= 90.0000001 and -180.0000001 <= lon <= 180.0000001): return '%s: sub-point of %r at sidereal time %r: lat %r lon %r out of range' % (prog, x, gm, lat, lon)
        if abs(lat - w[0]) > 1e-6 or adiff(lon, w[1]) > 1e-6 or abs(alt - w[2]) > 1e-3 or adiff(th, math.degrees(math.atan2(x[1], x[0]))) > 1e-6:
            return '%s: sub-point of %r at sidereal time %r h: lat %r lon %r alt %r angle %r; expected %r' % (prog, x, gm, lat, lon, alt, th, w)
    fw.fn_check(C, 'sub-point ' + prog, R, entry, A, goals, replay, timeout=8000, validate=0, hazard_ok=lambda p: p.hazard.kind == 'unwind')
    for _ in range(300):
        if C.viol: break
        e = fw.draw_env(A, C.rnd)
        C.validated += 1
        t = replay(e)
        if t: C.violation('sub-point ' + prog, 'replayed: ' + t, e)


# ---------------------------------------------------------------- S10

def S10(C):
    import search
    import ref
    import world
    F = {'motion', 'pos', 'json', 'status'}
    C.bound('right-ascension difference of the two programs: all pairs of right ascensions in [-2 pi, 4 pi]')
    for p in PROGS: progrt(p), proglib(p)
    J = [('right-ascension difference ' + p, lambda c, p=p: radiff(c, p)) for p in PROGS]
    J += [search.job('requested satellite', opts='ljst', flags='H', facets=F, west=True), search.job('radius search', opts='ljt', flags='' if fw.THOROUGH else 'H', facets=F, given=dict(r='180'), req=lambda q: setattr(q, 'r', 180.0), base=dict(r=180., k=4)),
          search.job('deep-space satellite', opts='ljt', flags='H', facets=F, recs=[search.GEO], given=dict(r='180'), req=lambda q: setattr(q, 'r', 180.0), base=dict(r=180., k=4)),
          ('motion of real programs', lambda c: progs_native(c, 'motion', F, [dict(k=4, r=180., flags='H', t=60), dict(k=4, r=180., flags='H', region=(0.02, 10.), t=600), dict(k=3, region=(359.99, -60.), r=3., t=300)], n=60))]
    search.go(C, J, ('one element set per request',))


def radiff(C, prog):
    R = progrt(prog)
    if not has(R, 'ra_diff', ('double', 'double')):
        C.ob('right-ascension difference of ' + prog, 'undecided', 'function not found')
        return
    A = [Inp('a', -TWOPI, 2 * TWOPI, (0, PI, TWOPI, 1e-6, TWOPI - 1e-6)), Inp('b', -TWOPI, 2 * TWOPI, (0, PI, TWOPI, 1e-6, TWOPI - 1e-6))]
    a, b = [i.node() for i in A]
    f = nfun(proglib(prog), 'ra_diff', D, D, D)

    def goals(p):
        yield 'short way', rng(p.ret, -PI, PI)
        yield 'difference', congruent(p.ret, sym.sub(a, b), TWOPI)

    def replay(e):
        v = f(e['a'], e['b'])
        if not (abs(v) <= PI + 1e-9 and adiff(v, e['a'] - e['b'], TWOPI) < 1e-9):
            return '%s: difference of right ascensions %r and %r (rad) is %r' % (prog, e['a'], e['b'], v)

    def entry():
        # both within one turn
        R.assume(sym.le(sym.sub(a, b), TWOPI))
        R.assume(sym.ge(sym.sub(a, b), -TWOPI))
        return R.call('ra_diff', (a, b))

    def rep(e):
        if abs(e['a'] - e['b']) > TWOPI: e = dict(e, a=abs(e['a']) % TWOPI, b=abs(e['b']) % TWOPI)
        return replay(e)
    fw.fn_check(C, 'right-ascension difference ' + prog, R, entry, A, goals, rep, timeout=4000)
