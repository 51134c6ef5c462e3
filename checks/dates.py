"""D-group: dates and the clock."""
import ctypes
import datetime
import math
import os
import re
import subprocess

import build
import fw
import rt as rtm
import sym
from fw import Inp, nfun
from rt import Mark, CONT, isn

T = fw.THOROUGH
MJD0 = datetime.date(1858, 11, 17).toordinal()
REALS = 'numbers as real arithmetic (relative rounding of doubles below 1e-12 is outside the claim) except where the bound says exact doubles'


def fdiv(a, b): return sym.ffloor(sym.scale(a, sym.Fr(1, b)))


def jdn(y, m, d, a=None):
    """days since 1858-11-17 of a date of the Gregorian calendar (March-based count)"""
    a = fdiv(sym.sub(14, m), 12) if a is None else a
    yy = sym.sub(sym.add(y, 4800), a)
    mm = sym.sub(sym.add(m, sym.scale(a, 12)), 3)
    v = sym.add(d, fdiv(sym.add(sym.scale(mm, 153), 2), 5))
    for t in (sym.scale(yy, 365), fdiv(yy, 4), sym.scale(fdiv(yy, 100), -1), fdiv(yy, 400)):
        v = sym.add(v, t)
    return sym.sub(v, 32045 + 2400001)


def pyday(y, m, d):
    """the same from the Python calendar; years before 1 and after 9999 by the 400-year period"""
    k = 0
    while y < 1: y, k = y + 400, k - 146097
    while y > 9999: y, k = y - 400, k + 146097
    return datetime.date(y, m, 1).toordinal() - MJD0 + d - 1 + k


def lib():
    return fw.native_lib('lib')


# ---------------------------------------------------------------- D01

FLD = [('y', 0, 4), ('m', 5, 2), ('d', 8, 2), ('h', 11, 2), ('i', 14, 2), ('s', 17, 2)]
SEP = {4: 45, 7: 45, 10: 84, 13: 58, 16: 58}


def to_mjd(t):
    f = nfun(lib(), 'date2mjd_nf', ctypes.c_int, ctypes.c_char_p, ctypes.c_void_p)
    x = ctypes.c_double(123.)
    r = f(t.encode('latin1') if isinstance(t, str) else bytes(t), ctypes.byref(x))
    return r, x.value


def wrong(t):
    """what is wrong with the conversion of a date text of the documented form or of a malformed one (None: nothing)"""
    if isinstance(t, bytes): t = t.decode('latin1')
    r, x = to_mjd(t)
    m = re.match(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)', t)
    if not m:
        if re.match(r'[\s+-]*\d+-[\s+-]*\d+-[\s+-]*\d+T[\s+-]*\d+:[\s+-]*\d+:[\s+-]*\d', t): return None
        return 'malformed date %r: status %d, value %r instead of a failure' % (t, r, x) if r == 0 or x != 0 else None
    y, mo, d, h, mi, s = map(int, m.groups())
    if not (1 <= mo <= 12 and 1 <= d <= 31 and h <= 23 and mi <= 59 and s <= 60):
        return 'date out of range %r: status %d, value %r instead of a failure' % (t, r, x) if r == 0 or x != 0 else None
    if not 1600 <= y <= 9999 or d > 28 and (datetime.date(y + (mo == 12), mo % 12 + 1, 1) if (y, mo) != (9999, 12) else datetime.date.max).toordinal() < datetime.date(y, mo, 1).toordinal() + d - 1 + ((y, mo) != (9999, 12)): return None
    w = pyday(y, mo, d) + (h * 3600 + mi * 60 + s) / 86400
    if r != 0 or abs(x - w) > 5.1e-6: return '%r: status %d, MJD %r, expected %r' % (t, r, x, w)
    if h == mi == s == 0 and x != w: return '%r: MJD %r, expected exactly %r' % (t, x, w)
    return None


def jdn2(y, m, d, c=None):
    """the same count by the month-length approximation 30.6001 (shown equal in `forms`)"""
    c = fdiv(sym.sub(14, m), 12) if c is None else c
    yy = sym.sub(y, c)
    mm = sym.add(m, sym.scale(c, 12))
    a = fdiv(yy, 100)
    v = sym.add(sym.add(sym.sub(2, a), fdiv(a, 4)), d)
    v = sym.add(v, sym.ffloor(sym.scale(yy, sym.Fr(365.25))))
    v = sym.add(v, sym.ffloor(sym.scale(sym.add(mm, 1), sym.Fr(30.6001))))
    return sym.add(v, 1720994 - 2400000)


YMD = [Inp('y', 1600, 9999, isint=True), Inp('m', 0, 99, isint=True), Inp('d', 0, 99, isint=True)]
HMS = [Inp('h', 0, 99, isint=True), Inp('i', 0, 99, isint=True), Inp('s', 0, 99, isint=True)]


def two(n): return [sym.add(fdiv(n, 10), 48), sym.add(sym.sub(n, sym.scale(fdiv(n, 10), 10)), 48)]


def digits(v, k):
    """character cells of a k-digit number"""
    if not isn(v): return [ord(c) for c in '%0*d' % (k, v)]
    o = []
    for i in range(k):
        o.append(sym.add(sym.sub(fdiv(v, 10 ** i), sym.scale(fdiv(v, 10 ** (i + 1)), 10)), 48))
    return o[::-1]


def valid(C, name, sm, early, tail='', fixed=None):
    """fixed: concrete field values by letter; the rest symbolic"""
    R = fw.new_rt(['date2mjd_nf'], 'd2m')
    fixed = fixed or {}
    ins = {i.name: i for i in YMD + HMS}
    inps = [ins[k] for k in 'ymdhis' if k not in fixed]
    V = {k: fixed.get(k, ins[k].node()) for k in 'ymdhis'}

    def cells():
        a = [0] * 19
        for k, c in SEP.items(): a[k] = c
        for n, p, k in FLD: a[p:p + k] = digits(V[n], k)
        return a + [ord(c) for c in tail]

    def entry():
        if isn(V['m']):
            R.assume(sm(V['m']))
        o = rtm.Ptr(R.new('mjd', 8), 0)
        R.store(o, 8, 123., 'double')
        r = R.call('date2mjd_nf', (R.str_obj(cells()), o))
        return r, R.load(o, 8, 'double')

    def goals(p):
        r, x = p.ret
        y, m, d, h, mi, s = [V[k] for k in 'ymdhis']
        ok = sym.cand(sym.ge(m, 1), sym.le(m, 12), sym.ge(d, 1), sym.le(d, 31), sym.le(h, 23), sym.le(mi, 59), sym.le(s, 60))
        if r != 0:
            yield 'failure only out of range', sym.neg(ok)
            yield 'value of a failure', sym.eq(x, 0) if isn(x) else x == 0
            return
        yield 'success only in range', ok
        sec = sym.scale(sym.add(sym.add(sym.scale(h, 3600), sym.scale(mi, 60)), s), sym.Fr(1, 86400)) if any(isn(z) for z in (h, mi, s)) else sym.Fr(h * 3600 + mi * 60 + s, 86400)
        tol = 5.1e-6 if sec != 0 else 1e-9
        for f in (jdn2, jdn):
            e = sym.sub(x, sym.add(f(y, m, d, early), sec))
            st = [fw.z_prove(p.pc, g, 15000)[0] if not isinstance(g, bool) else ('proved' if g else 'sat') for g in (sym.le(e, tol), sym.ge(e, -tol))]
            if st == ['proved', 'proved']: break
        yield 'MJD', True if st == ['proved', 'proved'] else sym.cand(sym.le(e, tol), sym.ge(e, -tol))

    def replay(e):
        v = dict(fixed, **{k: int(e[k]) for k in e})
        return wrong('%04d-%02d-%02dT%02d:%02d:%02d' % tuple(v[k] for k in 'ymdhis') + tail)
    fw.fn_check(C, name, R, entry, inps, goals, replay, timeout=15000, validate=3, max_paths=600)


def forms(C):
    y, m, d = YMD[0].node(), sym.var('mo', 1, 12, True), YMD[2].node()
    for lo, hi in ((1, 2), (3, 12)):
        pc = [sym.ge(m, lo), sym.le(m, hi)]
        C.ob('both day counts agree in months %d to %d' % (lo, hi), fw.z_prove(pc, sym.eq(jdn(y, m, d), jdn2(y, m, d)), 60000)[0].replace('sat', 'undecided').replace('unknown', 'undecided'))


def malformed(C):
    R = fw.new_rt(['date2mjd_nf'], 'd2m')
    base = '2020-11-27T13:45:28'
    for pos in range(-19, 18):
        if pos < 0: t, c = base[:pos + 19], None
        else: t, c = base, Inp('c', 33, 255, isint=True)
        if pos < 0 and len(t) >= 18: continue

        def entry(t=t, pos=pos, c=c):
            a = [ord(x) for x in t]
            if c:
                a[pos] = c.node() if True else 0
                n = c.node()
                R.assume(sym.cor(sym.le(n, 127), sym.le(n, 127)))
                for b in (43, 45): R.assume(sym.ne(n, b))
                if pos in SEP: R.assume(sym.ne(n, SEP[pos]))
                R.assume(sym.cor(sym.lt(n, 48), sym.gt(n, 57)))
            o = rtm.Ptr(R.new('mjd', 8), 0)
            R.store(o, 8, 123., 'double')
            r = R.call('date2mjd_nf', (R.str_obj(a), o))
            return r, R.load(o, 8, 'double')

        def replay(e, t=t, pos=pos, c=c):
            a = bytearray(t.encode())
            if c: a[pos] = int(e['c']) & 255
            if c and chr(a[pos]) in '+-0123456789 \t\n': return None
            if c and SEP.get(pos) == a[pos]: return None
            return wrong(bytes(a))
        fw.fn_check(C, 'malformed at %d' % pos, R, entry, [c] if c else [], lambda p: [('failure', p.ret[0] != 0), ('value', p.ret[1] == 0 if not isn(p.ret[1]) else sym.eq(p.ret[1], 0))], replay, validate=1)


def D01(C):
    C.assume(REALS)
    C.bound('all digits of yyyy-mm-ddThh:mm:ss with years 1600..9999, with and without a tail; one wrong byte at every position and every truncation of a date')
    lib()
    fw.new_rt(['date2mjd_nf'], 'd2m')
    anym = lambda m: True
    J = [('malformed', malformed), ('forms', forms)]
    for lab, early, sm in (('months 1, 2', 1, lambda m: sym.cand(sym.ge(m, 1), sym.le(m, 2))), ('months 3 to 12', 0, lambda m: sym.cand(sym.ge(m, 3), sym.le(m, 12))), ('no month', None, lambda m: sym.cor(sym.lt(m, 1), sym.gt(m, 12)))):
        J.append(('dates, ' + lab, lambda C, lab=lab, sm=sm, early=early: valid(C, 'dates, ' + lab, sm, early)))
        J.append(('midnights, ' + lab, lambda C, lab=lab, sm=sm, early=early: valid(C, 'midnights, ' + lab, sm, early, fixed=dict(h=0, i=0, s=0))))
        J.append(('tail, ' + lab, lambda C, lab=lab, sm=sm, early=early: valid(C, 'tail, ' + lab, sm, early, tail='.75')))
    fw.par(C, J)


# ---------------------------------------------------------------- D02

LO, HI = pyday(1600, 1, 1), pyday(9999, 12, 31)
LOW = pyday(0, 1, 1)


def to_date(fn, x):
    f = nfun(lib(), fn, ctypes.c_void_p, ctypes.c_double)
    p = f(x)
    return ctypes.string_at(p).decode('latin1') if p else None


def bad_date(fn, x):
    t = to_date(fn, x)
    if t is None:
        return '%s(%r) gives no text' % (fn, x) if LOW + 1e-6 <= x < HI + .99998 else None
    if not LOW - 1e-6 <= x <= HI + 1.00001: return '%s(%r) = %r although outside the supported span' % (fn, x, t)
    m = re.fullmatch(r'([ \d]{3}\d)-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)' + (r'\.(\d{3})' if fn == 'mjd2datef' else ''), t)
    if not m: return '%s(%r) = %r' % (fn, x, t)
    y, mo, d, h, mi, s = [int(v) for v in m.groups()[:6]]
    if not (1 <= mo <= 12 and 1 <= d and h <= 23 and mi <= 59 and s <= 59 and pyday(y, mo, d) < (pyday(y, mo + 1, 1) if mo < 12 else pyday(y + 1, 1, 1))):
        return '%s(%r) = %r is no valid date' % (fn, x, t)
    w = sym.Fr(pyday(y, mo, d)) * 86400 + h * 3600 + mi * 60 + s
    if fn == 'mjd2datef': w += sym.Fr(int(m.group(7)), 1000)
    e = float(w - sym.Fr(x) * 86400)
    if abs(e) > (.5002 if fn == 'mjd2date' else .0011): return '%s(%r) = %r, which is %.6f s away' % (fn, x, t, e)
    return None


def calendar(C, fn, lo, hi):
    R = fw.new_rt(['mjd2date'], 'm2d')
    A = [Inp('k', lo, hi, isint=True), Inp('f', 0, 1 - 1e-9 if hi < HI else 1 - 2e-5, (0, .5, .999999, .99999, .041666666, .0006944444444))]
    K, F = [a.node() for a in A]
    nf = 7 if fn == 'mjd2datef' else 6

    def entry():
        p = R.call(fn, (sym.add(K, F),))
        return None if not isinstance(p, rtm.Ptr) or p.o is None else R.cstr(p)

    def goals(p):
        if p.ret is None:
            yield 'text', False
            return
        c = p.ret
        n = 23 if nf == 7 else 19
        yield 'length', len(c) == n
        if len(c) != n: return
        v = []
        for i, (q, w) in enumerate(((0, 4), (5, 2), (8, 2), (11, 2), (14, 2), (17, 2), (20, 3))[:nf]):
            x = c[q:q + w]
            if all(type(z) is int for z in x):
                v.append(int(bytes(x)))
                yield 'digits', bytes(x).strip().isdigit() and (i == 0 or bytes(x).isdigit())
                continue
            yield 'field', type(x[0]) is Mark and x[0].w == w and all(z is CONT for z in x[1:]) and (i == 0 or '.%d' % w in x[0].fmt or '%0' in x[0].fmt)
            v.append(x[0].node)
        yield 'separators', [c[q] for q in ((4, 7, 10, 13, 16, 19)[:nf - 1])] == [ord(z) for z in '--T::.'[:nf - 1]]
        y, m, d, h, mi, s = v[:6]
        B = lambda x, a, b: sym.cand(sym.ge(x, a), sym.le(x, b)) if isn(x) else a <= x <= b
        yield 'month', B(m, 1, 12)
        yield 'day', B(d, 1, 31)
        yield 'hour', B(h, 0, 23)
        yield 'minute', B(mi, 0, 59)
        yield 'second', B(s, 0, 59)
        if nf == 7: yield 'milliseconds', B(v[6], 0, 999)
        D = jdn(y, m, d)
        nx = fdiv(m, 12)
        long = lambda q: sym.cor(sym.le(d, 28), sym.ge(jdn(sym.add(y, q), sym.sub(sym.add(m, 1), sym.scale(q, 12)), 1), sym.add(D, 1)))
        ml = [long(nx)] + [sym.cand(sym.cor(sym.le(m, 11), long(1)), sym.cor(sym.eq(m, 12), long(0)))]
        yield 'month length', True if any(fw.z_prove(p.pc, g, 12000)[0] == 'proved' for g in ml) else ml[0]
        sec = sym.add(sym.add(sym.scale(h, 3600), sym.scale(mi, 60)), s)
        if nf == 7: sec = sym.add(sec, sym.scale(v[6], sym.Fr(1, 1000)))
        for half in ((sym.Fr(1, 2) / 86400,) if nf == 6 else (0, sym.Fr(1, 2) / 86400000)):
            c0 = sym.ffloor(sym.add(F, half))
            e = sym.sub(sec, sym.scale(sym.sub(F, c0), 86400))
            tol = .5000001 if nf == 6 else .0010001
            g = sym.cand(sym.eq(D, sym.add(K, c0)), sym.le(e, tol), sym.ge(e, -tol))
            st = [fw.z_prove(p.pc, x, 20000)[0] for x in g.a] if not isinstance(g, bool) and g.op == 'and' else [fw.z_prove(p.pc, g, 20000)[0]]
            if all(x == 'proved' for x in st): break
        yield 'instant', True if all(x == 'proved' for x in st) else g

    def replay(e): return bad_date(fn, int(e['k']) + float(e['f']))
    fw.fn_check(C, '%s %d..%d' % (fn, lo, hi), R, entry, A, goals, replay, timeout=20000, validate=4, max_paths=300)


FPH = '''#include <stdarg.h>
char *FN(double); long nondet_long(void); double nondet_double(void);
static long A[7];
int sprintf(char *s, const char *f, ...)
{
  va_list ap; int i; va_start(ap, f);
  for( i = 0; i < NA; i++) A[i] = va_arg(ap, int);
  va_end(ap); s[0] = 0;
  return 19;
}
int snprintf(char *s, unsigned long n, const char *f, ...)
{
  va_list ap; int i; va_start(ap, f);
  for( i = 0; i < NA; i++) A[i] = va_arg(ap, int);
  va_end(ap); s[0] = 0;
  return 19;
}
double trunc_(double x) { return x > -9e15 && x < 9e15 ? (double)(long)x : x; }
double fmod(double x, double y) { return y == 1. ? x - trunc_(x) : nondet_double(); }
double floor(double x) { double t = trunc_(x); return t > x ? t - 1. : t; }
int main(void)
{
  long k = nondet_long();
  double x; char *r;
#ifdef SPAN
  x = nondet_double();
  __CPROVER_assume(!(x >= -678941.00001 && x <= 2973484.00001));
  r = FN(x);
  __CPROVER_assert(r == 0, "no text outside the span");
#else
  __CPROVER_assume(k >= 0 && k < (1L << 37));
  x = DAY + (double)k / 137438953472.;
  r = FN(x);
  __CPROVER_assert(r != 0, "text");
  __CPROVER_assert(A[3] >= 0 && A[3] <= 23 && A[4] >= 0 && A[4] <= 59 && A[5] >= 0 && A[5] <= 59, "fields");
#if NA > 6
  __CPROVER_assert(A[6] >= 0 && A[6] <= 999, "fields");
#endif
#endif
  return 0;
}
'''


def exact(C, fn, day):
    def replay(e): return bad_date(fn, day + e['k'] / 2. ** 37) if 0 <= e['k'] < 2 ** 37 else None

    def draw(r):
        k = r.random()
        return dict(k=int(2 ** 37 * (r.random() if k < .3 else min(.9999999, max(0, r.randrange(86400) / 86400 + r.choice([0, 0, -1e-11, 1e-11, .5 / 86400, .5 / 86400 - 1e-11]))))))
    fw.cb(C, '%s: fields in exact doubles, day %d' % (fn, day), FPH, ['mjd2date'], replay, scalars=('k',), draw=draw, defs=('FN=' + fn, 'NA=%d' % (6 if fn == 'mjd2date' else 7), 'DAY=%d.' % day), unwind=10,
          checks=False, opts=('--sat-solver', 'cadical', '--slice-formula'), timeout=240)


def span(C, fn):
    def draw(r):
        x = r.choice([-1, 1]) * 10 ** r.uniform(-3, 308) if r.random() < .5 else r.choice([LOW - 10 ** r.uniform(-4, 3), HI + 1 + 10 ** r.uniform(-4, 3), math.nan, math.inf, -math.inf])
        return dict(x=x) if not LOW - 1e-5 <= x <= HI + 1.00001 else None

    def replay(e):
        x = e['x']
        if isinstance(x, int):
            import struct
            x = struct.unpack('<d', struct.pack('<q', x))[0]
        if LOW - 1e-5 <= x <= HI + 1.00001: return None
        t = to_date(fn, x)
        return '%s(%r) = %r' % (fn, x, t) if t else None
    fw.cb(C, '%s outside the span' % fn, FPH, ['mjd2date'], replay, scalars=('x',), draw=draw, defs=('FN=' + fn, 'NA=%d' % (6 if fn == 'mjd2date' else 7), 'SPAN'), unwind=10,
          checks=False, opts=('--sat-solver', 'cadical', '--slice-formula'), timeout=240)


def D02(C):
    C.assume(REALS, 'exact doubles: sprintf by a stand-in that records its integers, fmod and floor by their definitions')
    C.bound('calendar and instant: all Modified Julian Dates of the years 1600..9999 (thorough: 0..9999) in real arithmetic; field ranges in exact doubles: all doubles of the listed days on the grid 2^-37 (all doubles between MJD 32768 and 65536 are on it); text outside the span: all doubles')
    lib()
    fw.new_rt(['mjd2date'], 'm2d')
    n = 11
    st = (HI - LO) // n + 1
    J = []
    for fn in ('mjd2datef', 'mjd2date'):
        J += [('%s part %d' % (fn, i), lambda C, fn=fn, i=i: calendar(C, fn, LO + i * st, min(LO + (i + 1) * st - 1, HI - 1))) for i in range(n)]
        J += [('%s last day' % fn, lambda C, fn=fn: calendar(C, fn, HI, HI))]
        if T: J += [('%s years 0..1599' % fn, lambda C, fn=fn: calendar(C, fn, LOW, LO - 1))]
        J += [('%s exact doubles %d' % (fn, d), lambda C, fn=fn, d=d: exact(C, fn, d)) for d in ((58849,) + ((33282, 65535, 60369) if T else ()))]
        J += [('%s span' % fn, lambda C, fn=fn: span(C, fn))]
    fw.par(C, J)


# ---------------------------------------------------------------- D03

def D03(C):
    C.assume(REALS, 'the clock is the C library function time')
    C.bound('all clock values from -2^40 to 2^40 s')
    R = C.rt(fw.new_rt(['mjdnow'], 'now'))
    d = build.scratch()
    h = os.path.join(d, 'clock.c')
    open(h, 'w').write('#include <stdlib.h>\nlong fake_time(long *t) { long v = atol( getenv( "FAKE_TIME")); if( t) *t = v; return v; }\n')
    exe = build.native('mjdnow', units=[], harness=[h], main='mjdnow', defs=('-Dtime(x)=fake_time(x)',))
    A = [Inp('t', -2 ** 40, 2 ** 40, (0, -1, 86400, 1700000000, 2 ** 31, 2 ** 31 - 1), isint=True)]
    n = A[0].node()
    R.stub_time = lambda: n

    def entry():
        r = R.call('main', ())
        return r, list(R.out)

    def goals(p):
        r, out = p.ret
        yield 'status', r == 0
        v = [s for s in out if s[0] != 's']
        t = ''.join(s[1] if s[0] == 's' else '\0' for s in out)
        yield 'form', t.rstrip('\n') == '\0' and len(t) <= 2 and bool(re.fullmatch(r'%\d*(\.\d+)?f', v[0][1])) and int((re.search(r'\.(\d+)', v[0][1]) or [0, 6])[1]) >= 5
        yield 'value', fw.close(v[0][2], sym.add(40587, sym.scale(n, sym.Fr(1, 86400))), 1e-9)

    def replay(e):
        p = subprocess.run([exe], stdout=subprocess.PIPE, env=dict(os.environ, FAKE_TIME=str(int(e['t']))), timeout=20)
        t = p.stdout.decode('latin1')
        w = 40587 + int(e['t']) / 86400
        try: x = float(t)
        except ValueError: x = math.nan
        if p.returncode or not abs(x - w) <= 1.1e-5: return 'clock %d: status %d, output %r, expected %.6f' % (e['t'], p.returncode, t, w)
        return None
    fw.fn_check(C, 'clock', R, entry, A, goals, replay)
