"""V-group: the visibility program, its time loop over symbolic histories."""
import math
import os
import time

import fw
import ref
import rt as rtm
import sky
import sym
import visref
import world
from fw import Inp
from rt import isn
from search import LEO, GEO, DEB, comp, sc
from world import D2R, PI, TWOPI, AU, U, deg, rad, valeq, node_of, same_text, u_date, u_geo, u_gmst, u_hor, u_lmst, u_obs, u_pos, u_prec, u_rc, u_rs, u_sep, u_shadow, u_sun, u_topo
from world import Val, World, SRec, radiff

T = fw.THOROUGH
STEPS = 6 if T else 4
JD = 2400000.5
MIN = sym.Fr('0.0007')

INP = dict(lat=Inp('lat', -90, 90, (0, 90, -90)), lon=Inp('lon', 0, 359, (0, 180)), lonw=Inp('lon', -359, 359, (0, 180, -180)), h=Inp('h', -400, 9000, (0,)),
           mjd=Inp('mjd', 40000, 70000, (58861.5,)), mjd1=Inp('mjd1', 39999, 71000), r=Inp('r', 0, 200, (0, 20, 90, 180)), t=Inp('t', 1, 86400, (1, 3, 60), isint=True),
           tb=Inp('tb', -1000, 86400, (0, 1, -1), samp=lambda r: r.choice([0., .5, .999, -3., 1.5, r.uniform(-10, 10)])), s=Inp('s', 0, 400000, (25544,), isint=True),
           alo=Inp('alo', -100, 50000), ahi=Inp('ahi', -100, 50000))
REAL = 'instants and numbers as real arithmetic (double rounding of Julian Dates, about 0.04 ms, is outside the claim); two steps with exactly equal zenith distance are not considered'
FUN = ('propagated position, sidereal time, observer vector, topocentric direction, precession, Sun, horizon coordinates, separation, geodetic sub-point and shadow test '
       'enter the loop as uninterpreted functions of their arguments (their meaning: S, O checks, some included below)')


class Q:
    def __init__(self, **k):
        self.lat, self.lon, self.h, self.m0, self.m1 = 0.0, 0.0, 2400.0, 58861.5, 58861.6
        self.r = self.t = self.a = None
        self.N = False
        self.rec = self.recs = self.s = self.i = None
        self.file = 't.tle'
        self.dates = None
        self.__dict__.update(k)


def scale(x, f): return sym.scale(x, f) if isn(x) else float(x * f)


def spec(R, q, dt):
    """the expected report of a request for the existing satellite q.rec; branches through R on the outcome of every step.  dt: step in days"""
    E = dict(kind='none')
    lon = q.lon
    if R.branch(sym.lt(lon, 0)): lon = sym.add(lon, 360.0)
    jd0, jd1 = sym.add(q.m0, JD), sym.add(q.m1, JD)
    r = 90.0 if q.r is None else q.r
    t = 3 if q.t is None else q.t
    latr, lonr = rad(q.lat), rad(lon)
    rc, rs = u_rc(latr, q.h), u_rs(latr, q.h)
    x = q.rec
    if q.recs is not None:
        x = None
        for y in q.recs:
            if q.s is not None: c = sym.eq(y.number, q.s) if isn(q.s) or isn(y.number) else y.number == q.s
            else: c = y.intl != 'none' and world.text_eq(y.intl, q.i)
            if R.branch(c):
                x = y
                break
        if x is None:
            E['kind'] = 'absent'
            return E
        E['rec'] = x

    def at(T):
        return u_pos(x.number, x.deep, scale(sym.sub(T, x.jd), 1440))

    def obs(T): return u_obs(T, lonr, rc, rs)

    def zen(T): return scale(u_lmst(T, lon), PI / 12)
    lm0 = u_lmst(jd0, lon)
    za, zz, zp = u_hor(latr, 0.0, q.lat)
    E['input'] = dict(lat=(q.lat, 4), lon=(lon, 4), alt=(q.h, 1), ra=(scale(lm0, 15), 4), dec=(q.lat, 4), radius=(r, 4), lmst=(lm0, 4), az=(zz, 4), ralt=(za, 4), parang=(zp, 3),
                      m0=(q.m0, 5), m1=(q.m1, 5), gmst=(u_gmst(jd0), 4), dt=(t, 0))
    E['dates'] = q.dates or (u_date(q.m0), u_date(q.m1))

    def sun(T):
        a, d = u_sun(T)
        lm = u_lmst(T, lon)
        alt, az, par = u_hor(d, sym.sub(lm, scale(a, 12 / PI)), q.lat)
        return dict(ra=(deg(a), 3), dec=(deg(d), 3), az=(az, 3), alt=(alt, 3), parang=(par, 3), separation_deg=(u_sep(zen(T), latr, a, d), 3)), sym.sub(deg(a), scale(u_gmst(T), 15)), alt
    E['sunf'] = sun
    tt = jd0
    E['night'] = 0
    if q.N:
        while not R.branch(sym.cor(sym.lt(sun(tt)[2], 0), sym.gt(tt, jd1))):
            tt = sym.add(tt, MIN)
            E['night'] += 1
    start = end = best = bt = None
    E['steps'] = 0
    while R.branch(sym.le(tt, jd1)):
        E['steps'] += 1
        p = at(tt)
        if q.a is not None:
            lo, hi = q.a
            if R.branch(sym.lt(hi, lo)): lo, hi = hi, lo
            alt = u_geo(u_gmst(tt), p)[2]
            if not R.branch(sym.cand(sym.ge(alt, lo), sym.le(alt, hi))):
                E['kind'] = 'altitude'
                return E
        ra, dec, dist = u_topo(obs(tt), p)
        s = u_sep(zen(tt), latr, ra, dec)
        ok = R.branch(sym.le(s, r))
        if ok:
            a, d = u_sun(tt)
            v = [sym.mul(AU, sym.mul(sym.fcos(a), sym.fcos(d))), sym.mul(AU, sym.mul(sym.fsin(a), sym.fcos(d))), sym.mul(AU, sym.fsin(d))]
            ok = not R.branch(sym.ne(u_shadow(p, v), 0))
        if ok:
            if start is None: start, best, bt = tt, s, tt
            elif R.branch(sym.lt(s, best)): best, bt = s, tt
            else: R.assume(sym.gt(s, best))
            end = tt
        elif start is not None:
            break
        tt = sym.add(tt, dt)
    if start is None:
        E['sun'] = sun(jd0)[:2]
        return E
    E['kind'] = 'sat'
    E['duration'] = scale(sym.sub(end, start), 1440)

    def block(T):
        p = at(T)
        ra, dec, dist = u_topo(obs(T), p)
        T2 = sym.add(T, dt)
        ra1, dec1, _ = u_topo(obs(T2), at(T2))
        y, z = sym.mul(radiff(R, ra1, ra), sym.fcos(dec)), sym.sub(dec1, dec)
        pa = R.data['pa'](y, z)
        if R.branch(sym.lt(pa, 0)): pa = sym.add(pa, TWOPI)
        lm = u_lmst(T, lon)
        alt, az, _ = u_hor(dec, sym.sub(lm, scale(ra, 12 / PI)), q.lat)
        a2, d2 = u_prec(T, ra, dec)
        m = sym.sub(T, JD)
        sp = sym.div(scale(u_sep(ra, dec, ra1, dec1), 60), t if isn(t) else float(t))
        g = u_geo(u_gmst(T), p)
        return dict(date=u_date(m), pa=deg(pa), sat=dict(MJD=(m, 5), ra=(deg(a2), 4), dec=(deg(d2), 4), az=(az, 4), alt=(alt, 4), Distance=(dist, 2),
                                                         Separation=(u_sep(zen(T), latr, ra, dec), 4), Speed=(sp, 3)),
                    geo=dict(lat=(g[1], 3), lon=(g[0], 3), alt=(g[2], 2), theta=(g[3], 3)), sun=sun(T)[:2])
    E['blocks'] = dict(start=block(start), end=block(end), mid=block(scale(sym.add(start, end), sym.Fr(1, 2))), max=block(bt))
    return E


def sun_goals(g, l, J, want):
    for k, w in want[0].items():
        g.append((l + ' ' + k, valeq(J.get(k), w)))
    v = node_of(J.get('lon'))
    if v is None: g.append((l + ' lon', False))
    else:
        g.append((l + ' lon range', sym.cand(sym.ge(v, -180.0000001), sym.le(v, 180.0000001)) if isn(v) else -180 <= v <= 180))
        k = sym.scale(sym.sub(v, want[1]), sym.Fr(1, 360))
        g.append((l + ' lon value', sym.cor(*[fw.close(k, float(m), 1e-9) for m in (-2, -1, 0, 1, 2)])))


def compare(R, q, E, J, rc, facets):
    g = []
    if E['kind'] in ('altitude', 'absent'):
        return [('refused with a status', rc != 0 and J.get('status') != 0 and len(J.get('errmsg', '')) > 0), ('no satellite', 'satellite' not in J and J.get('n_sats_found') == 0)]
    g.append(('carried out', rc == 0 and J.get('status') == 0))
    S = J.get('satellite')
    g.append(('passage reported exactly when there is one', (S is not None) == (E['kind'] == 'sat') and J.get('n_sats_found') == int(E['kind'] == 'sat')))
    if (S is not None) != (E['kind'] == 'sat'): return g
    if S is None:
        g.append(('no duration', 'sunlit_duration_minutes' not in J))
        if 'data' in facets or 'night' in facets:
            sun_goals(g, 'sun', J['sun'], E['sun'])
    else:
        x = E.get('rec', q.rec)
        g.append(('number', valeq(S.get('norad_n'), (x.number, 0))))
        g.append(('name', same_text(S.get('name'), x.name)))
        g.append(('designator', same_text(S.get('intl_desig'), x.intl)))
        if 'interval' in facets: g.append(('duration', valeq(J.get('sunlit_duration_minutes'), (E['duration'], 2), 1e-6)))
        for k, f in (('start', 'interval'), ('end', 'interval'), ('mid', 'mid'), ('max', 'max')):
            if f not in facets: continue
            B = E['blocks'][k]
            j = S['sat_' + k]
            for n, w in B['sat'].items():
                if n == 'Speed' and 'motion' not in facets: continue
                g.append(('%s %s' % (k, n), valeq(j.get(n), w, 2e-9 if n == 'MJD' else None)))
            d = j.get('Date')
            g.append(('%s Date' % k, isinstance(d, Val) and same_fn(R, d.node, B['date'])))
            if 'motion' in facets:
                v = node_of(j.get('PA'))
                if v is None: g.append((k + ' PA', False))
                else:
                    a = sym.sub(B['pa'], v)
                    c = sym.cand(sym.ge(a, -1e-6), sym.lt(a, 1 + 1e-6))
                    c2 = sym.cand(sym.ge(sym.sub(a, 360.0), -1e-6), sym.lt(sym.sub(a, 360.0), 1 + 1e-6))
                    g.append((k + ' PA', sym.cand(sym.ge(v, 0), sym.le(v, 359), sym.cor(c, c2))))
            for n, w in B['geo'].items(): g.append(('%s geoloc %s' % (k, n), valeq(S['geoloc_' + k].get(n), w)))
            sun_goals(g, k + ' sun', S['sun_' + k], B['sun'])
    if 'echo' in facets:
        P = J['input_params']
        lt, rg, I = P['location'], P['region'], E['input']
        for k, v in (('lat', lt['lat']), ('lon', lt['lon']), ('alt', lt['alt']), ('ra', rg['ra']), ('dec', rg['dec']), ('radius', rg['radius']), ('lmst', rg['lmst']), ('az', rg['az']),
                     ('ralt', rg['alt']), ('parang', rg['parang']), ('m0', P['mjd_range'][0]), ('m1', P['mjd_range'][1]), ('gmst', P['gmst']), ('dt', P['delta_time_s'])):
            g.append(('echoed ' + k, valeq(v, I[k])))
        for k in (0, 1):
            d, w = P['date_utc_range'][k], E['dates'][k]
            g.append(('echoed date', d == w if isinstance(w, str) else isinstance(d, Val) and same_fn(R, d.node, w)))
        g.append(('echoed file', P['tle_file'] == q.file.lstrip('@')))
    return g


def same_fn(R, a, b):
    """the same uninterpreted function at (numerically) the same argument"""
    if a is b: return True
    if not (isn(a) and isn(b)) or a.k != 'fn' or b.k != 'fn' or a.a[0] != b.a[0]: return False
    return sym.cand(*[fw.close(x, y, 2e-9) for x, y in zip(a.a[1], b.a[1])])


def fam(C, name, opts='ljrt', order=None, flags='', rec=LEO, facets=(), steps=None, rounds=None, given=None, req=None, narrow=True, by='s', recs=None, west=False, pre=(), base=None,
        extra=None, native=16, time_limit=75, file='t.tle', last=False, refuse=None, counts=True):
    """one family of requests for `rec`; `steps`: range of numbers of steps in the requested range, `rounds`: of one-minute rounds"""
    world.FLATSKY, world.NARROW = False, narrow
    use = []
    g = dict(given or {})

    def v(n):
        use.append(INP[n])
        return INP[n].node()
    q = Q(N='N' in flags, rec=SRec(rec), file=file)
    val = {}
    for o in opts:
        if o in g: continue
        if o == 'l': q.lat, q.lon, q.h = v('lat'), v('lonw' if west else 'lon'), v('h'); val[o] = [q.lat, ',', q.lon, ',', q.h]
        elif o == 'j': q.m0, q.m1 = v('mjd'), v('mjd1'); val[o] = [q.m0, ',', q.m1]
        elif o == 'r': q.r = v('r'); val[o] = [q.r]
        elif o == 't': q.t = v('t'); val[o] = [q.t]
        elif o == 'a': q.a = (v('alo'), v('ahi')); val[o] = [q.a[0], ',', q.a[1]]
    val.update(g)
    if recs: q.recs = [SRec(x) for x in recs]
    if by == 'S':
        q.s = v('s')
        val['s'] = [q.s]
    elif isinstance(by, tuple):
        q.i = by[1]
        val['i'] = by[0]
    elif by == 's': val['s'] = rec.num.lstrip()
    elif by == 'i': val['i'] = rec.intl
    if req: req(q)
    letters = order if order is not None else [o for o in val] + list(flags)
    a = []
    for o in letters:
        if o in val: a += ['-' + o, val[o] if isinstance(val[o], (list, str)) else [val[o]]]
        else: a.append('-' + o)
    a = a + [file] if last else [file] + a
    files = {'t.tle': ''.join(x.text() for x in (recs or [rec]))}
    dt = sym.scale(q.t, sym.Fr(1, 86400)) if isn(q.t) else sym.Fr(3 if q.t is None else q.t, 86400)
    span = sym.sub(q.m1, q.m0)
    W = World('sat_visibility')
    R = W.R
    C.rt(R)
    W.files = {n: W.cells([d]) for n, d in files.items()}
    if narrow:
        def at2(rt, y, x): return U('ATAN2', (y, x), 0.0, PI)
        R.stubs['atan2'] = at2
        R.data0 = lambda y, x: U('ATAN2', (y, x), 0.0, PI)
    else:
        R.data0 = sym.fatan2
    calls = []
    for n in ('SGP4', 'SDP4'):
        f = R.stubs.get(n)
        if f is None: continue

        def wrap(rt, t, *r, f=f):
            calls.append(t)
            return f(rt, t, *r)
        R.stubs[n] = wrap

    def entry():
        del calls[:]
        R.data['pa'] = R.data0
        for c in pre: R.assume(c)
        if isn(span):
            if steps is not None:
                R.assume(sym.ge(span, scale(dt, steps[0])))
                R.assume(sym.lt(span, scale(dt, steps[1])))
            if rounds is not None:
                R.assume(sym.ge(span, MIN * rounds[0]))
                R.assume(sym.lt(span, MIN * rounds[1]))
        try:
            rc = W.main(a)
            g = []
            J = world.parse_out(R, g)
            n = len(calls)
            E = spec(R, q, dt)
            if counts and 'steps' in E:
                g.append(('evaluations', n <= E['steps'] + 8))
            return g + compare(R, q, E, J, rc, facets)
        except (ValueError, KeyError, TypeError, AttributeError, IndexError) as e:
            if os.environ.get('WDEBUG'):
                import traceback
                traceback.print_exc()
                print(str(R.out)[-300:])
            return [('report is the documented JSON object', False)]
    todo = world.prove_paths(C, name, R, entry, 6000, time_limit)
    b = dict(by=by if by in ('s', 'i') else 's' if by == 'S' else 'i', flags=flags)
    if recs: b.update(k=2, absent=True)
    if 'a' in opts: b['a'] = 'any'
    if base: b.update(base)
    world.realise(C, name, todo, R, use, facets, b, native, 25, runner=visref.native)


def job(name, **k): return (name, lambda C: fam(C, name, **k))


def go(C, J, *bounds):
    C.assume(FUN, REAL)
    C.bound('numbers of the command line symbolic over: latitude [-90,90], longitude [-359,359], height [-400,9000] m, MJD [40000,70000], radius [0,200], step 1..86400 s, altitude limits '
            '[-100,50000] km; time loop unrolled for every range of up to %d steps (families named by their number of steps), all outcomes of all steps; paths explored completely unless listed' % STEPS)
    C.bound(*bounds)
    for p in sky.PROGS: sky.progrt(p), sky.proglib(p)
    ref.exe('sat_visibility')
    ref.exe('sat_visibility', True, True)
    ref.exe('sat_skymap')
    world.offsets()
    fw.native_lib('lib')
    fw.par(C, sorted(J, key=lambda j: -('%d steps' % STEPS in j[0] or j[0] in ('rounds and steps', 'step text', 'step below one second', 'component S08', 'component S05'))))


ONE = ('interval', 'mid', 'max', 'data', 'motion', 'echo')


def V01(C):
    F = {'interval'}
    J = [job('one step, all sectors', facets=set(ONE), steps=(0, 1), narrow=False, west=True), job('no step', facets=F | {'data'}, steps=(-1, 0), narrow=False),
         job('deep-space, by designator, defaults', opts='lj', facets=F, steps=(1, 2), rec=GEO, by='i')]
    J += [job('%d steps' % n, facets=F, steps=(n - 1, n)) for n in range(2, STEPS + 1)]
    J += [comp('S08', sky.S08), comp('S09', sky.S09)]
    go(C, J)


def V02(C):
    F = {'mid', 'max'}
    J = [job('one step, all sectors', facets=set(ONE), steps=(0, 1), narrow=False), job('defaults', opts='lj', facets=F | {'motion', 'echo'}, steps=(2, 3), by='i')]
    J += [job('%d steps' % n, facets=F, steps=(n - 1, n)) for n in range(2, STEPS + 1)]
    J += [job('altitude range', opts='ljrta', facets=F, steps=(2, 3), given=dict(l='44.5,11.25,23'), req=lambda q: setattr(q, '__dict__', dict(q.__dict__, lat=44.5, lon=11.25, h=23.0)))]
    go(C, J)


def refused(C, name, args, inps, pre, world_files):
    """a step that is not at least a second is refused before anything is evaluated"""
    world.FLATSKY, world.NARROW = False, True
    W = World('sat_visibility')
    R = W.R
    C.rt(R)
    W.files = {n: W.cells([d]) for n, d in world_files.items()}
    calls = []
    for n in ('SGP4', 'SDP4'):
        if n in R.stubs: R.stubs[n] = lambda rt, *a: calls.append(1) or rtm.wrap(0, 32)

    def entry():
        del calls[:]
        for c in pre: R.assume(c)
        rc = W.main(args)
        try:
            J = world.parse_out(R, [])
            return [('refused', rc != 0 and J['status'] != 0 and 'satellite' not in J and len(J['errmsg']) > 0), ('nothing evaluated', not calls)]
        except (ValueError, KeyError, TypeError):
            return [('report', False)]
    todo = world.prove_paths(C, name, R, entry, 2000, 60)

    def nat(rnd, base, facets, fix={}):
        env = fw.draw_env(inps, rnd)
        env.update(fix)
        if any(c is False or (isn(c) and not sym.evalf(c, env)) for c in pre): return None
        av = [world.concrete(x, env) for x in args]
        return step_judge(av, world_files)
    world.realise(C, name, todo, R, inps, (), {}, 12, 20, runner=nat)


def step_judge(av, files):
    """the run ends, refuses every step below a second and carries out the others"""
    out, rc, err = ref.run('sat_visibility', av, files, {25544: [7000., 0, 0, 0, 0, 0]}, timeout=15)
    show = '\ncommand: sat_visibility %s\noutput: %s' % (' '.join(x.decode('latin1') for x in av), out[-400:])
    if rc == 'timeout': return 'the program does not end within 15 s' + show
    J = ref.parse(out)
    if J is None: return 'no JSON object' + show
    if rc == 0 and not (isinstance(J.get('input_params', {}).get('delta_time_s'), int) and J['input_params']['delta_time_s'] >= 1): return 'carried out with a step of %r s' % J.get('input_params', {}).get('delta_time_s') + show
    try:
        t = float([x for x in av if x.startswith(b'-t')][0][2:])
    except (ValueError, IndexError):
        return None
    if not t >= 1 and rc == 0: return 'a step of %r s is not refused' % t + show
    if t >= 1 and t < 2 ** 31 and rc != 0: return 'a step of %r s is refused' % t + show
    return None


def steps_native(C):
    for v in ('0', '0.5', '0.999999', '-1', '-3600', '1', '1.9', '2.5', '60', '1e-300', 'nan', 'inf', '-inf', '2147483647', '2147483648', '1e10', '1e300', '', 'x', '-0', '0x10'):
        if C.viol: return
        for d in ('58861.5,58861.5003', '58861.5003,58861.5', '58861.5,58861.5'):
            t = step_judge([b't.tle', b'-l0,0,0', b'-j' + d.encode(), b'-s25544', b'-r90', b'-t' + v.encode()] if v else [b't.tle', b'-l0,0,0', b'-j' + d.encode(), b'-s25544', b'-r90', b'-t', b''],
                           {'t.tle': LEO.text()})
            C.validated += 1
            if t:
                C.violation('steps', 'replayed: ' + t)
                return


def V03(C):
    files = {'t.tle': LEO.text()}
    tb = INP['tb']
    J = [job('%d steps' % n if n else 'end before the start', facets=set(), steps=(n - 1, n) if n else (-30, 0)) for n in range(STEPS + 1)]
    J += [('step below one second', lambda C: refused(C, 'step below one second', ['t.tle', '-l0,0,0', '-j58861.5,58861.6', '-s25544', ['-t', tb.node()]], [tb], (sym.lt(tb.node(), 1),), files)),
          job('daytime rounds', opts='ljt', facets=set(), steps=(0, 1), rounds=(1, STEPS), flags='N', pre=(sym.ge(INP['t'].node(), 600),)),
          job('fractional step', opts='lj', given=dict(t='60.9'), req=lambda q: setattr(q, 't', 60), facets={'interval'}, steps=(1, 2), base=dict(t=60)),
          ('steps of real programs', steps_native)]
    c1, c2 = sc('c1'), sc('c2')
    J.append(('step text', lambda C: world.textfam(C, 'step text', 'sat_visibility', ['t.tle', '-l0,0,0', '-j58861.5,58861.50002', '-s25544', '-t', [[c1.node(), c2.node()]]], files, [c1, c2],
                                                   expect=lambda J, rc, R: [('step of at least a second', rc != 0 or J['input_params']['delta_time_s'] if not isn(node_of(J.get('input_params', {}).get('delta_time_s', 0))) else sym.ge(node_of(J['input_params']['delta_time_s']), 1))], nocmp=True)))
    go(C, J, 'every step text of two printable characters; every step value in [-1000, 1) refused')


def V04(C):
    F = {'interval', 'mid', 'max', 'night'}
    big = (sym.ge(INP['t'].node(), 600),)
    J = [job('no round possible', opts='ljrt', flags='N', facets=F, steps=(0, 1), rounds=(0, 1), pre=big),
         job('up to 2 rounds, one step', opts='ljrt', flags='N', facets=F, steps=(0, 1), rounds=(1, 2), pre=big, order='Nrtljs'),
         job('up to 3 rounds, one step', opts='lj', flags='N', given=dict(t='900'), req=lambda q: setattr(q, 't', 900), facets=F, steps=(0, 1), rounds=(2, 3), base=dict(t=900)),
         job('rounds and steps', opts='ljr', flags='N', given=dict(t='40'), req=lambda q: setattr(q, 't', 40), facets=F, steps=(0, 4), rounds=(1, 2.5), base=dict(t=40)),
         job('after the range', opts='ljt', flags='N', facets=F, steps=(-20, 0)),
         job('all sectors', opts='ljrt', flags='N', facets=set(ONE) | {'night'}, steps=(0, 1), rounds=(0, 1), pre=big, narrow=False)]
    if T: J += [job('up to 6 rounds, one step', opts='ljrt', flags='N', facets=F, steps=(0, 1), rounds=(3, 6), pre=big)]
    J += [comp('S05', sky.S05), comp('S06', sky.S06)]
    go(C, J)


def V05(C):
    F = {'interval'}
    one = dict(opts='ljrt', steps=(0, 1), facets=F, given=dict(l='44.5,11.25,23'), req=lambda q: setattr(q, '__dict__', dict(q.__dict__, lat=44.5, lon=11.25, h=23.0)))
    c1, c2 = sc('c1', 33, 126), sc('c2', 33, 126)
    J = [job('requested number', by='S', recs=[LEO, GEO, DEB], **one), job('single record', by='S', recs=[LEO], **one),
         job('altitude filter', by='S', recs=[LEO, GEO], **dict(one, opts='ljrta')),
         job('requested designator', by=([['1998-067', [c1.node()]]][0], [ord(x) for x in '1998-067'] + [c1.node()]), recs=[LEO, GEO, DEB], **one),
         job('requested designator, symbolic year', by=(['19', [c1.node(), c2.node()], '-067A'], [ord(x) for x in '19'] + [c1.node(), c2.node()] + [ord(x) for x in '-067A']), recs=[GEO, LEO, DEB], **one)]
    bad = lambda J, rc, R: [('nonzero status', rc != 0 and J['status'] != 0), ('no satellite', 'satellite' not in J and J['n_sats_found'] == 0)]
    usage = lambda J, rc, R: [('help', J is None)]
    A = ['-l0,0,0', '-j58861.5,58861.50001']
    text = LEO.text()
    for n, args, files, exp in (
            ('no satellite requested', ['t.tle'] + A, {'t.tle': text}, bad), ('no site', ['t.tle', '-j58861.5,58861.50001', '-s25544'], {'t.tle': text}, usage),
            ('no file', ['t.tle', '-s25544'] + A, {}, bad), ('no list', ['@t.lis', '-s25544'] + A, {'t.tle': text}, bad), ('missing second file', ['@t.lis', '-s8366'] + A, {'t.lis': 't.tle\nu.tle\n', 't.tle': text}, bad),
            ('found in the first of two files', ['@t.lis', '-s25544'] + A, {'t.lis': 't.tle\nu.tle\n', 't.tle': text}, lambda J, rc, R: [('carried out', rc == 0)]),
            ('empty file', ['t.tle', '-s25544'] + A, {'t.tle': ''}, bad), ('empty list', ['@t.lis', '-s25544'] + A, {'t.lis': '# none\n\n'}, bad),
            ('missing value', ['t.tle', '-s25544'] + A + ['-r'], {'t.tle': text}, bad), ('unknown option', ['t.tle', '-s25544', '-q'] + A, {'t.tle': text}, bad),
            ('in the second file', ['@t.lis', '-s8366'] + A, {'t.lis': 't.tle\nu.tle\n', 't.tle': text, 'u.tle': GEO.text()}, lambda J, rc, R: [('carried out', rc == 0)])):
        J.append((n, lambda C, n=n, args=args, files=files, exp=exp: world.textfam(C, n, 'sat_visibility', args, files, [], expect=exp, native=1)))
    # one catalogue line with free characters: the request is answered by a record with that number only
    d = [sc('d%d' % i, 48, 57) for i in range(2)]
    l1, l2 = LEO.lines()
    J.append(('file names with free characters', lambda C: world.textfam(C, 'file names with free characters', 'sat_visibility', [[[c1.node(), c2.node()]], '-s25544'] + A, {'t.tle': text}, [c1, c2], native=4,
                                                                         expect=lambda J, rc, R: [] if J is None else [('nonzero status', rc != 0)])))
    J.append(('native requests', lambda C: natives(C, 'requests', dict(k=3, absent=True), {'interval', 'mid', 'max', 'data', 'motion', 'echo'}, 60)))
    go(C, J)


def natives(C, name, base, facets, n, seconds=8):
    t = time.time()
    k = 0
    while k < n and time.time() - t < seconds and not C.viol:
        w = visref.native(C.rnd, base, facets)
        k += 1
        C.validated += 1
        if w: C.violation(name, 'replayed: ' + w)
