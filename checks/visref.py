"""Independent reference of the visibility tool: judges concrete runs of the real program (propagation replaced by straight-line motion)."""
import math

import fw
import ref
from ref import RAD, TWOPI, near, num
from sky import sep_ref, gmst_ref, sun_ref, adiff

MINUTE = 0.0007


def slack(c, dist):
    """degrees and km by which a calendar date, decoded in single precision, may move the satellite"""
    v = 0. if c.date is None else math.sqrt(sum(x * x for x in c.found.V)) * 1e-4
    return math.degrees(v / max(dist, 1.)), v


def zen(c, lon, jd):
    return ((gmst_ref(jd) + lon / 15) % 24) * 15 * RAD, c.lat * RAD


def expect(c, jd0, jd1):
    """kind 'sat' (with the instants), 'none', 'altitude'; amb when an instant is too close to call"""
    lon = math.fmod(c.lon, 360)
    if lon < 0: lon += 360
    r = 90. if c.r is None else c.r
    dt = 3 if c.t is None else int(c.t)
    q = c.found
    E = dict(lon=lon, r=r, t=dt, amb=False, kind='none', evals=0)
    t = jd0
    if 'N' in c.flags:
        while 1:
            sra, sde = sun_ref(t)
            ra0, de0 = zen(c, lon, t)
            n, e, z, _, _ = ref_hor(sde, (ra0 - sra) * 12 / math.pi, c.lat)
            if abs(z) < 2e-5: E['amb'] = True
            if z < 0 or t > jd1: break
            t += MINUTE
    ts = te = tm = None
    best = 1e9
    while 1:
        if abs(t - jd1) < (2e-9 if c.date is None else 1e-7): E['amb'] = True
        if t > jd1: break
        p = q.at(t)
        E['evals'] += 1
        if c.a is not None:
            lo, hi = sorted(c.a)
            g = ref.geodetic(gmst_ref(t), p)[2]
            if min(abs(g - lo), abs(g - hi)) < 1e-3: E['amb'] = True
            if not lo <= g <= hi:
                E['kind'] = 'altitude'
                return E
        a, d, dist = ref.radec(ref.observer(c.lat, lon, c.h, t), p)
        s = sep_ref(*zen(c, lon, t), a, d)
        if abs(s - r) < 2e-5 + slack(c, dist)[0]: E['amb'] = True
        lit = False
        if s <= r:
            lit = ref.sunlit(p, *sun_ref(t))
            if lit is None: E['amb'] = True
        if s <= r and lit:
            if ts is None: ts = t
            te = t
            if abs(s - best) < 1e-6 + slack(c, dist)[0]: E['amb'] = True
            if s < best: best, tm = s, t
        elif ts is not None:
            break
        t += dt / 86400
    if ts is not None: E.update(kind='sat', start=ts, end=te, max=tm, mid=ts + (te - ts) / 2)
    return E


def ref_hor(dec, ha, lat):
    from sky import horizon_ref
    return horizon_ref(dec, ha, lat)


def block(c, E, J, lab, jd, facets):
    g, s, u = (J.get('%s_%s' % (k, lab)) for k in ('geoloc', 'sat', 'sun'))
    if not (isinstance(g, dict) and isinstance(s, dict) and isinstance(u, dict)): return '%s data missing' % lab
    m = jd - 2400000.5
    if not near(s['MJD'], m, 0.6e-5): return '%s: MJD %r, expected %.6f' % (lab, s['MJD'], m)
    if abs(ref.date_to_jd(s['Date']) - jd) > 0.52 / 86400: return '%s: date %r, expected %r' % (lab, s['Date'], ref.jd_to_date(jd))
    gm = gmst_ref(jd)
    lon = E['lon']
    p = c.found.at(jd)
    a, d, dist = ref.radec(ref.observer(c.lat, lon, c.h, jd), p)
    lm = (gm + lon / 15) % 24
    xd, xk = slack(c, dist)
    if 'data' in facets:
        a2, d2 = ref.prec(jd, a, d)
        if not 0 <= s['ra'] <= 360 or abs(d2) < 1.565 and sep_ref(s['ra'] * RAD, s['dec'] * RAD, a2, d2) > 1.6e-4 + xd:
            return '%s: direction (%r, %r), expected (%.5f, %.5f)' % (lab, s['ra'], s['dec'], math.degrees(a2), math.degrees(d2))
        if not near(s['Distance'], dist, 0.02 + 1e-7 * dist + xk): return '%s: distance %r, expected %.3f' % (lab, s['Distance'], dist)
        z = sep_ref(*zen(c, lon, jd), a, d)
        if not near(s['Separation'], z, 2e-4 + xd): return '%s: separation %r, expected %.5f' % (lab, s['Separation'], z)
        t = ref.horizon_cmp(d, lm - a * 12 / math.pi, c.lat, s['alt'], s['az'], 0, 1.5e-3 + xd)
        if t and not t.startswith('parall'): return '%s: %s' % (lab, t)
        w = ref.geodetic(gm, p)
        cd = max(1e-6, math.cos(w[0] * RAD))
        if not near(g['lat'], w[0], 2e-3 + xk / 100) or (adiff(g['lon'], w[1]) > 2e-3 + (1e-3 + xk / 100) / cd) or not near(g['alt'], w[2], 0.02 + 1e-6 * abs(w[2]) + xk) \
                or not -180.0005 <= g['lon'] <= 180.0005 or adiff(g['theta'], w[3]) > 2e-3 + (1e-3 + xk / 100) / cd:
            return '%s: geodetic location %r, expected %r' % (lab, g, w)
        t = sun_cmp(c, E, u, jd)
        if t: return '%s: %s' % (lab, t)
    if 'motion' in facets and c.date is None:
        jd2 = jd + E['t'] / 86400
        b, e, _ = ref.radec(ref.observer(c.lat, lon, c.h, jd2), c.found.at(jd2))
        if max(abs(d), abs(e)) < 1.56:
            sp = sep_ref(a, d, b, e) * 60 / E['t']
            if not near(s['Speed'], sp, 6e-4 + 2e-3 / E['t'] + 1e-4 * sp): return '%s: speed %r, expected %.4f' % (lab, s['Speed'], sp)
            x = (b - a + math.pi) % TWOPI - math.pi
            y, z = x * math.cos(d), e - d
            if math.hypot(y, z) > 3e-4 and abs(abs(x) - math.pi) > 1e-3:
                pa = math.degrees(math.atan2(y, z)) % 360
                err = math.degrees(2e-7 / math.hypot(y, z)) + 1e-3
                if not (isinstance(s['PA'], int) and 0 <= s['PA'] < 360) or not -err <= (pa - s['PA'] + 180) % 360 - 180 < 1 + err:
                    return '%s: position angle %r, expected %.4f' % (lab, s['PA'], pa)
    return None


def sun_cmp(c, E, u, jd):
    sra, sde = sun_ref(jd)
    gm = gmst_ref(jd)
    ra0, de0 = zen(c, E['lon'], jd)
    if adiff(u['ra'], math.degrees(sra)) > 2e-3 or not near(u['dec'], math.degrees(sde), 2e-3): return 'sun position %r, expected %.4f %.4f' % (u, math.degrees(sra), math.degrees(sde))
    t = ref.horizon_cmp(sde, (ra0 - sra) * 12 / math.pi, c.lat, u['alt'], u['az'], u['parang'], 3e-3)
    if t: return 'sun ' + t
    l = math.degrees(sra) - gm * 15
    if not -180.0005 <= u['lon'] <= 180.0005 or adiff(u['lon'], l) > 3e-3: return 'sub-solar longitude %r, expected %.4f' % (u['lon'], (l + 180) % 360 - 180)
    w = sep_ref(ra0, de0, sra, sde)
    if not near(u['separation_deg'], w, 4e-3): return 'sun separation %r, expected %.4f' % (u['separation_deg'], w)
    return None


def judge(c, out, rc, facets):
    """text of the first violated facet, or None"""
    if rc == 'timeout': return 'the program does not end'
    J = ref.parse(out)
    if J is None: return 'output is not one JSON object: %r' % out[-300:]
    if c.found is None:
        if rc == 0 or J.get('status') == 0 or 'satellite' in J or not J.get('errmsg') or J.get('n_sats_found') != 0:
            return 'requested object absent: exit status %r, report status %r, message %r' % (rc, J.get('status'), J.get('errmsg'))
        return None
    jd = []
    for k, x in enumerate((c.mjd, c.mjd2)):
        v = 2400000.5 + x if c.date is None else ref.date_to_jd((c.date, c.date2)[k])
        if c.date is not None:
            try:
                m = J['input_params']['mjd_range'][k] + 2400000.5
            except (KeyError, TypeError, IndexError):
                return 'time range missing in the report (status %r %r)' % (J.get('status'), J.get('errmsg'))
            if abs(m - v) > 0.51e-5: return 'date %s echoed as MJD %r' % ((c.date, c.date2)[k], m - 2400000.5)
            v = m
        jd.append(v)
    E = expect(c, *jd)
    if E['amb']: return None
    if E['kind'] == 'altitude':
        if rc == 0 or J.get('status') == 0 or 'satellite' in J: return 'satellite outside the altitude range: exit status %r, report status %r' % (rc, J.get('status'))
        return None
    if rc != 0 or J.get('status') != 0: return 'exit status %r, report status %r %r' % (rc, J.get('status'), J.get('errmsg'))
    P = J['input_params']
    if 'echo' in facets:
        for k in (0, 1):
            if not near(P['mjd_range'][k], jd[k] - 2400000.5, 0.6e-5) or abs(ref.date_to_jd(P['date_utc_range'][k]) - jd[k]) > 0.94 / 86400:
                return 'echoed range %r %r, used %r' % (P['mjd_range'], P['date_utc_range'], [x - 2400000.5 for x in jd])
        lt, rg = P['location'], P['region']
        lm = (gmst_ref(jd[0]) + E['lon'] / 15) % 24
        if not near(lt['lat'], c.lat, 1e-4) or not near(lt['lon'], E['lon'], 1e-4) or not near(lt['alt'], c.h, 0.06): return 'echoed location %r' % lt
        if adiff(rg['ra'], lm * 15) > 2e-3 or not near(rg['dec'], c.lat, 1e-4) or not near(rg['radius'], E['r'], 1e-4) or adiff(rg['lmst'], lm, 24) > 2e-4 \
                or adiff(P['gmst'], gmst_ref(jd[0]), 24) > 2e-4 or P['delta_time_s'] != E['t'] or P['tle_file'] != c.main_file.lstrip('@'):
            return 'echoed request %r' % P
        t = ref.horizon_cmp(c.lat * RAD, 0., c.lat, rg['alt'], rg['az'], rg['parang'])
        if t: return 'region ' + t
    if E['kind'] == 'none':
        if 'satellite' in J or J.get('n_sats_found') != 0 or 'sunlit_duration_minutes' in J:
            return 'a passage is reported (%r) although no step is within the radius and sunlit' % (J.get('satellite', {}).get('sat_start'),)
        if not isinstance(J.get('sun'), dict): return 'neither satellite nor Sun data'
        t = 'data' in facets and sun_cmp(c, E, J['sun'], jd[0])
        return t or None
    S = J.get('satellite')
    if not isinstance(S, dict) or J.get('n_sats_found') != 1:
        return 'no passage reported, expected MJD %.6f to %.6f' % (E['start'] - 2400000.5, E['end'] - 2400000.5)
    q = c.found
    if S.get('norad_n') != q.number or S.get('name') != q.name.rstrip() or S.get('intl_desig') != q.intl:
        return 'satellite %r %r %r, expected %r %r %r' % (S.get('norad_n'), S.get('name'), S.get('intl_desig'), q.number, q.name.rstrip(), q.intl)
    for k, f in (('start', 'interval'), ('end', 'interval'), ('mid', 'mid'), ('max', 'max')):
        if f in facets:
            t = block(c, E, S, k, E[k], facets)
            if t: return t + ' (passage MJD %.6f to %.6f, closest %.6f)' % tuple(E[x] - 2400000.5 for x in ('start', 'end', 'max'))
    w = (E['end'] - E['start']) * 1440
    if 'interval' in facets and not near(J['sunlit_duration_minutes'], w, 0.006 + 1e-6 * w):
        return 'duration %r minutes, expected %.4f' % (J['sunlit_duration_minutes'], w)
    return None


def place(rnd, c, jd0, jd1, q):
    """straight-line motion of q that passes near the zenith of the site around the range"""
    jm = jd0 + (jd1 - jd0) * rnd.uniform(-.3, 1.3)
    lon = c.lon
    r = 90. if c.r is None else c.r
    dt = 3 if c.t is None else int(c.t)
    o = ref.observer(c.lat, lon, c.h, jm)
    ra, de = zen(c, lon, jm)
    zen_v = [math.cos(de) * math.cos(ra), math.cos(de) * math.sin(ra), math.sin(de)]
    e_v = [-math.sin(ra), math.cos(ra), 0.]
    n_v = [-math.sin(de) * math.cos(ra), -math.sin(de) * math.sin(ra), math.cos(de)]
    D = rnd.choice([400., 900., 3000., 36000.])
    th = rnd.uniform(0, TWOPI)
    off = rnd.choice([0, .1, .5, .9, 1.05]) * min(math.tan(min(r, 75) * RAD), 3) * D
    x = [math.cos(th), math.sin(th)]
    P = [o[i] + D * zen_v[i] + off * (x[0] * e_v[i] + x[1] * n_v[i]) for i in range(3)]
    steps = rnd.choice([1, 2, 3, 5, 12])
    sp = D * min(math.tan(min(r, 75) * RAD), 3) / (steps * dt / 60.)        # km per minute
    sp = min(sp, 5000.)
    # the site moves with the Earth: add its motion
    w = TWOPI / 1436.07
    V = [sp * (-x[1] * e_v[i] + x[0] * n_v[i]) + w * (-o[1], o[0], 0)[i] for i in range(3)]
    if rnd.random() < .3: V = [v + sp * rnd.gauss(0, .4) * z for v, z in zip(V, zen_v)]
    t = (jm - q.jd_epoch) * 1440
    off = ref.DEEP_OFF if q.deep else (0, 0, 0)
    q.P = [p - v * t - b for p, v, b in zip(P, V, off)]
    q.V = V


def native(rnd, base, facets, fix={}):
    """one random request to the real program"""
    b = dict(base)
    c = ref.Cmd(prog='sat_visibility')
    c.lat = rnd.choice([0., 44.52324, -29.25627, 89., rnd.uniform(-89, 89)])
    c.lon = rnd.choice([11.33914, -70.73805, 0., 359.9, 180., rnd.uniform(-180, 360)])
    c.h = rnd.choice([0., 23.5, 2400., 5000., -100.])
    c.t = b.get('t', rnd.choice([None, 1, 2, 10, 60, 240]))
    c.r = b.get('r', rnd.choice([None, 90., 60., 30., 5.]))
    c.flags = b.get('flags', rnd.choice(['', '', 'N']))
    for k, v in fix.items():
        if k in ('lat', 'lon', 'h', 'r'): setattr(c, k, float(v))
        elif k == 't': c.t = int(v)
    dt = 3 if c.t is None else c.t
    n = rnd.choice([0, 1, 2, 5, 15, 40]) + rnd.choice([.3, .6])
    if dt > 3600: n = min(n, 2.6)
    c.mjd = round(float(fix.get('mjd', rnd.uniform(51000, 66000))), 5)
    c.mjd2 = round(c.mjd + n * dt / 86400, 5)
    if 'N' in c.flags: c.mjd2 = round(c.mjd2 + rnd.choice([0, .01, .2]), 5)
    if 'mjd1' in fix: c.mjd2 = round(float(fix['mjd1']), 5)
    if (c.mjd2 - c.mjd) * 86400 / dt > 20000: c.mjd2 = c.mjd + 20000 * dt / 86400
    if 'mjd' not in fix and rnd.random() < .3:
        c.date, c.date2 = ref.jd_to_date(2400000.5 + c.mjd), ref.jd_to_date(2400000.5 + c.mjd2)
        if c.date2 == c.date: c.date = None
    jd0, jd1 = 2400000.5 + c.mjd, 2400000.5 + c.mjd2
    c.recs = ref.draw_recs(rnd, c, jd0, b.get('k', 2))
    q = c.found = rnd.choice(c.recs)
    for x in c.recs: place(rnd, c, jd0, jd1, x)
    if b.get('a') == 'any':
        g = ref.geodetic(gmst_ref(jd0), q.at(jd0))[2]
        c.a = rnd.choice([(100., 50000.), (g - 500., g + 500.), (g + 1., 60000.), (g + 30., g - 30.)])
        c.a = tuple(max(-100., x) if x == x else 0. for x in c.a)
    if b.get('by', rnd.choice('si')) == 's': c.s = q.number
    else: c.i = q.intl
    if b.get('absent') and rnd.random() < .5:
        c.found = None
        if c.s is not None: c.s = rnd.choice([12345678, 0, c.s * 10 + 1])
        else: c.i = rnd.choice(['1999-999A', c.i[:-1], (c.i + 'Z')[:11]])
    table = {x.number: list(x.P) + list(x.V) for x in c.recs}
    if c.found is None and (c.s in table or c.i in [x.intl for x in c.recs]): return None
    files, _ = ref.lay_files(rnd, c, b.get('layout', True))
    argv = c.argv(rnd)
    out, rc, err = ref.run(c.prog, argv, files, table)
    t = judge(c, out, rc, facets)
    if t:
        return '%s\ncommand: sat_visibility %s\n%s\npropagated position (km) at the start of the range, velocity (km/min): %s\noutput: %s' % (
            t, ' '.join(argv), '\n'.join('%s:\n%s' % (n, d) for n, d in files.items()), {x.number: (x.at(jd0), x.V) for x in c.recs}, out[-1800:])
    return None
