"""Independent reference of the two programs (numbers in, expected records out) and the native harness around them.
Used only to judge concrete runs of the real programs: replays of solver models and realisation of undischarged obligations."""
import json
import math
import os
import re
import subprocess

import build
import fw
from sky import sep_ref, gmst_ref, prec_ref, horizon_ref, sun_ref, adiff, EQ_M, POL_M

RAD = math.pi / 180
TWOPI = 2 * math.pi
ERAD = 6378.1366
FLAT = 1 / 298.25642
AU = 149597870.700
DEEP_OFF = (500.0, 700.0, 900.0)

STUB = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "norad.h"
static int n = -1, num[200];
static double tab[200][6];
static void rd(void)
{
  FILE *f = fopen(getenv("VSTUB"), "rb");
  n = 0;
  while( n < 200 && fscanf(f, "%d %lf %lf %lf %lf %lf %lf", num + n, tab[n], tab[n] + 1, tab[n] + 2, tab[n] + 3, tab[n] + 4, tab[n] + 5) == 7) n++;
  fclose(f);
}
static int run(int deep, double t, const tle_t *tle, const double *params, double *pos, double *vel)
{
  int i, k;
  if( n < 0) rd();
  for( i = 0; i < n; i++)
    if( num[i] == tle->norad_number) {
      if( params[0] != tle->norad_number * 2. + deep)       /* not the initialised model of this record */
        for( k = 0; k < 3; k++) pos[k] = 7000. + 111. * k;
      else for( k = 0; k < 3; k++) {
        pos[k] = tab[i][k] + tab[i][k + 3] * t;
        if( deep) pos[k] += 500. + 200. * k;
        if( vel) vel[k] = tab[i][k + 3];
      }
      return 0;
    }
  for( k = 0; k < 3; k++) pos[k] = 9000. + 100. * k;
  return 0;
}
void __wrap_SGP4_init(double *p, const tle_t *t) { p[0] = t->norad_number * 2.; }
void __wrap_SDP4_init(double *p, const tle_t *t) { p[0] = t->norad_number * 2. + 1.; }
int __wrap_SGP4(const double ts, const tle_t *t, const double *p, double *pos, double *vel) { return run(0, ts, t, p, pos, vel); }
int __wrap_SDP4(const double ts, const tle_t *t, const double *p, double *pos, double *vel) { return run(1, ts, t, p, pos, vel); }
'''

_exe = {}


def exe(prog, stub=True, san=False):
    key = (prog, stub, san)
    if key not in _exe:
        d = build.scratch()
        h = []
        wrap = ()
        if stub:
            p = os.path.join(d, 'stubprop.c')
            open(p, 'w').write(STUB)
            h = [p]
            wrap = ('SGP4', 'SGP4_init', 'SDP4', 'SDP4_init')
        extra = ['-Wl,--wrap=' + w for w in wrap]
        _exe[key] = build.native('%s_%d%d' % (prog, stub, san), harness=h, main=prog, extra=extra, san=san, opt='-O1' if san else '-O2')
    return _exe[key]


def run(prog, argv, files, table=None, timeout=20, san=False, stub=True):
    """run the real program in a fresh directory holding `files`; returns (stdout, exit code, stderr)"""
    d = os.path.join(build.scratch(), 'run%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    names = []
    for n, data in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode('latin1'))
        names.append(p)
    env = dict(os.environ)
    if stub:
        p = os.path.join(d, '.stub')
        with open(p, 'w') as f:
            for k, v in (table or {}).items():
                f.write('%d %s\n' % (k, ' '.join('%.17g' % x for x in v)))
        env['VSTUB'] = p
    env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:abort_on_error=0'
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=99'
    try:
        r = subprocess.run([exe(prog, stub, san)] + [a.encode('latin1') if isinstance(a, str) else a for a in argv], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout)
        out = (r.stdout.decode('latin1'), r.returncode, r.stderr.decode('latin1', 'replace'))
    except subprocess.TimeoutExpired:
        out = ('', 'timeout', '')
    for p in names:
        try:
            os.unlink(p)
        except OSError:
            pass
    return out


# ---------------------------------------------------------------- element records

def cksum(l):
    return sum(int(c) if c.isdigit() else (1 if c == '-' else 0) for c in l[:68]) % 10


class Rec:
    """one catalogued object: name, 5-character number, 8-character designator, epoch (yy, ddd.dddddddd), mean motion"""
    def __init__(self, name, num, desig='98067A  ', epoch='20012.50000000', mm=15.5, P=(7000., 0., 0.), V=(0., 0., 0.)):
        self.name, self.num, self.desig, self.epoch, self.mm = name, num, desig, epoch, mm
        self.P, self.V = P, V

    def lines(self):
        l1 = '1 %sU %-8s %s  .00001264  00000-0  29621-4 0  999' % (self.num, self.desig, self.epoch)
        l2 = '2 %s  51.6465 341.5807 0003880  94.4223  26.1197 %11.8f 1234' % (self.num, self.mm)
        l2 = l2.ljust(68, '0')[:68]
        assert len(l1) == 68 and len(l2) == 68, (len(l1), len(l2), l1, l2)
        return [l1 + str(cksum(l1)), l2 + str(cksum(l2))]

    def text(self, name=True, eol='\n'):
        return ((self.name.ljust(24) + eol) if name else '') + ''.join(l + eol for l in self.lines())

    @property
    def number(self):
        s = self.num
        if s[0].isalpha():
            return (10 + 'ABCDEFGHJKLMNPQRSTUVWXYZ'.index(s[0])) * 10000 + int(s[1:])
        return int(s.replace(' ', '0'))

    @property
    def intl(self):
        if self.desig[0] == ' ':
            return 'none'
        return ('19' if int(self.desig[:2]) >= 57 else '20') + self.desig[:2] + '-' + self.desig[2:].rstrip()

    @property
    def jd_epoch(self):
        y = int(self.epoch[:2])
        y += 1900 if y >= 57 else 2000
        import datetime
        return datetime.date(y, 1, 1).toordinal() + 1721424.5 + float(self.epoch[2:]) - 1

    @property
    def deep(self):
        return 1440.0 / self.mm >= 225

    def at(self, jd):
        t = (jd - self.jd_epoch) * 1440
        return [p + v * t + (o if self.deep else 0) for p, v, o in zip(self.P, self.V, DEEP_OFF)]


# ---------------------------------------------------------------- geometry

def observer(lat, lon, h, jd):
    s, c = math.sin(lat * RAD), math.cos(lat * RAD)
    q2 = (POL_M / EQ_M) ** 2
    n = EQ_M / math.sqrt(c * c + q2 * s * s)
    x, z = (n + h) * c / 1000, (n * q2 + h) * s / 1000
    a = (gmst_ref(jd) * 15 + lon) * RAD
    return [x * math.cos(a), x * math.sin(a), z]


def radec(obs, pos):
    d = [p - o for p, o in zip(pos, obs)]
    r = math.sqrt(sum(x * x for x in d))
    if r == 0:
        return 0, 0, 0
    return math.atan2(d[1], d[0]) % TWOPI, math.asin(max(-1, min(1, d[2] / r))), r


def prec(jd, ra, dec):
    a, d = prec_ref(jd, ra, dec)
    if d > math.pi / 2:
        d, a = math.pi - d, a + math.pi
    elif d < -math.pi / 2:
        d, a = -math.pi - d, a + math.pi
    return a % TWOPI, d


def geodetic(gmst, pos):
    th = math.degrees(math.atan2(pos[1], pos[0]))
    lon = th - gmst * 15
    while lon > 180: lon -= 360
    while lon < -180: lon += 360
    r = math.hypot(pos[0], pos[1])
    e2 = FLAT * (2 - FLAT)
    lat = math.atan2(pos[2], r)
    for _ in range(100):
        s = math.sin(lat)
        n = ERAD / math.sqrt(1 - e2 * s * s)
        new = math.atan2(pos[2] + n * e2 * s, r)
        if abs(new - lat) < 1e-14:
            lat = new
            break
        lat = new
    s = math.sin(lat)
    n = ERAD / math.sqrt(1 - e2 * s * s)
    alt = r * math.cos(lat) + (pos[2] + n * e2 * s) * s - n
    return math.degrees(lat), lon, alt, th


def sunlit(pos, sun_ra, sun_dec):
    """True / False / None (grazing)"""
    s = [AU * math.cos(sun_dec) * math.cos(sun_ra), AU * math.cos(sun_dec) * math.sin(sun_ra), AU * math.sin(sun_dec)]
    d = [a - b for a, b in zip(s, pos)]
    L = math.sqrt(sum(x * x for x in d))
    u = [x / L for x in d]
    along = -sum(x * y for x, y in zip(pos, u))
    perp = math.sqrt(max(0, sum(x * x for x in pos) - along * along))
    rr = math.sqrt(sum(x * x for x in pos))
    if rr < ERAD + 0.01:
        return None
    if abs(perp - ERAD) < 0.02:
        return None if along > -1 else True
    return not (perp < ERAD and along > 0)


def ring_nest(nside, theta, phi):
    """HEALPix nested index from the published ring/face construction"""
    z = math.cos(theta)
    za = abs(z)
    tt = (phi % TWOPI) / (math.pi / 2)
    if tt >= 4: tt -= 4
    if za <= 2 / 3:
        t1 = nside * (0.5 + tt)
        t2 = nside * z * 0.75
        jp, jm = int(math.floor(t1 - t2)), int(math.floor(t1 + t2))
        ifp, ifm = jp // nside, jm // nside
        face = (4 if ifp == 4 else ifp + 4) if ifp == ifm else (ifp if ifp < ifm else ifm + 8)
        if face == 8 and ifp == ifm: face = 4
        ix, iy = jm % nside, nside - (jp % nside) - 1
    else:
        nt = min(3, int(tt))
        tp = tt - nt
        tmp = nside * math.sqrt(3 * (1 - za))
        jp, jm = min(nside - 1, int(tp * tmp)), min(nside - 1, int((1 - tp) * tmp))
        if z >= 0:
            face, ix, iy = nt, nside - jm - 1, nside - jp - 1
        else:
            face, ix, iy = nt + 8, jp, jm
    r = 0
    for k in range(nside.bit_length() - 1):
        r |= ((ix >> k) & 1) << (2 * k) | ((iy >> k) & 1) << (2 * k + 1)
    return face * nside * nside + r


def pixels(ra, dec, eps=2e-9):
    th = math.pi / 2 - dec
    out = set()
    for da in (-eps, 0, eps):
        for dd in (-eps, 0, eps):
            out.add(ring_nest(256, min(max(th + dd, 0), math.pi), ra + da))
    return out


def date_to_jd(t):
    m = re.match(r'(\d+)-(\d+)-(\d+)T(\d+):(\d+):(\d+)', t)
    import datetime
    y, mo, d, hh, mm, ss = map(int, m.groups())
    return datetime.date(y, mo, d).toordinal() + 1721424.5 + (hh * 3600 + mm * 60 + ss) / 86400


def jd_to_date(jd):
    import datetime
    s = round((jd - 1721424.5 - 1) * 86400)
    d = datetime.datetime(1, 1, 1) + datetime.timedelta(seconds=s)
    return d.strftime('%Y-%m-%dT%H:%M:%S')


# ---------------------------------------------------------------- command lines

class Cmd:
    """a request, independent of how it is written"""
    def __init__(self, prog='sat_skymap', lat=0., lon=0., h=2400., mjd=None, date=None, region=None, r=None, t=None, n=None, s=None, i=None,
                 S=None, a=None, flags='', files=None, main_file='t.tle', recs=None, mjd2=None, date2=None, D=None):
        self.__dict__.update(locals())
        self.first = True       # file first (or last)

    def opts(self):
        o = [('l', '%s,%s,%s' % (num(self.lat), num(self.lon), num(self.h)))]
        if self.date is not None: o.append(('d', self.date + (',' + self.date2 if self.date2 else '')))
        elif self.mjd is not None: o.append(('j', num(self.mjd) + (',' + num(self.mjd2) if self.mjd2 is not None else '')))
        if self.region: o.append(('p', '%s,%s' % (num(self.region[0]), num(self.region[1]))))
        for k in 'rtnsiSD':
            v = getattr(self, k)
            if v is not None: o.append((k, v if isinstance(v, str) else num(v)))
        if self.a: o.append(('a', '%s,%s' % (num(self.a[0]), num(self.a[1]))))
        o += [(f, None) for f in self.flags]
        return o

    def argv(self, rnd=None):
        o = self.opts()
        f = self.main_file
        out = []
        if rnd: rnd.shuffle(o)
        for k, v in o:
            if v is None: out.append('-' + k)
            elif rnd and rnd.random() < 0.4: out += ['-' + k, v]
            else: out.append('-' + k + v)
        last = rnd is not None and rnd.random() < 0.5
        return out + [f] if last else [f] + out


def num(x):
    return '%d' % x if isinstance(x, int) else repr(float(x))


def parse(out):
    """one JSON object or None"""
    try:
        return json.loads(out)
    except ValueError:
        return None


def skymap_expect(c, jd_used=None):
    """expected result of a search request (Cmd with recs: the distinct catalogue records in file order)"""
    jd = 2400000.5 + 58861.5
    if c.date is not None: jd = date_to_jd(c.date)
    elif c.mjd is not None: jd = 2400000.5 + c.mjd
    if jd_used is not None: jd = jd_used
    lon = math.fmod(c.lon, 360)
    if lon < 0: lon += 360
    r = 20. if c.r is None else c.r
    t = 1 if c.t is None else int(c.t)
    n = 1000 if c.n is None else c.n
    gm = gmst_ref(jd)
    lm = (gm + lon / 15) % 24
    E = dict(jd=jd, gmst=gm, lmst=lm, lon=lon, r=r, t=t, n=n)
    single = c.s is not None or c.i is not None
    zen = 'E' in c.flags or single or c.region is None
    ra0, de0 = (lm * 15, c.lat) if zen else c.region
    E['region'] = (ra0, de0)
    E['zen'] = zen
    sra, sde = sun_ref(jd)
    E['sun'] = (math.degrees(sra), math.degrees(sde))
    E['geo'] = single or any(f in c.flags for f in 'EG') or c.a is not None
    jd2 = jd + t / 86400
    o1, o2 = observer(c.lat, lon, c.h, jd), observer(c.lat, lon, c.h, jd2)
    E['recs'] = []
    for q in c.recs:
        d = dict(rec=q, name=q.name.rstrip(), intl=q.intl, norad=q.number)
        p1, p2 = q.at(jd), q.at(jd2)
        d['pos'] = p1
        a1, d1, dist = radec(o1, p1)
        a2, d2, _ = radec(o2, p2)
        a1, d1 = prec(jd, a1, d1)
        a2, d2 = prec(jd2, a2, d2)
        d.update(ra=a1, dec=d1, ra1=a2, dec1=d2, dist=dist)
        g = geodetic(gm, p1)
        d['geo'] = g

        def sep(x, y, x0, y0):
            if 'H' in c.flags:
                return sep_ref(x, y, x0, y0)
            dx = abs(x - x0) % TWOPI
            if dx > math.pi: dx = TWOPI - dx
            return math.degrees(math.hypot(dx, y - y0))
        if 'E' in c.flags:
            s0 = sep(g[1] * RAD, g[0] * RAD, lon * RAD, c.lat * RAD)
            s1 = 1e9
        else:
            s0 = sep(a1, d1, ra0 * RAD, de0 * RAD)
            s1 = sep(a2, d2, ra0 * RAD, de0 * RAD)
        d['sep'], d['sep1'] = s0, s1
        d['lit'] = sunlit(p1, sra, sde)
        # selection
        sel = True

        def both(x, y):
            if x is False or y is False: return False
            if x is None or y is None: return None
            return True
        if c.s is not None: sel = q.number == c.s
        elif c.i is not None: sel = q.intl == c.i and q.intl != 'none'
        elif c.S is not None: sel = c.S in q.name.rstrip()
        else:
            m = min(s0, s1)
            # near a pole the right ascension, hence the plane separation, is ill-conditioned; date and sidereal time carry ~1e-5 deg
            tol = 1e-5 + 3e-6 / max(1e-6, min(math.cos(d1), math.cos(d2), math.cos(de0 * RAD)))
            cm = min(math.cos(d1), math.cos(d2), max(math.cos(de0 * RAD), 0.01))
            if c.date is not None: tol = 1e9 if cm < .02 else tol + 5e-4 / cm
            sel = None if abs(m - r) < tol else m < r
            if 'H' not in c.flags and sel is not None:      # right ascension difference close to 180 deg
                pass
        if c.a is not None and not single:
            lo, hi = sorted(c.a)
            sel = both(sel, None if min(abs(g[2] - lo), abs(g[2] - hi)) < 1e-3 else lo <= g[2] <= hi)
        if 'V' in c.flags:
            sel = both(sel, d['lit'])
        d['sel'] = sel
        E['recs'].append(d)
    E['single'] = single
    return E


def near(v, w, tol):
    return isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v - w) <= tol


def skymap_judge(c, out, rc, facets):
    """text of the first violated facet, or None; a calendar date is decoded to within half of 0.00001 day, so both the exact and the echoed instant count"""
    J = parse(out)
    if J is not None and c.date is not None:
        t = judge1(c, J, out, rc, facets, None)
        try:
            m = J['input_params']['mjd'] + 2400000.5
        except (KeyError, TypeError):
            return t
        if t and abs(m - date_to_jd(c.date)) < 0.51e-5:
            return judge1(c, J, out, rc, facets, m)
        return t
    return judge1(c, J, out, rc, facets, None)


def judge1(c, J, out, rc, facets, jd_used):
    if J is None:
        return 'output is not one JSON object: %r' % out[-300:] if 'json' in facets or rc == 'timeout' else None
    if rc != 0:
        return 'exit status %r, report %r' % (rc, J.get('errmsg')) if ('status' in facets or 'sel' in facets) else None
    E = skymap_expect(c, jd_used)
    got = J.get('satellites', [])
    info = 'I' in c.flags
    # listing
    k = 0
    want = []
    amb = False
    if not info:
        stop = False
        for d in E['recs']:
            nm = d['norad']
            hit = k < len(got) and got[k].get('norad_n') == nm
            if stop:
                if hit:
                    return 'satellite %d listed beyond the limit of %d' % (nm, E['n']) if 'sel' in facets or 'limit' in facets else None
                continue
            if d['sel'] is None:
                amb = True
            if hit and d['sel'] is False:
                return 'satellite %d (%s) is listed: separation start %.6f end %.6f radius %r altitude %.3f sunlit %r' % (
                    nm, d['name'], d['sep'], d['sep1'], E['r'], d['geo'][2], d['lit']) if 'sel' in facets else None
            if not hit and d['sel'] is True:
                return 'satellite %d (%s) is not listed: separation start %.6f end %.6f radius %r altitude %.3f sunlit %r' % (
                    nm, d['name'], d['sep'], d['sep1'], E['r'], d['geo'][2], d['lit']) if 'sel' in facets else None
            if hit:
                want.append((d, got[k]))
                k += 1
                if len(want) >= E['n'] or E['single']:
                    stop = True
        if k != len(got):
            return 'unexpected or repeated entry %r' % (got[k],) if 'sel' in facets or 'limit' in facets else None
        nf = len(got)
    else:
        if 'satellites' in J and 'sel' in facets:
            return 'information-only request returned a satellites object'
        amb = any(d['sel'] is None for d in E['recs'])
        nf = sum(1 for d in E['recs'] if d['sel'])
        nf = min(nf, E['n'])
        if E['single']: nf = min(nf, 1)
        if not amb and J.get('n_sats_found') != nf and ('sel' in facets or 'counts' in facets):
            return 'n_sats_found %r, %d satellites qualify' % (J.get('n_sats_found'), nf)
        chosen = [d['lit'] for d in E['recs'] if d['sel']][:nf]
        if not amb and None not in chosen and J.get('n_sunlit_sats') != sum(chosen) and 'counts' in facets:
            return 'n_sunlit_sats %r, %d of the %d satellites that qualify are sunlit' % (J.get('n_sunlit_sats'), sum(chosen), nf)
    xtol = 5e-5 if c.date is not None else 0
    for d, g in want:
        lab = 'satellite %d: ' % d['norad']
        da = g.get('data', [None] * 10)
        if len(da) != 10:
            return lab + 'data has %d values' % len(da)
        cd = max(1e-6, math.cos(d['dec']))
        ptol = 1.0e-4 + 0.3e-4 / cd
        if 'ident' in facets:
            if g.get('name') != d['name'] or g.get('intl_desig') != d['intl']:
                return lab + 'name %r designator %r, expected %r %r' % (g.get('name'), g.get('intl_desig'), d['name'], d['intl'])
        if 'pos' in facets:
            for nm, v, a, dd, w in (('start', da[0], d['ra'], d['dec'], 0), ('end', da[2], d['ra1'], d['dec1'], 1)):
                if not isinstance(v, (int, float)) or not 0 <= v <= 360 or abs(dd) < 1.565 and sep_ref(v * RAD, da[1 + 2 * w] * RAD, a, dd) > 1.6e-4 + xtol:
                    return lab + '%s direction (%r, %r), expected (%.5f, %.5f)' % (nm, v, da[1 + 2 * w], math.degrees(a), math.degrees(dd))
            if not near(da[4], d['dist'], 0.02 + 1e-7 * d['dist']):
                return lab + 'distance %r, expected %.3f' % (da[4], d['dist'])
        if 'sep' in facets and abs(d['dec']) < (1.56 if c.date is None else 1.5) and not near(da[5], d['sep'], ptol + 1e-4):
            return lab + 'separation %r, expected %.5f' % (da[5], d['sep'])
        if 'geo' in facets:
            if ('geoloc' in g) != E['geo']:
                return lab + 'geodetic location %s' % ('missing' if E['geo'] else 'not requested')
            if E['geo']:
                o = g['geoloc']
                if not near(o['lat'], d['geo'][0], 2e-3) or (adiff(o['lon'], d['geo'][1]) > 2e-3 + 1e-3 / cd and abs(d['geo'][0]) < 89.9) \
                        or not near(o['alt'], d['geo'][2], 0.02 + 1e-6 * abs(d['geo'][2])) or not -180.0005 <= o['lon'] <= 180.0005 \
                        or (adiff(o['theta'], d['geo'][3]) > 2e-3 and abs(d['geo'][0]) < 89.9):
                    return lab + 'geodetic location %r, expected lat %.4f lon %.4f alt %.3f theta %.4f' % ((o,) + d['geo'])
        if 'lit' in facets and d['lit'] is not None and da[8] != int(d['lit']):
            return lab + 'sunlit flag %r, expected %d' % (da[8], d['lit'])
        if 'pix' in facets and da[9] not in pixels(d['ra'], d['dec'], 1e-7 / cd if cd > 1e-3 else 1e-4) and abs(math.degrees(d['dec'])) < 89:
            return lab + 'pixel %r, expected %r' % (da[9], pixels(d['ra'], d['dec']))
        if 'motion' in facets and max(abs(d['dec']), abs(d['dec1'])) < 1.56:
            sp = sep_ref(d['ra'], d['dec'], d['ra1'], d['dec1']) * 60 / E['t']
            if not near(da[7], sp, 6e-4 + 2e-3 / E['t'] + 1e-4 * sp):
                return lab + 'speed %r, expected %.4f' % (da[7], sp)
            x = (d['ra1'] - d['ra'] + math.pi) % TWOPI - math.pi
            a, b = x * math.cos(d['dec']), d['dec1'] - d['dec']
            if math.hypot(a, b) > 3e-4 and abs(abs(x) - math.pi) > 1e-3:
                pa = math.degrees(math.atan2(a, b)) % 360
                err = math.degrees(2e-7 / math.hypot(a, b)) + 1e-3
                f = pa - da[6]
                if not (isinstance(da[6], int) and 0 <= da[6] < 360) or not (-err <= (f + 180) % 360 - 180 < 1 + err):
                    return lab + 'position angle %r, expected %.4f' % (da[6], pa)
    if 'counts' in facets:
        if not info:
            if J.get('n_sats_found') != len(got):
                return 'n_sats_found %r but %d entries are listed' % (J.get('n_sats_found'), len(got))
            lit = sum(1 for g in got if g['data'][8] == 1)
            if J.get('n_sunlit_sats') != lit:
                return 'n_sunlit_sats %r but %d entries are sunlit' % (J.get('n_sunlit_sats'), lit)
        if J.get('status') != 0:
            return 'status %r for a search that was carried out' % J.get('status')
    if 'notfound' in facets and E['single']:
        if nf == 0 and (J.get('errmsg') != 'Requested satellite not found in TLE file' or J.get('status') != 0) and not amb:
            return 'requested object absent, report %r status %r' % (J.get('errmsg'), J.get('status'))
        if nf and J.get('errmsg'):
            return 'requested object found, report %r' % J.get('errmsg')
    if 'echo' in facets:
        p = J['input_params']
        rg = p['region']
        lt = p['location']
        if not near(lt['lat'], c.lat, 1e-4) or not near(lt['lon'], E['lon'], 1e-4) or not near(lt['alt'], c.h, 0.06):
            return 'echoed location %r' % lt
        if adiff(rg['ra'], E['region'][0]) > 2e-4 or not near(rg['dec'], E['region'][1], 1e-4) or not near(rg['radius'], E['r'], 1e-4):
            return 'echoed region %r, used ra %.5f dec %.5f radius %r' % (rg, E['region'][0], E['region'][1], E['r'])
        if adiff(rg['lmst'], E['lmst'], 24) > 1.1e-4 or adiff(p['gmst'], E['gmst'], 24) > 1.1e-4:
            return 'sidereal times %r %r, expected %.5f %.5f' % (rg['lmst'], p['gmst'], E['lmst'], E['gmst'])
        if not near(p['mjd'], E['jd'] - 2400000.5, 1.01e-5):
            return 'echoed mjd %r, used %.6f' % (p['mjd'], E['jd'] - 2400000.5)
        wd = c.date if c.date is not None else jd_to_date(E['jd'])
        if c.date is not None and p['epoch_UTC'] != wd:
            return 'echoed date %r, used %r' % (p['epoch_UTC'], wd)
        if c.date is None and abs(date_to_jd(p['epoch_UTC']) - E['jd']) > 0.51 / 86400:
            return 'echoed date %r, used %r' % (p['epoch_UTC'], wd)
        if p['delta_time_s'] != E['t'] or p['max_sats'] != E['n']:
            return 'echoed step %r limit %r, used %r %r' % (p['delta_time_s'], p['max_sats'], E['t'], E['n'])
        if p['tle_file'] != c.main_file.lstrip('@'):
            return 'echoed file %r' % p['tle_file']
    if 'regionhor' in facets:
        rg = J['input_params']['region']
        ha = 0. if E['zen'] else E['lmst'] - E['region'][0] / 15
        t = horizon_cmp(E['region'][1] * RAD, ha, c.lat, rg['alt'], rg['az'], rg['parang'])
        if t: return 'region ' + t
    if 'sun' in facets:
        s = J['sun']
        if adiff(s['ra'], E['sun'][0]) > 2e-3 or not near(s['dec'], E['sun'][1], 2e-3):
            return 'sun position %r, expected %r' % (s, E['sun'])
        t = horizon_cmp(E['sun'][1] * RAD, E['lmst'] - E['sun'][0] / 15, c.lat, s['alt'], s['az'], s['parang'], 3e-3)
        if t: return 'sun ' + t
        if not -180.0005 <= s['lon'] <= 180.0005 or adiff(s['lon'], E['sun'][0] - E['gmst'] * 15) > 3e-3:
            return 'sub-solar longitude %r, expected %.4f' % (s['lon'], (E['sun'][0] - E['gmst'] * 15 + 180) % 360 - 180)
        w = sep_ref(E['region'][0] * RAD, E['region'][1] * RAD, E['sun'][0] * RAD, E['sun'][1] * RAD)
        if not near(s['separation_deg'], w, 4e-3):
            return 'sun separation %r, expected %.4f' % (s['separation_deg'], w)
    return None


def horizon_cmp(dec, ha, lat, alt, az, par, tol=1.5e-3):
    n, e, z, qs, qc = horizon_ref(dec, ha, lat)
    ca = math.hypot(n, e)
    a = math.degrees(math.atan2(z, ca))
    if abs(alt - a) > tol + 1e-3:
        return 'altitude %r, expected %.4f' % (alt, a)
    if ca > 2e-3 and adiff(az, math.degrees(math.atan2(e, n))) * ca > tol + 1e-3:
        return 'azimuth %r, expected %.4f' % (az, math.degrees(math.atan2(e, n)) % 360)
    if ca > 2e-3 and math.cos(dec) > 1e-3 and adiff(par, math.degrees(math.atan2(qs, qc))) * ca > tol + 1e-3:
        return 'parallactic angle %r, expected %.4f' % (par, math.degrees(math.atan2(qs, qc)))
    return None


# ---------------------------------------------------------------- random requests near the edges

NAMES = ['ISS (ZARYA)', 'STARLINK-31', 'STARLINK-310', 'COSMOS 2251 DEB', 'X', 'NOAA 19', 'FENGYUN 1C', 'A"B\\C', '0 TBA']


def draw_recs(rnd, c, jd, k, focus=None):
    """k records with positions that make the request interesting"""
    out = []
    obs = observer(c.lat, c.lon, c.h, jd)
    sra, sde = sun_ref(jd)
    gm = gmst_ref(jd)
    lm = gm * 15 + c.lon
    nums = rnd.sample(range(1, 99999), k)
    des = set()
    for i in range(k):
        yy, nn = rnd.choice([98, 57, 60, 19, 0, 5, 56]), rnd.randint(1, 999)
        dsg = '%02d%03d%-3s' % (yy, nn, rnd.choice(['A', 'B', 'AB', 'ABC']))
        while dsg in des:
            dsg = '%02d%03d%-3s' % (yy, rnd.randint(1, 999), 'A')
        des.add(dsg)
        ep = '%02d%012.8f' % (rnd.choice([20, 22, 99]), rnd.choice([12.5, 100.25, 1.0, 59.75, 365.5]))
        q = Rec(NAMES[i % len(NAMES)] if i < len(NAMES) else 'SAT-%d' % i, '%05d' % nums[i], dsg, ep, mm=rnd.choice([15.5, 15.5, 2.0, 1.0]))
        # place it
        kind = rnd.random()
        E = 'E' in c.flags
        t = 1 if c.t is None else int(c.t)
        if E:
            la = max(-90, min(90, c.lat + rnd.gauss(0, 1) * (c.r or 20)))
            lo = c.lon + rnd.gauss(0, 1) * (c.r or 20) / max(.05, math.cos(c.lat * RAD))
            th = (lo + gm * 15) * RAD
            R = 6378 + rnd.choice([300, 800, 20000, 36000])
            P = [R * math.cos(la * RAD) * math.cos(th), R * math.cos(la * RAD) * math.sin(th), R * math.sin(la * RAD)]
        else:
            ra0, de0 = c.region if (c.region and c.s is None and c.i is None) else (lm % 360, c.lat)
            if kind < 0.8:
                rr = (c.r if c.r is not None else 20.)
                dist = abs(rnd.gauss(0, 1)) * max(rr, 0.01)
                if rnd.random() < 0.3: dist = rr * (1 + rnd.choice([-1, 1]) * 10 ** rnd.uniform(-4, -1))
                pa = rnd.uniform(0, TWOPI)
                de = max(-89.9, min(89.9, de0 + dist * math.cos(pa)))
                ra = ra0 + dist * math.sin(pa) / (max(.02, math.cos(de * RAD)) if 'H' in c.flags else 1)
            else:
                ra, de = rnd.uniform(0, 360), math.degrees(math.asin(rnd.uniform(-1, 1)))
            # undo the precession approximately: place the topocentric J2000 direction
            a, b = ra * RAD, de * RAD
            for _ in range(3):
                a1, b1 = prec(jd, a, b)
                a -= (a1 - ra * RAD + math.pi) % TWOPI - math.pi
                b -= b1 - de * RAD
                b = max(-1.5707, min(1.5707, b))
            u = [math.cos(b) * math.cos(a), math.cos(b) * math.sin(a), math.sin(b)]
            # distance that puts it at a height above the Earth surface
            D = rnd.choice([400, 900, 2000, 12000, 36000, 60000]) * rnd.uniform(.8, 1.2)
            P = [o + D * x for o, x in zip(obs, u)]
            rn = math.sqrt(sum(x * x for x in P))
            if rn < 6550:
                P = [o + 25000 * x for o, x in zip(obs, u)]
        if focus == 'shadow' or (focus is None and rnd.random() < .2):
            R = math.sqrt(sum(x * x for x in P))
            if R > ERAD:
                # move around the shadow edge or onto the Sun-Earth line
                s = [math.cos(sde) * math.cos(sra), math.cos(sde) * math.sin(sra), math.sin(sde)]
                x = [rnd.gauss(0, 1) for _ in range(3)]
                dt = sum(a * b for a, b in zip(x, s))
                x = [a - dt * b for a, b in zip(x, s)]
                n = math.sqrt(sum(a * a for a in x))
                perp = rnd.choice([ERAD * rnd.uniform(.2, 1.5), ERAD + rnd.gauss(0, 1) * 20])
                R = max(R, perp * 1.0001, ERAD + 50)
                al = math.sqrt(R * R - perp * perp) * rnd.choice([-1, 1])
                P = [perp * a / n + al * b for a, b in zip(x, s)]
        V = [rnd.gauss(0, 1) * 4 * 60 for _ in range(3)]
        if rnd.random() < 0.15: V = [0., 0., 0.]
        if rnd.random() < 0.3: V = [v * 0.05 for v in V]
        if c.date is not None: V = [v * 0.02 for v in V]      # the decoded date carries 5 decimals in single precision
        dt = (jd - q.jd_epoch) * 1440
        off = DEEP_OFF if q.deep else (0, 0, 0)
        q.P = [p - v * dt - o for p, v, o in zip(P, V, off)]
        q.V = V
        out.append(q)
    return out


def draw_cmd(rnd, base):
    """base: dict of fixed choices; the rest random"""
    b = dict(base)
    k = b.pop('k', 3)
    focus = b.pop('focus', None)
    for x in ('site', 'mk', 'recs_mk', 'notime'): b.pop(x, None)
    c = Cmd(**b)
    c.lat = b.get('lat', rnd.choice([0., 44.52804, -29.25627, 89.9, -90., rnd.uniform(-90, 90)]))
    c.lon = b.get('lon', rnd.choice([11.33715, -70.73805, 0., 359.9, 180., rnd.uniform(-180, 360)]))
    c.h = rnd.choice([0., 23.5, 2400., 5000., -100.])
    if c.date is None and c.mjd is None and not base.get('notime'):
        if rnd.random() < 0.75: c.mjd = round(rnd.uniform(51000, 66000), 5)
        elif rnd.random() < 0.5: c.date = jd_to_date(2400000.5 + rnd.uniform(51000, 66000))
    jd = 2400000.5 + 58861.5
    if c.date is not None: jd = date_to_jd(c.date)
    elif c.mjd is not None: jd = 2400000.5 + c.mjd
    return c, jd, k, focus


def native_skymap(rnd, base, facets, shuffle=True, san=False, fix={}):
    """one random request of the family: None or a text"""
    c, jd, k, focus = draw_cmd(rnd, base)
    if base.get('region') == 'any':
        c.region = (rnd.choice([0., 0.5, 359.5, 360., 90., rnd.uniform(0, 360)]), rnd.choice([0., 45., -89., 89.5, rnd.uniform(-90, 90)]))
    if base.get('r') == 'any': c.r = rnd.choice([None, 5., 20., 0.5, 60., 100., 180.])
    if base.get('t') == 'any': c.t = rnd.choice([None, 1, 10, 60, 600])
    if base.get('n') == 'any': c.n = rnd.choice([None, 1, 2, 3])
    if base.get('a') == 'any':
        c.a = rnd.choice([(300., 1000.), (1000., 300.), (0., 5000.), (30000., 40000.)])
    if base.get('flags') == 'any':
        c.flags = ''.join(f for f in 'EGHV' if rnd.random() < 0.35)
    elif base.get('flags') and '?' in base['flags']:
        fx, op = base['flags'].split('?')
        c.flags = fx + ''.join(f for f in op if rnd.random() < 0.5)
    for a, v in fix.items():
        if a in ('lat', 'lon', 'h', 'r'): setattr(c, a, float(v))
        elif a in ('t', 'n', 's') and (a == 't' or base.get(a) is not None): setattr(c, a, int(v))
        elif a == 'mjd' and c.date is None:
            c.mjd = round(float(v), 5)
            jd = 2400000.5 + c.mjd
        elif a == 'ra0' and c.region: c.region = (min(360., max(0., float(v))), c.region[1])
        elif a == 'de0' and c.region: c.region = (c.region[0], min(90., max(-90., float(v))))
        elif a == 'alo' and c.a: c.a = (float(v), c.a[1])
        elif a == 'ahi' and c.a: c.a = (c.a[0], float(v))
    if base.get('site') is not None: c.lat, c.lon, c.h = base['site']
    c.recs = draw_recs(rnd, c, jd, k, focus)
    if base.get('recs_mk'): base['recs_mk'](rnd, c, fix)
    pick = rnd.choice(c.recs)
    if base.get('s') == 'any' and not ('s' in fix and rnd.random() < .3): c.s = rnd.choice([pick.number, pick.number, 12345678])
    if base.get('i') == 'any': c.i = rnd.choice([pick.intl, pick.intl, (pick.intl + 'Z')[:11], pick.intl[:-1], '1999-999A'])
    if base.get('S') == 'any': c.S = rnd.choice([pick.name, pick.name[:3], 'STAR', 'zzz', '-', pick.name.rstrip()[-2:]])
    if c.s is not None and base.get('files') is None: pass
    if c.s == 'any': c.s = pick.number
    if base.get('mk'): base['mk'](rnd, c, fix)
    table = {q.number: list(q.P) + list(q.V) for q in c.recs}
    files, order = lay_files(rnd, c, base.get('layout', True))
    c.recs = order
    argv = c.argv(rnd if shuffle else None)
    out, rc, err = run(c.prog, argv, files, table, san=san)
    t = skymap_judge(c, out, rc, facets)
    if t:
        return '%s\ncommand: sat_skymap %s\nfile %s:\n%s\npropagated position (km) at start: %s\noutput: %s' % (
            t, ' '.join(argv), c.main_file, '\n'.join('%s:\n%s' % (n, d) for n, d in files.items()),
            {q.number: q.at(jd) for q in c.recs}, out[:1500])
    return None


def lay_files(rnd, c, layout):
    """distribute the records over files with duplicates, junk lines, missing names; returns files and the effective record order"""
    recs = list(c.recs)
    if not layout:
        return {c.main_file: ''.join(q.text() for q in recs)}, recs
    parts = [recs]
    if rnd.random() < 0.4 and len(recs) > 1:
        j = rnd.randint(1, len(recs) - 1)
        parts = [recs[:j], recs[j:]]
    files = {}
    for i, p in enumerate(parts):
        s = ''
        for q in p:
            if rnd.random() < 0.15: s += '# a comment line\n'
            s += q.text(eol='\r\n' if rnd.random() < .3 else '\n')
            if rnd.random() < 0.15: s += '\n'
            if rnd.random() < 0.2:
                s += q.text()
        if i and rnd.random() < 0.5:
            s += parts[0][0].text()
        files['f%d.tle' % i] = s
    if len(parts) > 1 or rnd.random() < 0.3:
        l = '# list\n'
        for i in range(len(parts)):
            l += 'f%d.tle%s\n' % (i, rnd.choice(['', '  ', '\r']))
            if rnd.random() < 0.4: l += rnd.choice(['\n', '#x\n', '  \n'])
        files['all.lis'] = l
        c.main_file = '@all.lis'
    else:
        c.main_file = 'f0.tle'
    return files, recs


GEO_LINES = Rec('GOES 1', '08366', '75100A  ', '20013.25000000', 1.0).lines()
