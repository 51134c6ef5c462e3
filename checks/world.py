"""The real main() of sat_skymap executed symbolically over whole requests.

A world is a command line whose numbers are symbolic (text cells that stand for a number), element files held in memory (digits and
characters may be symbolic) and the library functions below main replaced by uninterpreted functions of their arguments (their own
meaning is decided by the S, T, D, O checks).  The oracle is the request semantics written down independently in `spec`, run on the same
path: it branches on the same conditions through the solver and yields the expected report, value by value.
"""
import json
import math
import os
import re
import subprocess
import time

import build
import fw
import ref
import rt as rtm
import sym
import zs
from ref import Rec
from rt import Ptr, Mark, PathEnd
from sym import isn

PI = math.pi
TWOPI = 2 * PI
D2R = PI / 180
R2D = 180 / PI
AU = 149597870.700


# ---------------------------------------------------------------- layout of the structures the stubs touch

_off = None


def offsets():
    global _off
    if _off is None:
        d = build.scratch()
        c = os.path.join(d, 'off.c')
        open(c, 'w').write('#include <stdio.h>\n#include <stddef.h>\n#include "norad.h"\nint main(void){printf("%zu %zu %zu\\n",offsetof(tle_t,norad_number),'
                           'offsetof(tle_t,epoch),sizeof(tle_t));return 0;}\n')
        build.run(['gcc', '-w'] + build.INC() + [c, '-o', c[:-2]])
        a = [int(x) for x in subprocess.check_output([c[:-2]]).split()]
        _off = dict(norad=a[0], epoch=a[1], size=a[2])
        for h in ('sat_skymap_def.h', 'sat_visibility_def.h'):
            open(c, 'w').write('#include <stdio.h>\n#include <stdbool.h>\n#include <stddef.h>\n#include "norad.h"\n#include "%s"\nint main(void){printf("%%zu %%zu %%zu %%zu\\n",offsetof(Geoloc,lon),'
                               'offsetof(Geoloc,lat),offsetof(Geoloc,alt),offsetof(Geoloc,theta));return 0;}\n' % h)
            try:
                build.run(['gcc', '-w'] + build.INC() + [c, '-o', c[:-2]])
                _off[h] = [int(x) for x in subprocess.check_output([c[:-2]]).split()]
            except (build.BuildError, subprocess.SubprocessError):
                _off[h] = None
        open(c, 'w').write('#include <stdio.h>\n#include <stdbool.h>\n#include <stddef.h>\n#include "norad.h"\n#include "sat_visibility_def.h"\nint main(void){(void)geo.lon;'
                           'printf("%zu\\n",offsetof(Params,gmst)+0*sizeof(p.gmst));return 0;}\n')
        try:
            build.run(['gcc', '-w'] + build.INC() + [c, '-o', c[:-2]])
            _off['gmst'] = int(subprocess.check_output([c[:-2]]))
        except (build.BuildError, subprocess.SubprocessError):
            _off['gmst'] = None
    return _off


def sig(R, name):
    f = R.mod.funcs.get(name)
    if f is None:
        return None
    ps, va = f.params()
    return tuple(t.k + (str(t.w) if t.w and t.k == 'int' else '') for t, n, b in ps)


# ---------------------------------------------------------------- uninterpreted library functions (shared by code and oracle)

def U(name, args, lo=-sym.INF, hi=sym.INF, isint=False):
    return sym.mk_fn(name, tuple(args), lo, hi, isint)


def u_lmst(jd, lon): return U('LMST', (jd, lon), 0.0, 24.0)
def u_gmst(jd): return U('GMST', (jd,), 0.0, 3.0 if NARROW else 24.0)
def u_rc(lat, h): return U('RHOC', (lat, h), 0.0, 1.1)
def u_rs(lat, h): return U('RHOS', (lat, h), -1.1, 1.1)
def u_obs(jd, lon, rc, rs): return [U('OBS%d' % i, (jd, lon, rc, rs), -7000.0, 7000.0) for i in range(3)]
def u_pos(n, deep, t): return [U('POS%d' % i, (n, deep, t), -1e6, 1e6) for i in range(3)]
def u_topo(obs, pos):
    a = tuple(obs) + tuple(pos)
    if FLATSKY is True: return 0.5, 0.25, U('TDIST', a, 0.0, 2e6)
    return U('TRA', a, 0.0, 3.0 if NARROW else TWOPI), U('TDEC', a, -PI / 2, PI / 2), U('TDIST', a, 0.0, 2e6)
FLATSKY = False         # P05, P06: the direction of every satellite is one constant (selection by request, not by direction)


def u_prec(jd, ra, dec):
    if FLATSKY: return 0.5, 0.25 if FLATSKY is True else U('PDEC', (jd, ra, dec), -PI / 2, PI / 2)
    return U('PRA', (jd, ra, dec), 0.0, TWOPI), U('PDEC', (jd, ra, dec), -PI / 2, PI / 2)
NARROW = False          # loop families: Sun, satellites and sidereal time in sectors without a wrap (wraps are covered by the one-step families)
def u_sun(jd): return U('SRA', (jd,), 1.0 if NARROW else 0.0, 2.0 if NARROW else TWOPI), U('SDEC', (jd,), -0.42, 0.42)
def u_hor(dec, ha, lat):
    a = (dec, ha, lat)
    return U('HALT', a, -90.0, 90.0), U('HAZ', a, 0.0, 360.0), U('HPAR', a, -180.0, 180.0)
def u_pix(nside, th, ph): return U('PIX', (nside, th, ph), 0, 786431, True)
def u_geo(gm, pos):
    a = (gm,) + tuple(pos)
    return U('GLON', a, -180.0, 180.0), U('GLAT', a, -90.0, 90.0), U('GALT', a, -7000.0, 1e6), U('GTH', a, -180.0, 180.0)
def u_shadow(pos, sun): return U('SHADOW', tuple(pos) + tuple(sun), 0, 1, True)
def u_date(mjd): return U('DATE', (mjd,))


def okey(x):
    """order key that does not depend on rounding noise of coefficients"""
    if not isn(x): return (0, '%.9g' % x)
    c, d = sym._term(x)
    return (1,) + tuple(sorted('%d:%.9g' % (n.id, k) for n, k in d.items())) + ('%.9g' % c,)


def u_sep(a, b, c, d):
    p, q = (a, b), (c, d)
    if (okey(q[0]), okey(q[1])) < (okey(p[0]), okey(p[1])):
        p, q = q, p
    return U('SEP', p + q, 0.0, 180.0) if p != q else 0.0


class World:
    def __init__(self, prog='sat_skymap', keep=()):
        """keep: library functions executed as they are instead of as uninterpreted functions"""
        self.prog = prog
        self.R = R = fw.new_rt(build.all_lib() + ['chealpix', prog], prog)
        R.branch_timeout = 80
        R.max_steps = 400000
        sym.S.linapprox = True
        O = offsets()

        def ld(p, i=0):
            return R.load(Ptr(p.o, p.off + 8 * i), 8, 'double')

        def st(p, v, i=0):
            if type(p) is Ptr:
                R.store(Ptr(p.o, p.off + 8 * i), 8, v, 'double')

        def num(tle):
            return R.load(Ptr(tle.o, tle.off + O['norad']), 4, 'i32')

        def init(deep):
            def f(rt, p, tle):
                st(p, U('MODEL', (num(tle), deep)))
            return f

        def prop(deep):
            def f(rt, t, tle, p, pos, vel):
                n = num(tle)
                m = ld(p)
                ok = m is U('MODEL', (n, deep))
                for i in range(3):
                    st(pos, U('POS%d' % i, (n, deep, t), -1e6, 1e6) if ok else U('BADPOS%d' % i, (n, deep, t), -1e6, 1e6), i)
                if type(vel) is Ptr:
                    for i in range(3):
                        st(vel, U('VEL%d' % i, (n, deep, t), -1e6, 1e6), i)
                return 0
            return f

        def lmst(rt, jd, lon, g):
            st(g, u_gmst(jd))
            return u_lmst(jd, lon)

        def parallax(rt, lat, h, a, b):
            st(a, u_rc(lat, h)); st(b, u_rs(lat, h))

        def obs(rt, jd, lon, rc, rs, v):
            for i, x in enumerate(u_obs(jd, lon, rc, rs)):
                st(v, x, i)

        def topo(rt, o, s, ra, dec, d):
            a, b, c = u_topo([ld(o, i) for i in range(3)], [ld(s, i) for i in range(3)])
            st(ra, a); st(dec, b); st(d, c)

        def prec(rt, jd, ra, dec):
            a, b = u_prec(jd, ld(ra), ld(dec))
            st(ra, a); st(dec, b)

        def sun(rt, jd, ra, dec):
            a, b = u_sun(jd)
            st(ra, a); st(dec, b)

        def hor(rt, dec, ha, lat, alt, az, par):
            a, b, c = u_hor(dec, ha, lat)
            st(alt, a); st(az, b); st(par, c)

        def pix(rt, nside, th, ph, p):
            R.store(p, 8, u_pix(nside, th, ph), 'i64')

        def shadow(rt, pos, sun, eray):
            st(eray, 0.0, 0); st(eray, 0.0, 1)
            return u_shadow([ld(pos, i) for i in range(3)], [ld(sun, i) for i in range(3)])

        def mdate(rt, mjd):
            if not isn(mjd):
                return R.getfn('mjd2date')(mjd)
            o = R.data.get('datebuf')
            if o is None:
                o = R.data['datebuf'] = R.new('date', 20)
            R.put_cells(Ptr(o, 0), [Mark(u_date(mjd), 19, '%s')] + [rtm.CONT] * 18)
            return Ptr(o, 0)

        S = R.stubs
        want = dict(SGP4_init=(init(0), 2), SDP4_init=(init(1), 2), SGP4=(prop(0), 5), SDP4=(prop(1), 5), lmst_hr=(lmst, 3),
                    earth_lat_alt_to_parallax=(parallax, 4), observer_cartesian_coords=(obs, 5), get_satellite_ra_dec_delta=(topo, 5),
                    epoch_of_date_to_j2000=(prec, 3), lpsun_radec=(sun, 3), dechalat2alt=(hor, 6), skysep_h=(lambda rt, *a: u_sep(*a), 4),
                    ang2pix_nest=(pix, 4), mjd2date=(mdate, 1))
        for n, (f, k) in want.items():
            if n not in keep and n in R.mod.funcs and len(sig(R, n)) == k:
                S[n] = f
        if len(sig(R, 'intersect_satsun_sphere') or ()) == 3:
            S['intersect_satsun_sphere'] = shadow
        go = O.get(prog + '_def.h')
        gs = len(sig(R, 'sat_geoLocation') or ())
        if go:
            def geo3(rt, gm, pos, g):
                v = u_geo(gm, [ld(pos, i) for i in range(3)])
                for k, x in zip(go, v):
                    R.store(Ptr(g.o, g.off + k), 8, x, 'double')

            def geo1(rt, pos):
                gm = R.load(R.gptr('p', O['gmst']), 8, 'double')
                v = u_geo(gm, [ld(pos, i) for i in range(3)])
                g = R.gptr('geo', 0)
                for k, x in zip(go, v):
                    R.store(Ptr(g.o, g.off + k), 8, x, 'double')
            if gs == 3 and prog == 'sat_skymap':
                S['sat_geoLocation'] = geo3
            if gs == 1 and prog == 'sat_visibility' and O.get('gmst') is not None:
                S['sat_geoLocation'] = geo1
        self.files = {}

        def fs(name):
            n = name[2:] if name.startswith('./') else name
            return self.files.get(n)
        R.fs = fs
        R.fnames = lambda: [x for n in self.files for x in (n, './' + n)]

    # ---------------------------------------------------------------- running

    def cells(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out += [rtm.wrap(b, 8) for b in p.encode('latin1')]
            elif isinstance(p, list):
                out += p
            elif isn(p):
                out.append(Mark(p, 1, '%s', p.lo < 0))
            else:
                out += [rtm.wrap(b, 8) for b in repr(p).encode()] if isinstance(p, (int, float)) else [p]
        return out

    def argv(self, args):
        """args: strings or lists of parts (text, numbers, nodes = symbolic numbers, lists of cells)"""
        R = self.R
        args = [self.prog] + list(args)
        o = R.new('argv', 8 * (len(args) + 1))
        for i, a in enumerate(args):
            cs = self.cells([a] if isinstance(a, str) else a)
            R._put(o, 8 * i, 8, R.str_obj(cs, 'argv[%d]' % i))
        R._put(o, 8 * len(args), 8, 0)
        return len(args), Ptr(o, 0)

    def main(self, args):
        """exit status of the program on the current path (its output is R.out)"""
        try:
            r = self.R.call('main', self.argv(args))
        except PathEnd as e:
            r = e.code
        if r is None:
            r = 0
        return r & 255 if not isn(r) else r


# ---------------------------------------------------------------- report text -> values

PUA = 0xE000


class Val:
    """a printed value: conversion and node"""
    __slots__ = ('spec', 'node')

    def __init__(self, spec, node):
        self.spec = spec
        self.node = node

    def __repr__(self):
        return 'Val(%s,%r)' % (self.spec, self.node)


def decimals(v):
    """number of decimals a value is printed with"""
    if isinstance(v, Val):
        m = re.match(r'%[-+ #0]*\d*(?:\.(\d+))?([a-zA-Z])', v.spec)
        return int(m.group(1) or 6) if m and m.group(2) in 'fF' else 0
    return None


def parse_out(R, goals=None):
    """the report as a Python object, symbolic values as Val; symbolic characters as private-use characters (table in chars)"""
    t = ''
    vals, chars = [], []
    for s in R.out:
        if s[0] == 's':
            t += s[1]
            continue
        spec, node = s[1], s[2]
        if node is rtm.CONT: continue
        if type(node) is Mark: spec, node = node.fmt or '%g', node.node
        if spec.endswith('c'):
            chars.append(node)
            if (len(t) - len(t.rstrip('\\'))) % 2:      # written after a backslash: an escaped quote or backslash
                t = t[:-1] + chr(PUA + len(chars) - 1)
                if goals is not None: goals.append(('escaped character', sym.cor(sym.eq(node, 34), sym.eq(node, 92))))
                continue
            if goals is not None:
                n = node
                goals.append(('character-needs-no-escape', sym.cand(sym.ne(n, 34), sym.ne(n, 92), sym.cor(sym.ge(n, 32), sym.lt(n, 0)))))
            t += chr(PUA + len(chars) - 1)
        elif spec.endswith('x'):
            chars.append(node)
            if goals is not None:
                goals.append(('escaped-control-character', sym.cand(sym.ge(node, 0), sym.lt(node, 32))))
            t += '%04x' % (PUA + len(chars) - 1)
        else:
            m = re.match(r'%[-+ #0]*(\d+)?', spec)
            t += '9.%05d7e77' % len(vals)
            vals.append(Val(spec, node))

    def num(x):
        m = re.fullmatch(r'9\.(\d{5})7e77', x)
        return vals[int(m.group(1))] if m else float(x)
    J = json.loads(t, parse_float=num, strict=True, parse_constant=lambda c: (_ for _ in ()).throw(ValueError('not JSON: ' + c)))

    def conv(x):
        if isinstance(x, dict): return {k: conv(v) for k, v in x.items()}
        if isinstance(x, list): return [conv(v) for v in x]
        if isinstance(x, str):
            m = re.fullmatch(r'9\.(\d{5})7e77', x)
            if m: return vals[int(m.group(1))]
            if '7e77' in x or any(PUA <= ord(c) < PUA + 0x800 for c in x):
                out = []
                i = 0
                for m in re.finditer(r'9\.(\d{5})7e77|[\ue000-\ue7ff]', x):
                    out += [ord(c) for c in x[i:m.start()]]
                    out.append(vals[int(m.group(1))] if m.group(1) else chars[ord(m.group(0)) - PUA])
                    i = m.end()
                return tuple(out + [ord(c) for c in x[i:]])
        return x
    return conv(J)


def node_of(v):
    if isinstance(v, Val): return v.node
    if isinstance(v, bool): return None
    if isinstance(v, (int, float)): return v
    return None


def same_text(v, cells):
    """report text (str or tuple of characters/nodes) equals the expected cells (str or list)"""
    a = [ord(c) for c in v] if isinstance(v, str) else list(v) if isinstance(v, tuple) else None
    b = [ord(c) for c in cells] if isinstance(cells, str) else list(cells)
    if a is None or len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if isinstance(x, Val): x = x.node
        if isinstance(y, Mark): y = y.node
        c = sym.eq(x, y) if isn(x) or isn(y) else (x & 255) == (y & 255)
        if c is False: return False
        if c is not True: cs.append(c)
    return sym.cand(*cs) if cs else True


# ---------------------------------------------------------------- the oracle

class Req:
    """a request; numbers may be nodes. recs: SRec in effective file order (duplicates included)"""
    def __init__(self, **k):
        self.lat, self.lon, self.h, self.mjd = 0.0, 0.0, 2400.0, 58861.5
        self.region = self.r = self.t = self.n = self.s = self.i = self.S = self.a = None
        self.flags = ''
        self.recs = []
        self.file = 't.tle'
        self.date_text = None
        self.__dict__.update(k)


class SRec:
    """expected content of one element set: name (text/cells), number cells (5), number node, designator text or '', epoch JD, deep"""
    def __init__(self, q, name=None, num=None):
        self.rec = q
        self.name = q.name.rstrip() if name is None else name
        self.cells = [ord(c) for c in q.num] if num is None else num
        self.intl = q.intl
        self.jd = q.jd_epoch
        self.deep = int(q.deep)
        if all(type(c) is int for c in self.cells):
            self.number = q.number
        else:
            v = 0
            for c in self.cells:
                v = sym.add(sym.mul(v, 10), sym.sub(c, 48) if c != 32 else 0)
            self.number = v


def deg(x): return sym.scale(x, R2D) if isn(x) else x * R2D
def rad(x): return sym.scale(x, D2R) if isn(x) else x * D2R


def radiff(R, a, b):
    d = sym.sub(a, b)
    if not isn(d):
        return (d + PI) % TWOPI - PI
    if R.branch(sym.gt(d, PI)): return sym.sub(d, TWOPI)
    if R.branch(sym.lt(d, -PI)): return sym.add(d, TWOPI)
    return d


def spec(R, q):
    """expected report: dict of nodes, branching through R"""
    E = {}
    lon = q.lon
    if R.branch(sym.lt(lon, 0)): lon = sym.add(lon, 360.0)
    jd = sym.add(q.mjd, 2400000.5)
    t = 1 if q.t is None else q.t
    r = 20.0 if q.r is None else q.r
    n = 1000 if q.n is None else q.n
    jd2 = sym.add(jd, sym.scale(t, sym.Fr(1, 86400)) if isn(t) else t / 86400)
    latr, lonr = rad(q.lat), rad(lon)
    rc, rs = u_rc(latr, q.h), u_rs(latr, q.h)
    o1, o2 = u_obs(jd, lonr, rc, rs), u_obs(jd2, lonr, rc, rs)
    gm, lm = u_gmst(jd), u_lmst(jd, lon)
    single = q.s is not None or q.i is not None
    zen = 'E' in q.flags or single or q.region is None
    if zen:
        ra0d, de0d = sym.scale(lm, 15), q.lat
        ha = 0.0
    else:
        ra0d, de0d = q.region
        ha = sym.sub(lm, sym.scale(ra0d, sym.Fr(1, 15)) if isn(ra0d) else ra0d / 15)
    ra0, de0 = rad(ra0d), rad(de0d)
    alt, az, par = u_hor(de0, ha, q.lat)
    sra, sde = u_sun(jd)
    salt, saz, spar = u_hor(sde, sym.sub(lm, sym.scale(sra, 12 / PI)), q.lat)
    E['input'] = dict(lat=(q.lat, 4), lon=(lon, 4), alt=(q.h, 1), ra=(ra0d, 4), dec=(de0d, 4), radius=(r, 4), lmst=(lm, 4), az=(az, 4), ralt=(alt, 4),
                      parang=(par, 3), mjd=(q.mjd, 5), gmst=(gm, 4), dt=(t, 0), max=(n, 0))
    E['date'] = q.date_text if q.date_text is not None else u_date(q.mjd)
    sl = sym.sub(deg(sra), sym.scale(gm, 15))
    E['sun'] = dict(ra=(deg(sra), 3), dec=(deg(sde), 3), az=(saz, 3), alt=(salt, 3), parang=(spar, 3), separation_deg=(u_sep(ra0, de0, sra, sde), 3))
    E['sunlon'] = sl
    sunv = [sym.mul(AU, sym.mul(sym.fcos(sra), sym.fcos(sde))), sym.mul(AU, sym.mul(sym.fsin(sra), sym.fcos(sde))), sym.mul(AU, sym.fsin(sde))]
    geo = single or 'E' in q.flags or 'G' in q.flags or q.a is not None
    E['geo'] = geo
    E['single'] = single
    E['list'] = L = []
    nlit = 0
    seen = []
    for k, x in enumerate(q.recs):
        if q.s is not None:
            c = sym.eq(x.number, q.s) if isn(x.number) or isn(q.s) else x.number == q.s
            if not R.branch(c): continue
        elif q.i is not None:
            if x.intl == 'none' or not R.branch(text_eq(x.intl, q.i)): continue
        elif q.S is not None:
            if not R.branch(contains(x.name, q.S)): continue
        # already met?
        dup = False
        for y in seen:
            c = sym.cand(*[z for z in [sym.eq(a, b) if isn(a) or isn(b) else a == b for a, b in zip(x.cells, y)]])
            if R.branch(c):
                dup = True
                break
        if dup: continue
        seen.append(x.cells)
        tm = sym.scale(sym.sub(jd, x.jd), 1440)
        tm2 = sym.add(tm, sym.scale(t, sym.Fr(1, 60)) if isn(t) else t / 60)
        p1, p2 = u_pos(x.number, x.deep, tm), u_pos(x.number, x.deep, tm2)
        ra, dec, dist = u_topo(o1, p1)
        ra, dec = u_prec(jd, ra, dec)
        ra1, dec1, _ = u_topo(o2, p2)
        ra1, dec1 = u_prec(jd2, ra1, dec1)
        glon, glat, galt, gth = u_geo(gm, p1)
        if q.a is not None and not single:
            lo, hi = q.a
            if R.branch(sym.lt(hi, lo)): lo, hi = hi, lo
            if not R.branch(sym.cand(sym.ge(galt, lo), sym.le(galt, hi))): continue
        if 'E' in q.flags:
            if 'H' in q.flags: s0 = u_sep(lonr, latr, rad(glon), rad(glat))
            else: s0 = plane(R, rad(glon), rad(glat), lonr, latr)
            s1 = None
        elif 'H' in q.flags:
            s0, s1 = u_sep(ra, dec, ra0, de0), u_sep(ra1, dec1, ra0, de0)
        else:
            s0, s1 = plane(R, ra, dec, ra0, de0), plane(R, ra1, dec1, ra0, de0)
        if not single and q.S is None:
            if not R.branch(sym.le(s0, r)) and not (s1 is not None and R.branch(sym.le(s1, r))): continue
        sh = u_shadow(p1, sunv)
        dark = R.branch(sym.ne(sh, 0))
        if 'V' in q.flags and dark: continue
        d = radiff(R, ra1, ra)
        y, z = sym.mul(d, sym.fcos(dec)), sym.sub(dec1, dec)
        pa = sym.fatan2(y, z)
        if R.branch(sym.lt(pa, 0)): pa = sym.add(pa, TWOPI)
        sp = sym.div(sym.scale(u_sep(ra, dec, ra1, dec1), 60), t if isn(t) else float(t))
        nlit += not dark
        L.append(dict(k=k, name=x.name, intl=x.intl, number=x.number, geo=dict(lat=(glat, 3), lon=(glon, 3), alt=(galt, 2), theta=(gth, 3)),
                      data=[(deg(ra), 4), (deg(dec), 4), (deg(ra1), 4), (deg(dec1), 4), (dist, 2), (s0, 4), None, (sp, 3), 0 if dark else 1,
                            u_pix(256, sym.sub(PI / 2, dec), ra)], pa=deg(pa)))
        if single: break
        if not isn(n):
            if len(L) >= n: break
        elif R.branch(sym.le(n, len(L))): break
    E['nlit'] = nlit
    return E


def plane(R, a, b, c, d):
    x, y = radiff(R, a, c), sym.sub(b, d)
    return deg(sym.fsqrt(sym.add(sym.mul(x, x), sym.mul(y, y))))


def text_eq(a, b):
    a, b = chars(a), chars(b)
    if len(a) != len(b): return False
    return sym.cand(*[sym.eq(x, y) if isn(x) or isn(y) else x == y for x, y in zip(a, b)])


def contains(t, s):
    t, s = chars(t), chars(s)
    return sym.cor(*[sym.cand(*[sym.eq(t[i + j], s[j]) if isn(t[i + j]) or isn(s[j]) else t[i + j] == s[j] for j in range(len(s))])
                     for i in range(len(t) - len(s) + 1)]) if len(t) >= len(s) else False


def chars(x):
    return [ord(c) for c in x] if isinstance(x, str) else list(x)


# ---------------------------------------------------------------- comparing report and oracle

def valeq(v, want, tol=None):
    """printed value v equals want = (node, decimals)"""
    w, dec = want
    n = node_of(v)
    if n is None: return False
    if isinstance(v, Val):
        if dec and (decimals(v) or 0) < dec: return False
        return fw.close(n, w, 1e-9 if tol is None else tol)
    # printed from a concrete value: rounded
    return fw.close(n, w, 0.5000001 * 10.0 ** -dec if tol is None else max(tol, 0.5000001 * 10.0 ** -dec))


def compare(R, q, E, J, rc, facets):
    """goals (label, condition)"""
    g = []
    info = 'I' in q.flags
    got = J.get('satellites', []) if not info else None
    want = E['list']
    if 'status' in facets:
        g.append(('status', J.get('status') == 0 and rc == 0))
    if 'counts' in facets:
        g.append(('n_sats_found', J.get('n_sats_found') == len(want)))
        g.append(('n_sunlit_sats', J.get('n_sunlit_sats') == E['nlit']))
    if 'notfound' in facets and E['single']:
        g.append(('not-found message', J.get('errmsg') == ('' if want else 'Requested satellite not found in TLE file')))
        g.append(('status of a carried-out request', J.get('status') == 0 and rc == 0))
    if info:
        g.append(('no satellites object', 'satellites' not in J))
    if 'sel' in facets:
        g.append(('number of satellites', J.get('n_sats_found') == len(want)))
    if not info:
        g.append(('listed satellites', len(got) == len(want)))
        if len(got) == len(want):
            for i, (a, b) in enumerate(zip(got, want)):
                l = 'satellite %d ' % i
                g.append((l + 'number', valeq(a.get('norad_n'), (b['number'], 0))))
                if 'ident' in facets:
                    g.append((l + 'name', same_text(a.get('name'), b['name'])))
                    g.append((l + 'designator', same_text(a.get('intl_desig'), b['intl'])))
                if 'geo' in facets:
                    g.append((l + 'geoloc present', ('geoloc' in a) == E['geo']))
                    if 'geoloc' in a and E['geo']:
                        for k, w in b['geo'].items():
                            g.append((l + 'geoloc ' + k, valeq(a['geoloc'].get(k), w)))
                d = a.get('data', [])
                if len(d) != 10:
                    g.append((l + 'data fields', False))
                    continue
                F = ['pos', 'pos', 'pos', 'pos', 'pos', 'sep', 'motion', 'motion', 'lit', 'pix']
                N = ['RA_start', 'Dec_start', 'RA_end', 'Dec_end', 'Distance', 'Separation', 'PA', 'Speed', 'sunlit', 'HPXID_8']
                for j in range(10):
                    if F[j] not in facets: continue
                    w = b['data'][j]
                    if j == 6:
                        v = node_of(d[6])
                        if v is None:
                            g.append((l + 'PA', False))
                        else:
                            # integer part of the position angle, modulo 360
                            v2 = sym.sub(b['pa'], v)
                            c = sym.cand(sym.ge(v2, -1e-6), sym.lt(v2, 1 + 1e-6))
                            c2 = sym.cand(sym.ge(sym.sub(v2, 360.0), -1e-6), sym.lt(sym.sub(v2, 360.0), 1 + 1e-6))
                            g.append((l + 'PA', sym.cand(sym.ge(v, 0), sym.le(v, 359), sym.cor(c, c2))))
                    elif j == 8:
                        n = node_of(d[8])
                        g.append((l + 'sunlit', n == w if not isn(n) else sym.eq(n, w)))
                    elif j == 9:
                        n = node_of(d[9])
                        g.append((l + 'pixel', n is w or (isn(n) and sym.eq(n, w))))
                    else:
                        g.append((l + N[j], valeq(d[j], w)))
    if 'echo' in facets:
        p = J['input_params']
        I = E['input']
        lt, rg = p['location'], p['region']
        for k, v in (('lat', lt['lat']), ('lon', lt['lon']), ('alt', lt['alt']), ('ra', rg['ra']), ('dec', rg['dec']), ('radius', rg['radius']),
                     ('lmst', rg['lmst']), ('mjd', p['mjd']), ('gmst', p['gmst']), ('dt', p['delta_time_s']), ('max', p['max_sats'])):
            g.append(('echoed ' + k, valeq(v, I[k])))
        dt = p['epoch_UTC']
        if isinstance(E['date'], str): g.append(('echoed date', dt == E['date']))
        else: g.append(('echoed date', isinstance(dt, Val) and dt.node is E['date']))
        g.append(('echoed file', p['tle_file'] == q.file.lstrip('@')))
    if 'regionhor' in facets:
        rg = J['input_params']['region']
        for k, v in (('az', rg['az']), ('ralt', rg['alt']), ('parang', rg['parang'])):
            g.append(('region ' + k, valeq(v, E['input'][k])))
    if 'sun' in facets:
        for k, w in E['sun'].items():
            g.append(('sun ' + k, valeq(J['sun'].get(k), w)))
        l = node_of(J['sun'].get('lon'))
        if l is None: g.append(('sun lon', False))
        else:
            g.append(('sun lon range', sym.cand(sym.ge(l, -180.0000001), sym.le(l, 180.0000001)) if isn(l) else -180 <= l <= 180))
            k = sym.scale(sym.sub(l, E['sunlon']), sym.Fr(1, 360))
            g.append(('sun lon value', sym.cor(*[fw.close(k, float(m), 1e-9) for m in (-2, -1, 0, 1, 2)])))
    return g


# ---------------------------------------------------------------- one family of requests

def family(C, name, q, args, files, inps, facets, base, prog="sat_skymap", max_paths=6000, time_limit=60, pre=(), native=24, native_time=25, flat=False):
    """explore main() over the family, prove report = oracle, realise what is not proved by native runs judged by the reference"""
    global FLATSKY
    FLATSKY = flat
    W = World(prog)
    R = W.R
    C.rt(R)
    W.files = {n: W.cells(d if isinstance(d, list) else [d]) for n, d in files.items()}

    def entry():
        for c in pre: R.assume(c)
        rc = W.main(args)
        g = []
        J = parse_out(R, g)
        E = spec(R, q)
        return g + compare(R, q, E, J, rc, facets)

    def safe():
        try:
            return entry()
        except (ValueError, KeyError, TypeError, AttributeError, IndexError) as e:
            if os.environ.get("WDEBUG"):
                import traceback
                traceback.print_exc()
                print(str(R.out)[-300:])
            return [('report is the documented JSON object', False)]
    todo = prove_paths(C, name, R, safe, max_paths, time_limit)
    realise(C, name, todo, R, inps, facets, base, native, native_time, exact=lambda env: exact(C.rnd, q, args, files, facets, env))


def exact(rnd, q, args, files, facets, env):
    """the family's own command line and files with the numbers of env, judged by the reference; satellites placed where the request looks"""
    def ev(x):
        if x is None or not isn(x): return x
        v = sym.evalf(x, env)
        return int(round(v)) if x.isint else float(v)

    def txt(x):
        return x if x is None or isinstance(x, str) else ''.join(chr(int(round(ev(c)))) for c in x)
    c = ref.Cmd(lat=ev(q.lat), lon=ev(q.lon), h=ev(q.h), mjd=ev(q.mjd), region=q.region and tuple(map(ev, q.region)), r=ev(q.r), t=ev(q.t), n=ev(q.n), s=ev(q.s),
                i=txt(q.i), S=txt(q.S), a=q.a and tuple(map(ev, q.a)), flags=q.flags, main_file=q.file)
    if q.date_text and any(a == '-d' or (isinstance(a, str) and a.startswith('-d')) for a in args): c.date = q.date_text
    if c.a: c.a = (min(c.a), max(c.a))
    recs, seen = [], {}
    for x in q.recs:
        num = ''.join(chr(int(round(ev(k)))) for k in x.cells)
        if num in seen: continue
        seen[num] = 1
        recs.append(ref.Rec(x.name if isinstance(x.name, str) else txt(x.name), num, x.rec.desig, x.rec.epoch, x.rec.mm))
    jd = 2400000.5 + c.mjd
    for a, b in zip(recs, ref.draw_recs(rnd, c, jd, len(recs))):
        p, v = b.at(jd), b.V
        dt = (jd - a.jd_epoch) * 1440
        a.P = [x - y * dt - o for x, y, o in zip(p, v, ref.DEEP_OFF if a.deep else (0, 0, 0))]
        a.V = list(v)
    c.recs = recs
    table = {x.number: list(x.P) + list(x.V) for x in recs}
    av = [concrete(a, env) for a in args]
    fl = {n: concrete_file(d, env) for n, d in files.items()}
    out, rc, err = ref.run(c.prog, av, fl, table)
    t = ref.skymap_judge(c, out, rc, facets)
    if t:
        return '%s\ncommand: sat_skymap %s\n%s\npropagated position (km) at start: %s\noutput: %s' % (
            t, ' '.join(a.decode('latin1') for a in av), '\n'.join('%s:\n%s' % (n, d.decode('latin1')) for n, d in fl.items()), {x.number: x.at(jd) for x in recs}, out[:1500])
    return None


def prove_paths(C, name, R, entry, max_paths=600, time_limit=60, timeout=4000):
    paths = R.explore(entry, max_paths=max_paths, time_limit=min(time_limit, max(5, C.left())))
    todo = []
    seen = set()
    for k, p in enumerate(paths):
        lab = '%s/path%d' % (name, k)
        if p.hazard is not None:
            r, m = zs.check(p.pc, timeout=timeout, want_model=True)
            if r == 'unsat':
                C.ob(lab + '/no-hazard', 'proved', 'infeasible')
            else:
                C.ob(lab + '/no-hazard', 'undecided', str(p.hazard))
                todo.append((str(p.hazard), m))
            continue
        bad = None
        ng = 0
        for g, cond in p.ret:
            ng += 1
            st, m = fw.z_prove(p.pc, cond, timeout)
            if st != 'proved':
                if zs.check(p.pc, timeout=timeout)[0] == 'unsat':
                    C.ob(lab, 'proved', 'path infeasible')
                    bad = 0
                    break
                if m is None or cond is False:
                    r, m = zs.check(p.pc, timeout=timeout, want_model=True)
                C.ob(lab + '/' + g, 'undecided', st)
                todo.append((g, m))
                bad = 1
                if len(todo) > 40: break
            else:
                C.ob(lab + '/' + g, 'proved')
        if len(todo) > 40: break
    if not paths:
        C.ob(name + '/reachable', 'undecided', 'no path explored')
        todo.append(('reachable', None))
    return todo


def realise(C, name, todo, R, inps, facets, base, native=24, native_time=25, runner=None, exact=None):
    """native runs of the family: a few always (validation of encoding and oracle), many - model-guided, then random - when something is not proved"""
    runner = runner or ref.native_skymap
    open_ = bool(todo or R.nunsupported or R.incomplete)
    t_end = time.time() + (min(native_time, max(4, C.left())) if open_ else 6)
    models = [m for _, m in todo if m]
    names = {i.name: i for i in inps}
    k = 0
    while time.time() < t_end and (open_ or k < native) and not C.viol:
        fix = {}
        if models and C.rnd.random() < 0.6:
            m = models[k % len(models)]
            fix = {a: v for a, v in m.items() if a in names}
            if C.rnd.random() < 0.5:
                for a in list(fix):
                    if C.rnd.random() < 0.4: fix[a] = names[a].draw(C.rnd)
        try:
            if exact and (base.get('exact') or C.rnd.random() < 0.5):
                env = fw.draw_env(inps, C.rnd)
                env.update(fix)
                try:
                    t = exact(env)
                except (ValueError, OverflowError, IndexError, AssertionError):
                    continue
            else:
                t = runner(C.rnd, {a: b for a, b in base.items() if a != 'exact'}, facets, fix=fix)
        except OSError as e:
            C.ob(name + '/native', 'undecided', str(e))
            return
        C.validated += 1
        k += 1
        if t:
            C.violation(name, 'replayed: ' + t)
            return


# ---------------------------------------------------------------- text families: any command line, judged on its form

def concrete(parts, env):
    """command-line argument or file with model values put in"""
    if isinstance(parts, str): return parts.encode('latin1')
    out = b''

    def one(n):
        v = env.get(n.a) if n.k == 'var' else sym.evalf(n, env)
        if v is None: v = n.lo if n.lo > -1e300 else 0
        return v
    for p in parts:
        if isinstance(p, str): out += p.encode('latin1')
        elif isinstance(p, list):
            for c in p:
                out += bytes([int(round(one(c) if isn(c) else c)) & 255])
        elif isn(p):
            v = one(p)
            out += (b'%d' % round(v)) if p.isint else repr(float(v)).encode()
        else:
            out += repr(p).encode()
    return out.split(b'\0')[0]


KEYS = {'sat_skymap': ('swinfo', 'run_command', 'status', 'errmsg', 'n_sats_found', 'n_sats', 'n_sunlit_sats'),
        'sat_visibility': ('swinfo', 'run_command', 'status', 'errmsg', 'n_sats_found')}


def form_goals(prog, J, rc, nargs, run_cells, same):
    """requirements on every report, symbolic or concrete"""
    g = [('top-level keys', isinstance(J, dict) and all(k in J for k in KEYS[prog]))]
    if g[0][1] is False: return g
    st = J['status']
    g.append(('status is an integer', isinstance(st, int) and isinstance(J['n_sats_found'], int)))
    g.append(('run command', same(J['run_command'], run_cells)))
    if nargs == 0:
        g.append(('exit code without arguments', rc == 0))
    else:
        g.append(('exit code tells success', (rc == 0) == (st == 0)))
    g.append(('a failure has a message', st == 0 or len(J['errmsg']) > 0))
    if prog == 'sat_skymap':
        L = J.get('satellites')
        if L is not None:
            g.append(('n_sats_found counts the entries', J['n_sats_found'] == len(L) and all(isinstance(x, dict) and len(x.get('data', [])) == 10 for x in L)))
            g.append(('n_sunlit_sats counts the sunlit entries', J['n_sunlit_sats'] == sum(1 for x in L if node_of(x['data'][8]) == 1)))
            g.append(('entries are satellites', all({'name', 'intl_desig', 'norad_n'} <= set(x) for x in L)))
        if st == 0:
            g.append(('request and Sun are reported', 'input_params' in J and 'sun' in J))
        g.append(('n_sunlit_sats does not exceed n_sats_found', J['n_sunlit_sats'] <= J['n_sats_found']))
    else:
        g.append(('n_sats_found counts the satellite', J['n_sats_found'] == (1 if 'satellite' in J else 0)))
        if st == 0:
            g.append(('request is reported', 'input_params' in J))
            g.append(('satellite or Sun is reported', ('satellite' in J) != ('sun' in J)))
            g.append(('duration with the satellite', ('satellite' in J) == ('sunlit_duration_minutes' in J)))
    return g


def text_of(out):
    return ''.join(s[1] if s[0] == 's' else '?' for s in out)


def textfam(C, name, prog, args, files, inps, keep=(), max_paths=3000, time_limit=60, native=6, native_time=20, pre=(), expect=None, table=None, nocmp=False, flat=True):
    """any command line of the family: no hazard, a documented report. Counterexamples are replayed under the sanitizers."""
    global FLATSKY
    FLATSKY = flat
    W = World(prog, keep)
    R = W.R
    C.rt(R)
    W.files = {n: W.cells(d if isinstance(d, list) else [d]) for n, d in files.items()}

    def entry():
        for c in pre: R.assume(c)
        rc = W.main(args)
        g = []
        t = text_of(R.out)
        if t.startswith('Usage:'):
            g.append(('usage ends with status 0', rc == 0))
            if expect: g += expect(None, rc, R)
            return g
        try:
            J = parse_out(R, g)
        except (ValueError, RecursionError):
            if os.environ.get('WDEBUG'): print(t[-400:])
            return [('one well-formed JSON object', False)]
        cells = [ord(c) for c in prog]
        for a in args:
            cells += [32]
            for c in W.cells([a] if isinstance(a, str) else a):
                if isn(c) and c.lo <= 0 and R.branch(sym.eq(c, 0)): break
                cells.append(c)
        if nocmp: cells = None
        try:
            g += form_goals(prog, J, rc, len(args), cells, (lambda a, b: True if b is None else run_same(a, b)))
            if expect: g += expect(J, rc, R)
        except (ValueError, KeyError, TypeError, AttributeError, IndexError):
            g.append(('report is the documented object', False))
        return g
    todo = prove_paths(C, name, R, entry, max_paths, time_limit)
    open_ = bool(todo or R.nunsupported or R.incomplete)
    # realise
    t_end = time.time() + (min(native_time, max(4, C.left())) if open_ else 5)
    models = [m for _, m in todo if m]
    names = {i.name: i for i in inps}
    k = 0
    while time.time() < t_end and (open_ or k < native) and not C.viol:
        env = fw.draw_env(inps, C.rnd)
        if models and (k < len(models) or C.rnd.random() < .6):
            m = models[k % len(models)]
            for a, v in m.items():
                if a in names and (k < len(models) or C.rnd.random() < .7): env[a] = v
        k += 1
        try:
            av = [concrete(a, env) for a in args]
            fl = {n: concrete_file(d, env) for n, d in files.items()}
        except (ValueError, OverflowError, KeyError):
            continue
        t = native_text(prog, av, fl, table)
        C.validated += 1
        if t:
            C.violation(name, 'replayed: ' + t)


def concrete_file(d, env):
    out = b''
    for p in (d if isinstance(d, list) else [d]):
        if isinstance(p, str): out += p.encode('latin1')
        else: out += bytes([int(round(sym.evalf(c, env) if isn(c) else c)) & 255 for c in p])
    return out


def run_same(a, cells):
    """report text equals the command line; a number is compared as the same symbolic number"""
    a = [ord(c) for c in a] if isinstance(a, str) else list(a)
    cells = [c for c in cells if c is not rtm.CONT]
    if len(a) != len(cells): return False
    cs = []
    for x, y in zip(a, cells):
        if isinstance(x, Val): x = x.node
        if type(y) is Mark: y = y.node
        c = sym.eq(x, y) if isn(x) or isn(y) else (x & 255) == (y & 255)
        if c is False: return False
        if c is not True: cs.append(c)
    return sym.cand(*cs) if cs else True


def native_text(prog, argv, files, table=None, timeout=20):
    """None or what is wrong with a concrete run under the address and undefined-behaviour sanitizers"""
    out, rc, err = ref.run(prog, argv, files, table or {}, timeout=timeout, san=True)
    show = '\ncommand: %s %s\nfiles: %r\noutput: %s' % (prog, ' '.join(repr(a.decode('latin1')) for a in argv), files, out[:1500])
    if rc == 'timeout': return 'no end within %d s%s' % (timeout, show)
    if rc == 99 or rc < 0: return 'memory or undefined-behaviour error (exit %r)\n%s%s' % (rc, '\n'.join(err.strip().split('\n')[:6]), show)
    if out.startswith('Usage:'):
        return None if rc == 0 else 'usage with exit status %r%s' % (rc, show)
    try:
        J = json.loads(out, strict=True, parse_constant=lambda c: (_ for _ in ()).throw(ValueError(c)))
    except ValueError as e:
        return 'the report is not one JSON object: %s%s' % (e, show)
    run = prog + ''.join(' ' + a.decode('latin1') for a in argv)
    try:
        for l, c in form_goals(prog, J, rc, len(argv), run, lambda a, b: a == b):
            if not c: return '%s: not met (exit status %d)%s' % (l, rc, show)
    except (KeyError, TypeError, AttributeError) as e:
        return 'report is not the documented object: %r%s' % (e, show)
    return None
