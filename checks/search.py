"""P-group: the search program as a whole."""
import math
import fw
import ref
import sky
import sym
import world
from fw import Inp
from ref import Rec
from world import Req, SRec, family, textfam

PROPAGATED = ('propagated positions, sidereal times, observer vector, precession, Sun, horizon coordinates, haversine, HEALPix index, shadow test and '
              'geodetic sub-point enter the request-level encoding as uninterpreted functions of their arguments; their meaning is decided by the S, H, O checks '
              '(included below where this property depends on it)')
REAL = 'numbers as real arithmetic (rounding below 1e-9 of a printed unit is outside the claim)'

INPS = dict(
    lat=Inp('lat', -90, 90, (0, 90, -90)), lon=Inp('lon', 0, 359, (0, 180)), lonw=Inp('lon', -359, 359, (0, 180, -180)), h=Inp('h', -400, 9000, (0,)),
    mjd=Inp('mjd', 40000, 70000, (58861.5,)), r=Inp('r', 0, 200, (0, 20, 180)), ra0=Inp('ra0', 0, 360, (0, 360, 180)), de0=Inp('de0', -90, 90, (0, 90, -90)),
    t=Inp('t', 1, 86400, (1,), isint=True), alo=Inp('alo', -100, 50000), ahi=Inp('ahi', -100, 50000), n=Inp('n', 1, 5, isint=True),
    s=Inp('s', 0, 400000, (25544,), isint=True))

LEO = Rec('ISS (ZARYA)', '25544', '98067A  ', '20012.50000000', 15.5)
GEO = Rec('GOES 1', '08366', '75100A  ', '20013.25000000', 1.0)
DEB = Rec('COSMOS 2251 DEB', '34454', '93036SX ', '19300.25000000', 14.0)
FILE = 't.tle'
VALUES = {'pos', 'sep', 'geo', 'motion', 'lit', 'pix', 'ident'}
LIST = {'sel', 'status', 'counts', 'json', 'notfound'}
ECHO = {'echo', 'regionhor', 'sun'}


def fam(C, name, opts='ljrt', flags='', recs=None, files=None, facets=(), order=None, joined=(), last=False, base=None, file=FILE, west=False,
        given=None, req=None, pre=(), extra_inps=(), eff=None, **kw):
    """one family: `opts` letters with symbolic values (l j r t p a n s), `given` {letter: parts} for other values, order of all letters (options then flags)"""
    V = dict(INPS)
    if west: V['lon'] = V['lonw']
    use = []
    g = dict(given or {})

    def v(n):
        use.append(V[n])
        return V[n].node()
    q = Req(flags=flags, file=file)
    val = {}
    for o in opts:
        if o in g: continue
        if o == 'l': q.lat, q.lon, q.h = v('lat'), v('lon'), v('h'); val[o] = [q.lat, ',', q.lon, ',', q.h]
        elif o == 'j': q.mjd = v('mjd'); val[o] = [q.mjd]
        elif o == 'r': q.r = v('r'); val[o] = [q.r]
        elif o == 't': q.t = v('t'); val[o] = [q.t]
        elif o == 'n': q.n = v('n'); val[o] = [q.n]
        elif o == 's': q.s = v('s'); val[o] = [q.s]
        elif o == 'p': q.region = (v('ra0'), v('de0')); val[o] = [q.region[0], ',', q.region[1]]
        elif o == 'a': q.a = (v('alo'), v('ahi')); val[o] = [q.a[0], ',', q.a[1]]
    val.update(g)
    letters = order if order is not None else [o for o in opts if o in val] + [o for o in g if o not in opts] + list(flags)
    a = []
    for o in letters:
        if o in val:
            parts = val[o] if isinstance(val[o], list) else [val[o]]
            if o in joined: a.append(['-' + o] + parts)
            else: a += ['-' + o, parts]
        else: a.append('-' + o)
    a = a + [file] if last else [file] + a
    recs = recs or [LEO]
    q.recs = eff if eff is not None else [SRec(x) for x in recs]
    if req: req(q)
    files = files or {FILE: ''.join(x.text() for x in recs)}
    b = dict(flags=flags, k=3)
    if 'r' in opts: b['r'] = 'any'
    if 't' in opts: b['t'] = 'any'
    if 'p' in opts: b['region'] = 'any'
    if 'a' in opts: b['a'] = 'any'
    if 's' in opts: b['s'] = 'any'
    if 'n' in opts: b['n'] = 'any'
    if base: b.update(base)
    family(C, name, q, a, files, use + list(extra_inps), set(facets) | {'json'}, b, pre=pre, **kw)


def job(name, **kw):
    return (name, lambda C: fam(C, name, **kw))


def comp(name, f):
    """a component check decided as part of this property"""
    return ('component ' + name, f)


def go(C, jobs, bounds=()):
    C.assume(PROPAGATED, REAL)
    C.bound('numbers of the command line symbolic over: latitude [-90,90], longitude [-359,359], height [-400,9000] m, MJD [40000,70000], radius [0,200], '
            'step 1..86400 s, region RA [0,360] Dec [-90,90], altitude limits [-100,50000] km; paths explored completely unless listed as unexplored')
    C.bound(*bounds)
    world.offsets()
    for p in sky.PROGS: sky.progrt(p), sky.proglib(p)       # build once, before the processes start
    ref.exe('sat_skymap')
    fw.native_lib('lib')
    fw.par(C, jobs)


T = fw.THOROUGH
FULL = LIST | VALUES


def P01(C):
    F = {'sel', 'sep', 'status'}
    J = [job('plane, region, RA below 180', opts='ljrtp', facets=F, pre=(sym.lt(INPS['ra0'].node(), 180),)),
         job('plane, region, RA from 180', opts='ljrtp', facets=F, pre=(sym.ge(INPS['ra0'].node(), 180),)),
         job('plane, zenith', opts='ljrt', facets=F), job('haversine, region', opts='ljrtp', flags='H', facets=F),
         job('haversine, zenith', opts='ljrt', flags='H', facets=F, west=True), comp('S07', sky.S07),
         job('haversine, region, two satellites, fixed site', opts='rtp', given=dict(l='44.5,11.25,23', j='58861.5'), flags='H', facets=F, recs=[LEO, GEO],
             req=lambda q: setattr(q, '__dict__', dict(q.__dict__, lat=44.5, lon=11.25, h=23.0, mjd=58861.5, date_text='2020-01-13T12:00:00')),
             base=dict(site=(44.5, 11.25, 23.0), mjd=58861.5), time_limit=90)]
    go(C, J, ('one element set per request (thorough: two) per request ',))


def P02(C):
    F = {'sel', 'sep', 'status', 'geo', 'echo'}
    J = [job('plane', opts='ljrt', flags='E', facets=F), job('haversine', opts='ljrt', flags='EH', facets=F, west=True),
         job('plane, sky region also given', opts='ljrtp', flags='E', facets=F, joined='p'),
         job('haversine, region, altitude and sunlit filters', opts='ljrtpa', flags='EHV', facets=F),
         comp('S07', sky.S07)]
    go(C, J, ('one element set per request',))


def P03(C):
    F = FULL
    J = [job('altitude range', opts='ljrta', flags='H', facets=F), job('altitude range before the other options', opts='ljrtap', flags='H', order='apljrtH', facets=F),
         job('sunlit only', opts='ljrt', flags='HV', facets=F, last=True), job('altitude and sunlit' + (', plane' if T else ''), opts='jrta', flags='V' if T else 'HV', facets=F, given=dict(l='0,0,0'),
             req=lambda q: setattr(q, 'h', 0.0), base=dict(site=(0., 0., 0.))),
         job('number then altitude range', opts='ljrtsa', flags='H', facets=F), job('altitude range then number', opts='ljrtsa', flags='H', order='asljrtH', facets=F, joined='as'),
         job('designator and altitude range', opts='ljta', flags='H', order='aijtlH', given=dict(i='1998-067A'), req=lambda q: setattr(q, 'i', '1998-067A'), facets=F, base=dict(i='any')),
         job('sunlit number', opts='ljts', flags='V', facets=F, order='Vsljt'),
         job('name and altitude range', opts='ljta', flags='H', given=dict(S='ZAR'), req=lambda q: setattr(q, 'S', 'ZAR'), facets=F, base=dict(S='any')),
         ]
    go(C, J, ('one element set per request',))


def sc(name, lo=32, hi=126):
    return Inp(name, lo, hi, isint=True)


def digit_rec(q, k, which):
    """record q with some catalogue digits symbolic: file cells, SRec and inputs"""
    inps = [Inp('d%d_%d' % (k, j), 49 if j == 0 or q.num[j - 1] == ' ' else 48, 57, isint=True) for j in which]
    cells = [ord(c) for c in q.num]
    for j, i in zip(which, inps): cells[j] = i.node()
    out = []
    l1, l2 = q.lines()
    for l in (l1, l2):
        c = [ord(x) for x in l]
        c[2:7] = cells
        s = sum(int(ch) if ch.isdigit() else (1 if ch == '-' else 0) for n, ch in enumerate(l[:68]) if not 2 <= n < 7)
        tot = s
        for x in cells:
            if x != 32: tot = sym.add(tot, sym.sub(x, 48))
        c[68] = sym.add(48, sym.sub(tot, sym.scale(sym.ffloor(sym.scale(tot, sym.Fr(1, 10))), 10))) if sym.isn(tot) else 48 + tot % 10
        out += c + [10]
    return [ord(x) for x in q.name.ljust(24)] + [10] + out, SRec(q, num=cells), inps


def nums_mk(which):
    def mk(rnd, c, fix):
        seen = set()
        for k, q in enumerate(c.recs):
            s = list(q.num)
            for j in which:
                v = fix.get('d%d_%d' % (k, j))
                if v is not None: s[j] = chr(int(v))
            s = ''.join(s)
            if s not in seen: q.num = s
            seen.add(q.num)
    return mk


def P04(C):
    F = LIST | {'ident', 'echo'}
    ch = [sc('c%d' % i) for i in range(4)]
    cn = [i.node() for i in ch]

    def mkS(n):
        def mk(rnd, c, fix):
            if 'c0' in fix and rnd.random() < .7:
                c.S = ''.join(chr(int(fix.get('c%d' % i, 65))) for i in range(n))
                if rnd.random() < .8:
                    x = rnd.choice(['A', '']) + c.S.strip() + rnd.choice(['', 'B'])
                    if x[:2] not in ('1 ', '2 ', '1', '2'): rnd.choice(c.recs).name = x
        return mk

    def mki(rnd, c, fix):
        if 'c0' in fix and rnd.random() < .7:
            c.i = ('1998-067' + chr(int(fix['c0'])) + rnd.choice(['', 'B']))[:11]
    J = []
    # any catalogue number against records with symbolic digits
    cells, sr, di = digit_rec(LEO, 0, (0, 4))
    J.append(job('number, symbolic digits', opts='ljs', flags='H', facets=F, recs=[LEO, GEO], files={FILE: [cells, GEO.text()]}, eff=[sr, SRec(GEO)], extra_inps=di,
                 base=dict(recs_mk=nums_mk((0, 4)))))
    J.append(job('number, region and sunlit filter', opts='ljrtps', flags='V', facets=F, recs=[GEO, LEO]))
    nodesig = Rec('NO DESIGNATOR', '00900', '        ', '20012.50000000', 15.5)
    ab = Rec('ISS DEB', '25550', '98067AB ', '20012.50000000', 15.5)
    J.append(job('designator with a symbolic last letter', opts='lj', flags='H', facets=F, recs=[nodesig, ab, LEO], given=dict(i=['1998-067', [cn[0]]]), extra_inps=ch[:1],
                 req=lambda q: setattr(q, 'i', [ord(c) for c in '1998-067'] + [cn[0]]), base=dict(i='any', mk=mki)))
    J.append(job('designator with two symbolic last letters', opts='lj', facets=F, recs=[LEO, ab], given=dict(i=['1998-067', cn[:2]]), extra_inps=ch[:2],
                 req=lambda q: setattr(q, 'i', [ord(c) for c in '1998-067'] + cn[:2]), base=dict(i='any', mk=mki)))
    J.append(job('designator century and year symbolic', opts='lj', facets=F, recs=[ab, DEB], given=dict(i=[cn[:4], '-036SX']), extra_inps=ch[:4],
                 req=lambda q: setattr(q, 'i', cn[:4] + [ord(c) for c in '-036SX']), base=dict(i='any', k=4)))
    for n in (1, 2, 3):
        J.append(job('name with %d symbolic characters' % n, opts='ljr', flags='H', facets=F, recs=[GEO], given=dict(S=[cn[:n]]), extra_inps=ch[:n],
                     req=(lambda n: lambda q: setattr(q, 'S', cn[:n]))(n), base=dict(S='any', mk=mkS(n)), time_limit=45))
    J.append(job('name, sunlit filter, region ignored', opts='ljrtp', flags='V', facets=F | {'lit'}, recs=[LEO], given=dict(S='ZAR'), req=lambda q: setattr(q, 'S', 'ZAR'), base=dict(S='any'), time_limit=40))
    J.append(job('name, geodetic reference and altitude range', opts='ljra', flags='E', facets=F, recs=[LEO], given=dict(S='ZAR'), req=lambda q: setattr(q, 'S', 'ZAR'), base=dict(S='any'), time_limit=40))
    J.append(job('name on two satellites, region ignored', opts='lrjp', flags='H', facets=F, recs=[LEO, GEO], given=dict(S='I'), req=lambda q: setattr(q, 'S', 'I'), base=dict(S='any')))
    go(C, J, ('request texts of up to 11 characters of which up to 4 symbolic; 1-3 element sets with up to 2 symbolic catalogue digits',))


def P05(C):
    F = {'sel', 'status', 'counts', 'ident', 'limit'}
    J = []
    given = dict(l='0,0,0', j='58861.5')

    def fixed(q):
        q.lat, q.lon, q.h, q.mjd, q.date_text = 0.0, 0.0, 0.0, 58861.5, '2020-01-13T12:00:00'
    b = dict(site=(0., 0., 0.), mjd=58861.5)
    recs = [LEO, GEO, DEB]

    def three(which):
        t = [digit_rec(q, k, which) for k, q in enumerate(recs)]
        return [x[0] for x in t], [x[1] for x in t], [i for x in t for i in x[2]]
    names = dict(S='')
    allS = lambda q: (fixed(q), setattr(q, 'S', ''))
    # by-name request with an empty text takes every satellite: identity and counting alone
    for which, tag, S in (((4,), 'last digit', 'S'), ((0, 3), 'first and fourth digit', 'O')):
        t, e, i = three(which)
        J.append(job('one file, three records, %s symbolic' % tag, opts='n', given=dict(given, S=S), recs=recs, files={FILE: t}, eff=e, extra_inps=i,
                     req=(lambda S: lambda q: (fixed(q), setattr(q, 'S', S)))(S), facets=F, flat=True, base=dict(b, S='any', recs_mk=nums_mk(which)), time_limit=100, max_paths=4000))
    # numbers padded with blanks: pieces of two neighbours must not be taken for a third
    short = [(Rec('S1', '    1', '98067A  ', '20012.50000000', 15.5), (4,)), (Rec('S2', '12000', '75100A  ', '20013.25000000', 14.5), (0, 1)),
             (Rec('S3', '   11', '93036SX ', '19300.25000000', 14.0), (3, 4))]
    for order, tag in (((0, 1, 2), 'short, long, two digits'), ((1, 0, 2), 'long, short, two digits')):
        t = [digit_rec(short[k][0], k, short[k][1]) for k in order]
        J.append(job('numbers with blanks: ' + tag, opts='', given=dict(given, S='S'), recs=[short[k][0] for k in order], files={FILE: [x[0] for x in t]}, eff=[x[1] for x in t],
                     extra_inps=[i for x in t for i in x[2]], req=lambda q: (fixed(q), setattr(q, 'S', 'S')), facets=F, flat=True,
                     base=dict(b, S='any', exact=True), time_limit=100, max_paths=4000))
    t, e, i = three((4,))
    lis = '# satellites\n\nf1.tle\n  \n#f9.tle\nf2.tle  \r\n'
    J.append(job('list of two files with comments, third record in the second file', opts='n', given=dict(given, S='O'), recs=recs, file='@all.lis',
                 files={'all.lis': lis, 'f1.tle': [t[0], t[1]], 'f2.tle': [t[2]]}, eff=e, extra_inps=i, req=lambda q: (fixed(q), setattr(q, 'S', 'O')), facets=F, flat=True,
                 base=dict(b, S='any', recs_mk=nums_mk((4,))), time_limit=100))
    # selection decided per satellite: limit counts qualifying satellites only
    J.append(job('limit and radius', opts='rn', flags='H', given=given, recs=[LEO, GEO], req=fixed, facets=F, flat='dec', base=b, time_limit=100))
    J.append(job('limit and sunlit filter', opts='n', flags='HV', given=dict(given, S='O'), recs=[GEO, DEB], req=lambda q: (fixed(q), setattr(q, 'S', 'O')), facets=F, flat=True, base=dict(b, S='any'), time_limit=60))
    # layouts: no name lines, comments between the lines, CR-LF, repeated record, unrelated 2-line
    l = LEO.lines()
    bare = '\n'.join(l) + '\n'
    junk = '# comment\n' + GEO.text(eol='\r\n') + '\nnot an element line\n' + bare + 'NEXT\n' + GEO.text() + '1 junk\n2 junk\n' + DEB.text()
    rec2 = Rec('not an element line', '25544', '98067A  ', '20012.50000000', 15.5)
    J.append(job('layout', opts='n', given=dict(given, S='O'), recs=[GEO, DEB], files={FILE: junk}, eff=[SRec(GEO), SRec(rec2), SRec(GEO), SRec(DEB)],
                 req=lambda q: (fixed(q), setattr(q, 'S', 'O')), facets=F - {'ident'}, flat=True, base=dict(b, S='any')))
    J.append(job('no name lines at all', opts='n', given=given, flags='H', recs=[LEO], files={FILE: bare + '\n'.join(DEB.lines()) + '\n'},
                 eff=[SRec(LEO, name=l[0][:24].rstrip()), SRec(DEB, name=l[0][:24].rstrip())], req=fixed, facets=F - {'ident'}, flat='dec', base=b))
    go(C, J, ('up to 4 element sets in up to 2 files of a list; up to 2 symbolic catalogue digits each (first digit 1-9); limit 1..5',))


def tj(name, **kw):
    return (name, lambda C: textfam(C, name, **kw))


def chs(n, pre='c', lo=1, hi=127):
    i = [Inp(pre + str(k), lo, hi, (34, 92, 10, 32, 65), isint=True) for k in range(n)]
    return i, [x.node() for x in i]


SITE = ['-l', '0,0,0', '-j', '58861.5']
RANGE = ['-l', '0,0,0', '-j', '58861.5,58861.5']
SM, SV = 'sat_skymap', 'sat_visibility'
F1 = {FILE: LEO.text()}


def named(cells, w=24):
    """file text of LEO with a name line made of these cells"""
    l = LEO.lines()
    return [cells + [10], l[0] + '\n' + l[1] + '\n']


def tgo(C, jobs, bounds=()):
    C.assume(PROPAGATED, REAL)
    C.bound(*bounds)
    for p in (SM, SV): world.World(p); ref.exe(p, True, True)
    fw.native_lib('lib')
    fw.par(C, jobs)


def P06(C):
    i2, c2 = chs(2)
    i3, c3 = chs(3)
    nm, cm = chs(2, 'm')
    pre = lambda cs: [sym.ne(c, 10) for c in cs]
    J = []
    k = 2 if T else 1
    for p in (SM, SV):
        base = SITE if p == SM else RANGE
        sel = ['-H', '-r', '180'] if p == SM else ['-s', '25544']
        J += [tj(p + ': characters in the file name', prog=p, args=[['no', c2]] + base + sel, files=F1, inps=i2),
              tj(p + ': characters in the designator', prog=p, args=[FILE] + base + ['-i', ['98', c2]], files=F1, inps=i2),
              tj(p + ': characters in a missing list', prog=p, args=[['@', c2]] + base + sel, files=F1, inps=i2),
              tj(p + ': satellite name', prog=p, args=[FILE] + base + ['-s', '25544'], files={FILE: named([65] + cm + [66])}, inps=nm, pre=pre(cm)),
              tj(p + ': satellite name of 23 to 26 characters', prog=p, args=[FILE] + base + ['-s', '25544'], files={FILE: named([65] * 22 + cm[:k] + [66, 67])}, inps=nm[:k], pre=pre(cm[:k])),
              tj(p + ': blank and short name lines', prog=p, args=[FILE] + base + ['-s', '25544'], files={FILE: named(cm[:1])}, inps=nm[:1], pre=pre(cm[:1])),
              tj(p + ': unreadable number', prog=p, args=[FILE] + base + ['-s', [c2]], files=F1, inps=i2),
              tj(p + ': unreadable radius', prog=p, args=[FILE] + base + sel + ['-r', [c2]], files=F1, inps=i2),
              tj(p + ': unreadable date', prog=p, args=[FILE, '-l', '0,0,0', '-d', [c2, '-']] + sel, files=F1, inps=i2),
              tj(p + ': unknown option', prog=p, args=[FILE] + sel + [['-', c2]] + base, files=F1, inps=i2),
              tj(p + ': second file of a list missing', prog=p, args=['@l'] + base + (sel if p == SM else ['-s', '1']), files={'l': ['t.tle\n', ['x', c2[:1]][1], '.tle\n'], FILE: LEO.text()}, inps=i2[:1],
                 pre=pre(c2[:1])),
              tj(p + ': second file of a list empty', prog=p, args=['@l'] + base + (sel if p == SM else ['-s', '1']), files={'l': 't.tle\ne.tle\n', FILE: LEO.text(), 'e.tle': ''}, inps=[]),
              tj(p + ': empty list', prog=p, args=['@l'] + base + ['-s', '25544'], files={'l': '# nothing\n\n', FILE: LEO.text()}, inps=[]),
              tj(p + ': designator columns of the record', prog=p, args=[FILE] + base + ['-s', '25544'], files={FILE: desig_file(c2[:k])}, inps=i2[:k], pre=[sym.cand(sym.ge(c, 32), sym.cor(sym.lt(c, 48), sym.gt(c, 57)), sym.ne(c, 45)) for c in c2[:k]]),
              tj(p + ': no arguments', prog=p, args=[], files=F1, inps=[]), tj(p + ': file alone', prog=p, args=[FILE], files=F1, inps=[])]
    J += [tj('name request with any characters', prog=SM, args=[FILE] + SITE + ['-S', [c3]], files=F1, inps=i3),
          tj('counters with two satellites', prog=SM, args=[FILE] + SITE + ['-S', 'I', '-n', INPS_n()], files={FILE: LEO.text() + GEO.text().replace('GOES 1', 'GOES I') + DEB.text()}, inps=[INPS['n']]),
          tj('information only', prog=SM, args=[FILE] + SITE + ['-I', '-H', '-r', [INPS['r'].node()]], files=F1, inps=[INPS['r']], flat='dec', expect=lambda J, rc, R: [('no list with -I', 'satellites' not in J)]),
          tj('requested satellite', prog=SM, args=[FILE] + SITE + ['-s', [INPS['s'].node()]], files=F1, inps=[INPS['s']],
             expect=lambda J, rc, R: [('not-found message', (J['n_sats_found'] == 1) == (J['errmsg'] == ''))])]
    # the same selection with and without the list: counters against the oracle
    ref.exe('sat_skymap'); world.offsets()
    F = {'counts', 'sel', 'status', 'notfound'}
    J += [job('information only, counters, region', opts='ljrp', flags='HI', facets=F), job('information only, counters, geodetic reference', opts='ljr', flags='EHI', facets=F),
          job('information only, counters, number', opts='ljs', flags='HI', facets=F),
          job('information only, counters, two satellites', opts='n', flags='IH', given=dict(l='0,0,0', j='58861.5', S='S'), recs=[LEO, GEO, DEB], facets=F, flat=True,
              req=lambda q: (setattr(q, 'lat', 0.), setattr(q, 'lon', 0.), setattr(q, 'h', 0.), setattr(q, 'mjd', 58861.5), setattr(q, 'date_text', DATE), setattr(q, 'S', 'S')), base=dict(site=(0., 0., 0.), mjd=58861.5, S='any'))]
    tgo(C, J, ('texts of up to 26 characters, 1 to 3 of them any character 1..127 (bytes above 127 are copied unchanged)', 'one to three element sets'))


def INPS_n(): return [INPS['n'].node()]


def desig_file(c):
    """LEO with two symbolic designator columns; they are neither digits nor '-', hence outside the checksum"""
    q = Rec(LEO.name, LEO.num, '98067A  ', LEO.epoch, LEO.mm)
    l1, l2 = q.lines()
    base = l1[:14] + 'AB'[:len(c)] + l1[14 + len(c):68]
    s = ref.cksum(base)
    x = [ord(k) for k in base]
    x[14:14 + len(c)] = c
    return [q.name + '\n', x + [48 + s, 10], l2 + '\n']


DATE = '2020-01-13T12:00:00'


def at_date(q): q.mjd, q.date_text = 58861.5, DATE


def P07(C):
    F = LIST | {'ident', 'geo', 'echo', 'sel', 'sep'}
    J = []

    def both(name, order, opts, flags, given=None, req=None, base=None, joined=(), rev_last=True, **kw):
        """the options in this order and in the opposite one: every pair in both orders; blanks and the place of the file alternate"""
        k = dict(opts=opts, flags=flags, given=given or {}, req=req, facets=F, base=base, flat='dec')
        k.update(kw)
        J.append(job(name, order=order, joined=joined, **k))
        J.append(job(name + ', opposite order', order=order[::-1], joined=[o for o in order if o not in joined], last=rev_last, **k))
    both('region request', 'ljrptnaHV', 'ljrptna', 'HV', joined='lpa')
    both('geodetic reference', 'pErljtG', 'lprjt', 'EG', joined='rj', rev_last=True)
    both('catalogue number', 'aslpjrHnt', 'ljrptnas', 'H', joined='sn')
    both('designator', 'iaplHrjV', 'ljrpa', 'HV', given=dict(i='1998-067A'), req=lambda q: setattr(q, 'i', '1998-067A'), base=dict(i='any'), joined='i')
    both('name', 'lSpnjVaGr', 'ljrpna', 'VG', given=dict(S='ZAR'), req=lambda q: setattr(q, 'S', 'ZAR'), base=dict(S='any'), joined='Sl')
    # a calendar date wins over a day number, before or after it
    bd = dict(mjd=58861.5)
    oth = Inp('mjdo', 40000, 70000)
    for o in ('dlj', 'jld', 'jdl', 'ldj'):
        J.append(job('calendar date and day number, order ' + o, opts='l', flags='H', order=o + 'H', given=dict(d=DATE, j=[oth.node()]), req=at_date, facets=F, base=bd, extra_inps=[oth],
                     joined=o[:2], flat='dec', last=o[0] == 'j'))
    # defaults
    J.append(job('defaults', opts='l', flags='H', facets=F, flat='dec', req=at_date, base=dict(notime=True)))
    J.append(job('default site values kept', opts='jr', flags='H', given=dict(l='12.5,33.25'), facets=F, flat='dec',
                 req=lambda q: (setattr(q, 'lat', 12.5), setattr(q, 'lon', 33.25), setattr(q, 'h', 2400.0)), base=dict(site=(12.5, 33.25, 2400.0))))
    # directory
    for o in ('lDTj', 'TlDj', 'jDl'):
        J.append(job('directory, order ' + o, opts='lj', flags='H', order=o + 'H', given=dict(D='cat'), files={'cat/t.tle': LEO.text(), 't.tle': GEO.text(), 'usr/t.tle': GEO.text()},
                     facets=F, joined='D' if o[0] == 'T' else '', flat='dec', base=dict(exact=True)))
    J.append(job('directory and list', opts='j', flags='TH', order='ljTDH', given=dict(D='cat', l='0,0,0'), file='@l.lis', files={'cat/l.lis': 't.tle\nu.tle\n', 'cat/t.tle': LEO.text(), 'cat/u.tle': GEO.text(), 't.tle': GEO.text(), 'l.lis': 't.tle\n'},
                 recs=[LEO, GEO], facets=F, flat='dec', req=lambda q: setattr(q, 'h', 0.0), base=dict(exact=True)))
    deft = '/usr/local/TLErepo/no-such-catalogue.tle'
    J.append(tj('default directory', prog=SM, args=['no-such-catalogue.tle', '-T', '-l', '1,2,3', '-H', '-j', '58861.5'], files=F1, inps=[],
                expect=lambda J, rc, R: [('file looked for in the default directory', J['status'] == 2 and deft in J['errmsg'])]))
    J.append(tj('information only', prog=SM, args=['-I', '-l', '0,0,0', '-H', '-r', [INPS['r'].node()], '-j', '58861.5', FILE], files=F1, inps=[INPS['r']], flat='dec',
                expect=lambda J, rc, R: [('no list with -I', 'satellites' not in J)]))
    go(C, J, ('option sets of 5 to 9 options in two opposite orders each (every pair of the set in both orders), value joined or separate, file first or last',))


def lens(pre, fill, k, tail=''):
    """argument text of len(fill)..len(fill)+k characters: the last k cells may be the end of the text"""
    i, c = chs(k, pre, 0, 127)
    return i, [fill, c]


def nodigit(c): return sym.cand(sym.cor(sym.lt(c, 48), sym.gt(c, 57)))


def P08(C):
    J = []
    i3, c3 = chs(3)
    k = 3 if T else 2
    cc = c3[:k]
    ii = i3[:k]
    wide = [Inp('q%d' % j, 1, 127, (45, 48, 44, 46), isint=True) for j in range(k)]
    VO = {SM: 'aijlnprsSt', SV: 'ijlrst'}
    for p in (SM, SV):
        base = SITE if p == SM else RANGE
        one = ['-s', '25544']
        # option letter and what follows, both symbolic; blank-separated value symbolic
        J.append(tj(p + ': one option of 1 to %d characters' % (k + 1), prog=p, args=[FILE] + one + [['-', lens('c', '', k)[1][1]]] + base, files=F1, inps=lens('c', '', k)[0], keep=('mjd2date',), max_paths=3000, time_limit=200 if T else 100))
        J.append(tj(p + ': first argument of 0 to 2 characters', prog=p, args=[[lens('f', '', 2)[1][1]]] + base + one, files=F1, inps=lens('f', '', 2)[0]))
        J.append(tj(p + ': last argument an option letter', prog=p, args=[FILE] + one + base + [['-', lens('c', '', 2)[1][1]]], files=F1, inps=lens('c', '', 2)[0],
                    pre=[sym.cor(sym.ne(cc[0], 106), nodigit(cc[1]))] if p == SV else ()))
        for o in VO[p]:
            pre_ = [] if o in 'siS' else one
            b2 = base if o not in 'jl' else (base[:2] if o == 'j' else base[2:])
            n = 2 if o in 'jr' and not T else k
            n = min(n, k)
            I, A = lens('v', '', n)
            args = [FILE] + pre_ + (['-' + o, [A[1]]]) + b2
            if o == 'l' and p == SV: args = [FILE] + pre_ + ['-l', [A[1]]] + b2
            J.append(tj('%s: value of -%s any text of up to %d characters' % (p, o, n), prog=p, args=args, files=F1, inps=I, keep=('mjd2date',), time_limit=200 if T else 60, native=2,
                        pre=[nodigit(i.node()) for i in I] if p == SV and o == 'j' else ()))
        # long texts around the buffer sizes
        for o, n in (('i', 10), ('S', 22), ('D', 126), ('d', 22), ('d', 250)):
            if o in 'SD' and p == SV and o == 'S': continue
            I, A = lens('v', 'A' * n if o != 'd' else '2020-01-13T12:00:00' + '0' * (n - 19), k)
            J.append(tj('%s: -%s of %d to %d characters' % (p, o, n, n + k), prog=p, args=[FILE] + ([] if o in 'iS' else one) + [['-' + o] + A] + (base if o != 'd' else base[:2]), files=F1, inps=I, nocmp=True, native=2))
        I, A = lens('f', 'x' * 190, 2)
        J.append(tj(p + ': long file name', prog=p, args=[[A[0], A[1]]] + base + one, files=F1, inps=I, nocmp=True, native=2))
        J.append(tj(p + ': long list name', prog=p, args=[['@' + A[0], A[1]]] + base + one, files=F1, inps=I, nocmp=True, native=2))
        # any number at all
        big = lambda n, lo=-1e300, hi=1e300, i=False: Inp(n, lo, hi, (0, 1, -1, 2147483647, 2147483648, 1e10, 1e19, -1e19), isint=i)
        for o in 'rt':
            if p == SV and o == 't': continue          # below: work per step
            v = big('v')
            J.append(tj('%s: any number after -%s' % (p, o), prog=p, args=[FILE] + one + ['-' + o, [v.node()]] + base, files=F1, inps=[v], native=4))
        for o in ('s', 'n'):
            if p == SV and o == 'n': continue
            v = big('v', -1e18, 1e18, True)
            J.append(tj('%s: any integer after -%s' % (p, o), prog=p, args=[FILE] + (one if o != 's' else []) + ['-' + o, [v.node()]] + base, files=F1, inps=[v], native=4))
        v, w, x = big('v'), big('w'), big('x')
        J.append(tj(p + ': any numbers after -l', prog=p, args=[FILE] + one + ['-l', [v.node(), ',', w.node(), ',', x.node()]] + base[2:], files=F1, inps=[v, w, x], native=4))
        if p == SM:
            J.append(tj(p + ': any numbers after -p', prog=p, args=[FILE] + ['-H', '-p', [v.node(), ',', w.node()]] + base, files=F1, inps=[v, w], native=4))
            J.append(tj(p + ': any numbers after -a', prog=p, args=[FILE] + ['-H', '-a', [v.node(), ',', w.node()]] + base, files=F1, inps=[v, w], native=4))
        # words of the number format
        for o in ('j', 'l', 'r', 't', 'p', 'a', 'n', 's'):
            if o in 'pan' and p == SV: continue
            for wd in ('nan', '-inf', '1e400', '0x1p5', '-1e-400'):
                val = wd if o not in 'lpa' else wd + ',' + wd
                if p == SV and o in 'jr' and wd == '0x1p5' and o == 'j': continue
                b2 = base if o not in 'jl' else (base[:2] if o == 'j' else base[2:])
                J.append(tj('%s: -%s %s' % (p, o, wd), prog=p, args=[FILE] + (one if o != 's' else []) + ['-' + o, val] + b2, files=F1, inps=[], keep=('mjd2date',), native=1))
    tgo(C, J, ('up to %d arbitrary characters per option or value; texts of lengths around each buffer size with up to 3 arbitrary end characters; numbers of any size' % k, 'one element set'))


def fixed_site(q): q.lat, q.lon, q.h, q.mjd, q.date_text = 44.5, 11.25, 23.0, 58861.5, DATE


def P09(C):
    F = VALUES | {'status', 'json'}
    J = [job('requested satellite', opts='ljst', flags='' if T else 'H', facets=F, west=True), job('requested deep-space satellite', opts='ljst', flags='H', facets=F, recs=[GEO]),
         job('region and geodetic position, great circle', opts='ljrtp', flags='GH', facets=F, order='GHptrjl'), job('region', opts='ljrp', flags='G' if T else 'GH', facets=F, time_limit=400),
         job('zenith, deep-space satellite', opts='ljrt', flags='H', facets=F, recs=[GEO]), job('altitude range', opts='ljta', flags='H', facets=F),
         job('two satellites of two kinds', opts='jt', flags='HG', facets=F, recs=[GEO, LEO], given=dict(l='44.5,11.25,23', S='O'), req=lambda q: (setattr(q, 'S', 'O'), setattr(q, 'lat', 44.5), setattr(q, 'lon', 11.25), setattr(q, 'h', 23.0)),
             base=dict(site=(44.5, 11.25, 23.0), S='any'), west=False, time_limit=60)]
    J += [comp(n, getattr(sky, n)) for n in ('S02', 'S03', 'S08', 'S09') if hasattr(sky, n)]
    go(C, J, ('one or two element sets',))


def P10(C):
    F = ECHO | {'status', 'json'}
    J = [job('zenith', opts='ljrtn', flags='' if T else 'H', facets=F, west=True, time_limit=400), job('region', opts='ljrtnp', flags='H', facets=F, west=True, order='nptrjlH'),
         job('geodetic reference with region', opts='ljrp', flags='EH', facets=F), job('number with region', opts='ljrps', flags='H', facets=F, order='pslrjH'),
         job('region then number', opts='ljps', flags='V', facets=F, order='ljspV'), job('designator with region', opts='ljp', flags='H', facets=F, given=dict(i='1998-067A'), order='pijlH', req=lambda q: setattr(q, 'i', '1998-067A'), base=dict(i='any')),
         job('name with region', opts='ljp', flags='H', facets=F, given=dict(S='ZAR'), req=lambda q: setattr(q, 'S', 'ZAR'), base=dict(S='any')),
         job('calendar date', opts='lr', flags='H', facets=F, given=dict(d=DATE), req=at_date, base=dict(exact=True)),
         job('altitude range with region', opts='ljap', flags='H', facets=F), job('defaults', opts='l', flags='H', facets=F, req=at_date, base=dict(notime=True)),
         job('list file', opts='lj', flags='H', facets=F, file='@sets.lis', files={'sets.lis': FILE + '\n', FILE: LEO.text()}, base=dict(exact=True))]
    J += [comp(n, getattr(sky, n)) for n in ('S01', 'S06')]
    go(C, J, ('one element set',))
