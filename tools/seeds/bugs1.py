SKY, VIS, OBS = 'src/sat_skymap.c', 'src/sat_visibility.c', 'src/observe.c'
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


COMMON = r'''
LOC, DATE = '-l44,11,100', '-d2026-04-10T12:00:00'
SETS = [dict(num=1001 + i, name='OBJ %d' % i, desig='98%03dA' % (i + 1), ma=15. * i, raan=15. * i, mm=15.2 - .05 * i) for i in range(24)]
put('a.tle', ''.join(tle(**s) for s in SETS))
def whole(*a):
    return sats(sky('a.tle', LOC, DATE, '-p0,0', '-r400', '-H', *a)[1])
'''

bug('skymap-end-only-haversine', 'P01', [(SKY, 'ang_sep <= p.search_radius || ang_sep1 <= p.search_radius )',
     'ang_sep <= p.search_radius || (p.haversine && ang_sep1 <= p.search_radius) )')], COMMON + r'''
bad = None
for s in whole('-t600'):
    ra0, de0, ra1, de1 = s['data'][:4]
    if abs(ra1 - ra0) < 90 and abs(de1) < 80 and 2 < ra1 < 358 and math.hypot(ra1 - ra0, de1 - de0) > 3:
        d = sky('a.tle', LOC, DATE, '-t600', '-p%.4f,%.4f' % (ra1, de1), '-r1')[1]
        if s['norad_n'] not in [x['norad_n'] for x in sats(d)]:
            bad = (s['norad_n'], ra1, de1)
verdict(bad is None, 'satellite inside the region at the end of the step not listed: %s' % (bad,))
''', 'a satellite that is outside the region at the start of the step and inside at its end, without the great-circle switch -H',
    'objects that enter the requested region during the time step are no longer listed in plane-triangle mode')

bug('skymap-name-sunlit-region', 'P04', [(SKY, '\t\tp.satname_filter ||\n', '\t\t(p.satname_filter && !p.sunlit_only) ||\n')], COMMON + r'''
rows = {s['norad_n']: s for s in whole()}
d = sky('a.tle', LOC, DATE, '-SOBJ', '-V', '-p0,0', '-r1')[1]
want = [n for n in rows if rows[n]['data'][8]]
got = [s['norad_n'] for s in sats(d)]
verdict(got == want and len(want) > 2, 'sunlit objects by name: %d of %d' % (len(got), len(want)))
''', 'a request by name together with the sunlit-only switch, for objects outside the search region',
    'a request by name becomes restricted to the region when the sunlit-only switch is given')

bug('skymap-dup-delimiter', 'P05', [(SKY, '\tstrcat(norad_name, ",");\n', '\tstrcat(norad_name, norad_name[0] == \' \' ? "" : ",");\n')], r'''
# 5 columns: " 1234" is written without delimiter after "00001" ... the catalogue number 1 followed by blank-padded ones
put('a.tle', tle(num=7, name='A') + tle(num=70, name='B', num_txt='   70') + tle(num=71, name='D', num_txt='    7') )
import itertools
nums = ['    7', '   71', '    1', '   17', '  171']
# "    7" + "    1" : occurrence of "   71"? search for a colliding triple exhaustively among short numbers
def scan(nums):
    buf, out = '', []
    for n in nums:
        if n in buf: continue
        buf += n; out.append(n)
    return out
cand = None
pool = ['%5d' % k for k in range(1, 13)] + ['%5d' % k for k in (10000, 20000, 11111, 11112, 12000)]
import random
R = random.Random(1)
seqs = [R.sample(pool, 8) for _ in range(200)] + [['10000', '20000', '%05d' % 200, '   12']]
seqs = [['1' + a, '    2'] for a in ('    ',)] and seqs
ok = True
for q in seqs[:60]:
    put('a.tle', ''.join(tle(num_txt=n, name='S' + str(i)) for i, n in enumerate(q)))
    d = sky('a.tle', '-l44,11,100', '-d2026-04-10T12:00:00', '-p0,0', '-r400', '-H')[1]
    if len(sats(d)) != len(q):
        ok = False; bad = q
        break
verdict(ok, '' if ok else 'distinct catalogue numbers %s, listed %d' % (bad, len(sats(d))))
''', 'several catalogue numbers with leading blanks whose concatenation contains another number',
    'distinct objects are dropped as duplicates')

bug('skymap-alt-swap', 'P03', [(SKY, '\t\t  p.alt_min = dummy;\n\t\t}\n\t\tp.altrng_requested = true;', '\t\t  p.alt_min = p.alt_max;\n\t\t}\n\t\tp.altrng_requested = true;')], COMMON + r'''
a = [s['norad_n'] for s in whole('-a300,900')]
b = [s['norad_n'] for s in whole('-a900,300')]
verdict(a == b and len(a) > 3, 'range 300,900 lists %d, range 900,300 lists %d' % (len(a), len(b)))
''', 'an altitude range given with the larger bound first', 'a reversed altitude range selects nothing')

bug('skymap-healpix-end', 'P09', [(SKY, 'theta = (PI/2. - dec);', 'theta = (PI/2. - dec1);')], COMMON + r'''
rows = whole('-t600')
code = '#include <stdio.h>\n#include "chealpix.h"\nint main(){long p;double t,f;long id[]={%s};double th[]={%s},ph[]={%s};int i,bad=0;for(i=0;i<%d;i++){double v[3],w[3];ang2vec(th[i],ph[i],v);pix2vec_nest(256,id[i],w);if(v[0]*w[0]+v[1]*w[1]+v[2]*w[2]<0.9999)bad++;}printf("%%d",bad);return 0;}' % (
  ','.join(str(s['data'][9]) for s in rows), ','.join('%.6f' % math.radians(90 - s['data'][1]) for s in rows), ','.join('%.6f' % math.radians(s['data'][0]) for s in rows), len(rows))
rc, out = cc(code)
verdict(out.strip() == '0', '%s of %d records name a sky pixel far from the start direction' % (out, len(rows)))
''', 'a time step long enough that the declination changes by more than a pixel',
    'the sky-pixel number mixes the start right ascension with the end declination')

bug('skymap-sunlit-count-info', 'P06', [(SKY, '\t  if ( is_sunlit )\n\t\tn_sunlit_sats++;', '\t  if ( is_sunlit && !p.info_only )\n\t\tn_sunlit_sats++;')], COMMON + r'''
d0 = sky('a.tle', LOC, DATE, '-p0,0', '-r400', '-H')[1]
d1 = sky('a.tle', LOC, DATE, '-p0,0', '-r400', '-H', '-I')[1]
verdict(d0['n_sunlit_sats'] == d1['n_sunlit_sats'] > 0, 'sunlit count %d with the list, %d with -I' % (d0['n_sunlit_sats'], d1['n_sunlit_sats']))
''', 'the information-only switch -I and sunlit objects in the region', 'the number of sunlit satellites is always 0 with -I')

bug('skymap-single-zenith', 'P10', [(SKY, 'if ( p.geoloc_reference || single_sat || !in_region ) {', 'if ( p.geoloc_reference || !in_region ) {')], COMMON + r'''
a = sky('a.tle', LOC, DATE, '-p100,20', '-s1001')[1]
b = sky('a.tle', LOC, DATE, '-s1001', '-p100,20')[1]
ra, de = b['input_params']['region']['ra'], b['input_params']['region']['dec']
z = b['input_params']['region']['lmst'] * 15
ok = abs(ra - z) < .01 and abs(de - 44) < 1e-3 and a['input_params'] == b['input_params'] and sats(a)[0]['data'] == sats(b)[0]['data']
verdict(ok, 'centre %s,%s instead of the zenith %s,44' % (ra, de, z))
''', 'a single-satellite request followed by (not preceded by) a region option',
    'the region is used as separation reference of a single-satellite request depending on the option order')

bug('skymap-geodetic-haversine-dummy', 'P02', [(SKY, '''ang_sep = skysep_h(target_lon, target_lat, geo.lon * DEG2RAD, geo.lat * DEG2RAD);
		ang_sep1 = 2 * ang_sep;''', '''ang_sep = skysep_h(target_lon, target_lat, geo.lon * DEG2RAD, geo.lat * DEG2RAD);
		ang_sep1 = 180. - ang_sep;''')], COMMON + r'''
put('a.tle', ''.join(tle(num=2000 + i, name='X%d' % i, ma=7.5 * (i % 48), raan=30. * (i // 48), mm=15.2) for i in range(48 * 12)))
d = sky('a.tle', LOC, DATE, '-E', '-H', '-r30')[1]
bad = [(s['norad_n'], s['data'][5]) for s in sats(d) if s['data'][5] > 30]
verdict(not bad, 'listed beyond the radius: %s' % bad)
''', 'the geodetic reference with the great-circle switch and a satellite near the antipode of the site',
    'satellites on the other side of the Earth are listed')

bug('vis-run-over-gap', 'V01', [(VIS, '''	if ( !sunlit_start_found )
	  continue;
	break;
    }''', '''	if ( !sunlit_start_found || t < jd[0] + 1. )
	  continue;
	break;
    }''')], r'''
ok, n, bad = True, 0, ''
for ma in range(0, 360, 60):
    put('a.tle', tle(num=5, name='X', ma=ma, mm=14.2, incl=80.))
    d = vis('a.tle', '-l60,11,100', '-s5', '-d2026-06-10T00:00:00,2026-06-11T00:00:00', '-r60', '-t10')[1]
    if 'satellite' not in d: continue
    s = d['satellite']; n += 1
    a, b = s['sat_start']['MJD'], s['sat_end']['MJD']
    t = a
    while t < b - 1e-4:
        e = vis('a.tle', '-l60,11,100', '-s5', '-j%.5f,%.5f' % (t, t + 1e-5), '-r61', '-t10')[1]
        if 'satellite' not in e: ok = False; bad = 'interval %s..%s, not visible at %.5f' % (a, b, t); break
        t += 5e-4
verdict(ok and n, bad)
''', 'a range that contains more than one passage', 'the reported interval spans the time the satellite spends outside the radius between two passages')

bug('vis-max-dark', 'V02', [(VIS, 'if ( sat.ang_sep < min_ang_sep && sat.is_sunlit ) {', 'if ( sat.ang_sep < min_ang_sep ) {')], r'''
ok, n, bad = True, 0, ''
for ma in range(0, 360, 10):
  for h, ra in ((0, 30), (0, 210), (2, 50), (2, 230)):
    put('a.tle', tle(num=5, name='X', ma=ma, raan=ra, mm=11.2, incl=60.))
    d = vis('a.tle', '-l0,11,100', '-s5', '-d2026-04-10T%02d:00:00,2026-04-10T12:00:00' % h, '-r80', '-t30')[1]
    if 'satellite' not in d: continue
    s = d['satellite']; n += 1
    a, b, m = s['sat_start']['MJD'], s['sat_end']['MJD'], s['sat_max']['MJD']
    if not a - 1e-5 <= m <= b + 1e-5: ok = False; bad = '%s %s %s' % (a, m, b)
verdict(ok and n, 'start, max, end: ' + bad)
''', 'a satellite that passes closest to the zenith in the Earth shadow before becoming sunlit',
    'the culmination data lie outside the reported interval')

bug('vis-daytime-step', 'V04', [(VIS, '\tif ( sun.alt < 0. || t > jd[1] )', '\tif ( sun.alt < -6. || t > jd[1] )')], r'''
put('a.tle', tle(num=5, name='GEO', mm=1.00273791, incl=.05, ecc=.0001, raan=0, argp=0, ma=210))
best = None
for ma in range(0, 360, 15):
    put('a.tle', tle(num=5, name='GEO', mm=1.00273791, incl=.05, ecc=.0001, raan=0, argp=0, ma=ma))
    d = vis('a.tle', '-l44,11,100', '-s5', '-N', '-d2026-04-10T12:00:00,2026-04-10T22:00:00', '-r80', '-t60')[1]
    if 'satellite' in d: best = d; break
alt = None
if best:
    v = best['sun_start'] if 'sun_start' in best else best['satellite']['sun_start']
    alt = v['alt'] if isinstance(v, dict) else v[3]
verdict(best is not None and -1.5 < alt < 0.01, 'Sun altitude at the start of the search %s' % alt)
''', 'daytime skipping with a satellite that is visible at sunset (a geostationary one)', 'the search starts at civil dusk instead of sunset')
