"""T-group: element lines."""
import ctypes
import datetime
import math
import os
import re
import subprocess

import build
import fw
import ref
import rt as rtm
import sym
from fw import Inp, nfun
from rt import Ptr, isn
from ref import cksum

T = fw.THOROUGH
PI = math.pi
REALS = 'numbers as real arithmetic (relative rounding of doubles below 1e-12 is outside the claim)'
FIELDS = ['epoch', 'xndt2o', 'xndd6o', 'bstar', 'xincl', 'xnodeo', 'eo', 'omegao', 'xmo', 'xno', 'norad_number', 'bulletin_number', 'revolution_number', 'classification', 'ephemeris_type', 'intl_desig']
_off = None


def offs():
    global _off
    if _off is None:
        d = build.scratch()
        c = os.path.join(d, 'toff.c')
        open(c, 'w').write('#include <stdio.h>\n#include <stddef.h>\n#include "norad.h"\nint main(void){%sprintf("%%zu\\n",sizeof(tle_t));return 0;}\n' %
                           ''.join('printf("%%zu ",offsetof(tle_t,%s));' % f for f in FIELDS))
        build.run(['gcc', '-w'] + build.INC() + [c, '-o', c[:-2]])
        a = [int(x) for x in subprocess.check_output([c[:-2]]).split()]
        _off = dict(zip(FIELDS, a), size=a[-1])
    return _off


def prepare():
    lib()
    offs()
    fw.new_rt(build.all_lib(), 'lib')


def lib():
    return fw.native_lib('lib')


def parse(l1, l2):
    """native parse_elements: verdict and fields"""
    f = nfun(lib(), 'parse_elements', ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_void_p)
    O = offs()
    b = ctypes.create_string_buffer(b'\xa5' * O['size'], O['size'])
    r = f(l1, l2, b)
    raw = b.raw
    D = lambda k: ctypes.c_double.from_buffer_copy(raw, O[k]).value
    I = lambda k: ctypes.c_int.from_buffer_copy(raw, O[k]).value
    v = {k: D(k) for k in FIELDS[:10]}
    v.update({k: I(k) for k in FIELDS[10:13]})
    v.update(classification=raw[O['classification']], ephemeris_type=raw[O['ephemeris_type']], intl_desig=raw[O['intl_desig']:O['intl_desig'] + 9].split(b'\0')[0])
    return r, v, raw


def csum(l):
    """checksum by the definition, of the 68 bytes before the digit"""
    return sum(c - 48 if 48 <= c <= 57 else c == 45 for c in l[:68]) % 10


L1, L2 = ref.Rec('X', '25544').lines()
UNITS = ['get_el']


# ---------------------------------------------------------------- T01

def T01(C):
    C.assume('a line whose first 68 characters leave the printable range " ".."z", whose second character is not a blank or that goes on after the checksum digit may be refused')
    C.bound('all contents of the 70 bytes of a line (tle_checksum) and of two lines (parse_elements); the field decoders below the verdict are sliced away, atoi is arbitrary')
    prepare()
    pre = '#include "norad.h"\nunsigned char nondet_uchar(void);\nint nondet_int(void);\nint atoi(const char *s) { return nondet_int(); }\n'
    own = '''static int sum(const char *l) { int i, s = 0; for( i = 0; i < 68; i++) { int c = (signed char)l[i]; if( c >= '0' && c <= '9') s += c - '0'; else if( c == '-') s++; } return s; }
'''
    H = pre + own + '''
int main(void)
{
  char l[71]; int i, ok = 1, r;
  for( i = 0; i < 70; i++) l[i] = (char)nondet_uchar();
  l[70] = 0;
  r = tle_checksum( l);
  { int s = sum( l);
  for( i = 0; i < 68; i++) if( l[i] < ' ' || l[i] > 'z') ok = 0;
  if( l[0] != '1' && l[0] != '2') __CPROVER_assert( r != 0, "line number refused");
  else if( l[68] < '0' || l[68] > '9' || l[68] - '0' != s % 10) __CPROVER_assert( r != 0, "wrong digit refused");
  else if( ok && l[1] == ' ' && l[69] >= 0 && l[69] <= ' ') __CPROVER_assert( r == 0, "right digit accepted"); }
  return 0;
}
'''
    G = pre + own + '''
int main(void)
{
  char l[71], m[71]; int i, r; tle_t t;
  for( i = 0; i < 70; i++) l[i] = (char)nondet_uchar(), m[i] = (char)nondet_uchar();
  l[70] = m[70] = 0;
  r = parse_elements( l, m, &t);
  { const char *x = WHICH ? m : l; int s = sum( x);
  if( x[0] != '1' + WHICH || x[1] != ' ' || x[68] < '0' || x[68] > '9' || x[68] - '0' != s % 10) __CPROVER_assert( r != 0, "malformed line refused"); }
  return 0;
}
'''
    # valid lines are accepted whatever the data: one symbolic field at a time keeps this small
    def rp1(e):
        l = e['l'][:70]
        f = nfun(lib(), 'tle_checksum', ctypes.c_int, ctypes.c_char_p)
        if b'\0' in l: l = l.split(b'\0')[0]
        if len(l) < 69 and l[:1] not in (b'1', b'2'):
            pass
        r = f(l)
        if l[:1] not in (b'1', b'2'): want = False
        elif len(l) < 69: want = False
        else: want = l[68:69].isdigit() and l[68] - 48 == csum(l)
        good = all(32 <= c <= 122 for c in l[:68]) and l[1:2] == b' ' and (len(l) < 70 or l[69] <= 32)
        if not want and r == 0: return 'tle_checksum(%r) = 0 although the checksum digit or the line number is wrong' % l
        if want and good and r != 0: return 'tle_checksum(%r) = %d although the checksum digit is right' % (l, r)
        return None

    def line(rnd, n):
        l = bytearray((L1 if n == 1 else L2).encode())
        for _ in range(rnd.choice([0, 1, 2, 10, 40])):
            l[rnd.randrange(2, 68)] = rnd.choice(b'0123456789-+ .ABCXYZabcz' if rnd.random() < .9 else bytes(range(33, 127)))
        if rnd.random() < .2:
            for i in range(rnd.randrange(60)): l[rnd.randrange(2, 68)] = ord('9')
        l[68] = 48 + (csum(l) + rnd.choice([0, 0, 1, 5, 9])) % 10
        if rnd.random() < .15: l[rnd.choice([0, 0, 1, 68])] = rnd.choice(b'0123 -x')
        return bytes(l) + rnd.choice([b'', b'\n', b'\r\n', b' x', b'7'])

    def rp2(e):
        l, m = e['l'][:70].split(b'\0')[0], e['m'][:70].split(b'\0')[0]
        r, _, _ = parse(l, m)
        bad = [n for n, x in ((1, l), (2, m)) if not (len(x) >= 69 and x[0] == 48 + n and x[1] == 32 and x[68:69].isdigit() and x[68] - 48 == csum(x))]
        if bad and r == 0: return 'lines\n%r\n%r\naccepted although line %d is malformed' % (l, m, bad[0])
        return None
    J = [('checksum', lambda C: fw.cb(C, 'checksum', H, UNITS, rp1, dict(l=71), draw=lambda r: dict(l=line(r, r.choice([1, 2]))), unwind=105, opts=('--sat-solver', 'cadical'), checks=False, timeout=400, seconds=20)),
         ('first line refused', lambda C: fw.cb(C, 'first line refused', G, UNITS, rp2, dict(l=71, m=71), draw=lambda r: dict(l=line(r, 1), m=line(r, 2)), unwind=105, defs=('WHICH=0',), checks=False, timeout=400,
                                                opts=('--sat-solver', 'cadical', '--slice-formula'), seconds=20)),
         ('second line refused', lambda C: fw.cb(C, 'second line refused', G, UNITS, rp2, dict(l=71, m=71), draw=lambda r: dict(l=line(r, 1), m=line(r, 2)), unwind=105, defs=('WHICH=1',), checks=False, timeout=400,
                                                 opts=('--sat-solver', 'cadical', '--slice-formula'), seconds=20)),
         ('accepted', accepted)]
    fw.par(C, J)


def accepted(C):
    """the verdict on lines with right checksums is 0 (checksum part by symbolic execution with a symbolic digit)"""
    R = fw.new_rt(build.all_lib(), 'lib')
    C.rt(R)
    d = [Inp('d%d' % i, 48, 57, isint=True) for i in range(3)]
    n = [i.node() for i in d]

    def entry():
        a, b = [ord(c) for c in L1], [ord(c) for c in L2]
        a[30], a[67], b[20] = n
        s1 = sum(c - 48 if 48 <= c <= 57 else c == 45 for i, c in enumerate(a[:68]) if not isn(c))
        s2 = sum(c - 48 if 48 <= c <= 57 else c == 45 for i, c in enumerate(b[:68]) if not isn(c))
        k1 = sym.add(sym.add(sym.sub(n[0], 48), sym.sub(n[1], 48)), s1)
        k2 = sym.add(sym.sub(n[2], 48), s2)

        def digit(k, lo, hi):
            for m in range(lo // 10, hi // 10 + 1):
                if R.branch(sym.lt(k, 10 * m + 10)): return sym.sub(k, 10 * m)
            return sym.sub(k, hi // 10 * 10)
        a[68] = sym.add(digit(k1, s1, s1 + 18), 48)
        b[68] = sym.add(digit(k2, s2, s2 + 9), 48)
        return R.call('parse_elements', (R.str_obj(a), R.str_obj(b), Ptr(R.new('tle', offs()['size']), 0)))

    def replay(e):
        a, b = bytearray(L1.encode()), bytearray(L2.encode())
        a[30], a[67], b[20] = [int(e['d%d' % i]) for i in range(3)]
        a[68], b[68] = 48 + csum(a), 48 + csum(b)
        r = parse(bytes(a), bytes(b))[0]
        return 'lines %r %r with right checksums: verdict %d' % (a, b, r) if r else None
    fw.fn_check(C, 'accepted', R, entry, d, lambda p: [('verdict', p.ret == 0 if not isn(p.ret) else sym.eq(p.ret, 0))], replay)


# ---------------------------------------------------------------- T02

def number_of(f):
    """number of a field of the two documented forms, None otherwise"""
    s = f.decode('latin1')
    if re.fullmatch(r' {0,4}\d{1,5}', s) and len(s) == 5: return int(s)
    if re.fullmatch(r'[A-HJ-NP-Z]\d{4}', s): return (10 + 'ABCDEFGHJKLMNPQRSTUVWXYZ'.index(s[0])) * 10000 + int(s[1:])
    return None


def T02(C):
    C.bound('all five-byte fields made of blanks, digits and capital letters')
    prepare()
    H = '''#include "norad.h"
unsigned char nondet_uchar(void);
int nondet_int(void);
int atoi(const char *s) { return nondet_int(); }
static int fix(char *l) { int i, s = 0; for( i = 0; i < 68; i++) if( l[i] >= '0' && l[i] <= '9') s += l[i] - '0'; else if( l[i] == '-') s++; return s % 10; }
int main(void)
{
  char a[71] = "@1\\n", b[71] = "@2\\n", f[5]; tle_t t; int i, nd = 0, nl = 0, bl = 0, ok = 1, r, v;
  for( i = 0; i < 5; i++) {
    f[i] = (char)nondet_uchar();
    __CPROVER_assume( f[i] == ' ' || (f[i] >= '0' && f[i] <= '9') || (f[i] >= 'A' && f[i] <= 'Z'));
    a[i + 2] = b[i + 2] = f[i];
    if( f[i] == ' ') { bl++; if( nd || nl) ok = 0; }
    else if( f[i] <= '9') nd++; else nl++;
    if( f[i] == 'I' || f[i] == 'O') ok = 0;
  }
  a[68] = '0' + fix( a); b[68] = '0' + fix( b);
  r = parse_elements( a, b, &t);
  v = 0;
  for( i = 0; i < 5; i++) v = v * 10 + (f[i] >= '0' && f[i] <= '9' ? f[i] - '0' : 0);
  if( ok && !nl && nd) __CPROVER_assert( t.norad_number == v, "digits");
  if( ok && nl == 1 && !bl && f[0] >= 'A') {
    int k = f[0] - 'A' - (f[0] > 'I') - (f[0] > 'O');
    __CPROVER_assert( t.norad_number == (10 + k) * 10000 + v, "letter and digits");
  }
  if( ok && !bl && nl && !(nl == 1 && f[0] >= 'A')) __CPROVER_assert( t.norad_number >= 340000, "other extended fields");
  if( ok && nd + nl) __CPROVER_assert( r == 0, "accepted");
  return 0;
}
'''.replace('@1', L1).replace('@2', L2)

    def replay(e):
        f = e['f'][:5]
        a, b = bytearray(L1.encode()), bytearray(L2.encode())
        a[2:7] = f
        b[2:7] = f
        a[68], b[68] = 48 + csum(a), 48 + csum(b)
        r, v, _ = parse(bytes(a), bytes(b))
        w = number_of(f)
        if w is not None and (r != 0 or v['norad_number'] != w): return 'catalogue field %r decodes to %d (verdict %d), expected %d' % (f, v['norad_number'], r, w)
        if w is None and re.fullmatch(rb'[0-9A-HJ-NP-Z]{5}', f) and 0 <= v['norad_number'] < 340000: return 'extended catalogue field %r decodes to %d' % (f, v['norad_number'])
        return None

    def draw(r):
        k = r.random()
        if k < .4: f = b'%5d' % r.choice([r.randrange(10), r.randrange(1000), r.randrange(100000)])
        elif k < .5: f = b'%05d' % r.randrange(10000)
        elif k < .75: f = r.choice('ABCDEFGHJKLMNPQRSTUVWXYZ').encode() + b'%04d' % r.randrange(10000)
        else: f = bytes(r.choice(b'0123456789ABCDEFGHJKLMNPQRSTUVWXYZ') for _ in range(5))
        return dict(f=f)
    fw.par(C, [('catalogue number', lambda C: fw.cb(C, 'catalogue number', H, UNITS, replay, dict(f=5), draw=draw, unwind=105, checks=False, opts=('--sat-solver', 'cadical', '--slice-formula')))])
    import visibility
    if not C.viol: visibility.natives(C, 'catalogue numbers of real programs', dict(k=2), set(), 10, 3)


# ---------------------------------------------------------------- T03

def chars(prefix, n, lo=48, hi=57):
    return [Inp('%s%d' % (prefix, i), lo, hi, isint=True) for i in range(n)]


def val(ds):
    """the number of a list of digit cells (nodes or codes)"""
    v = 0
    for c in ds:
        v = sym.add(sym.mul(v, 10), sym.sub(c, 48))
    return v


def fieldfam(C, name, puts, want, inps, yearday=None, after=None, prep=None, kind='parse'):
    """puts: list of (line, column, cells); want: {field: node or (node, scale)}; digits symbolic.  The pair is decoded before and after other lines."""
    R = fw.new_rt(build.all_lib(), 'lib')
    O = offs()
    S = fw.ctypes
    import world
    stub = world.sig(R, 'tle_checksum') == ('ptr',)
    if stub: R.stubs['tle_checksum'] = lambda rt, p: 0

    def lines(env=None):
        o = []
        for n, t in ((1, L1), (2, L2)):
            a = [ord(c) for c in t]
            for k, col, cells in puts:
                if k == n: a[col:col + len(cells)] = cells
            if env is not None:
                a = bytearray(int(round(sym.evalf(c, env))) if isn(c) else c for c in a)
                a[68] = 48 + csum(a)
            o.append(a)
        return o

    def get(t, k):
        if k in FIELDS[:10]: return R.load(Ptr(t.o, O[k]), 8, 'double')
        if k in FIELDS[10:13]: return R.load(Ptr(t.o, O[k]), 4, 'i32')
        if k == 'intl_desig': return [R.load(Ptr(t.o, O[k] + i), 1, 'i8') for i in range(9)]
        return R.load(Ptr(t.o, O[k]), 1, 'i8')

    def entry():
        if prep: prep(R)
        a, b = lines()
        x, y = R.str_obj(a), R.str_obj(b)
        t1, t2, t3 = [Ptr(R.new('tle%d' % i, O['size']), 0) for i in range(3)]
        r1 = R.call('parse_elements', (x, y, t1))
        o1, o2 = ref.GEO_LINES
        R.call('parse_elements', (R.str_obj(o1), R.str_obj(o2), t2))
        r3 = R.call('parse_elements', (x, y, t3))
        return r1, {k: get(t1, k) for k in want}, r3, {k: get(t3, k) for k in want}

    def goals(p):
        r1, v, r3, u = p.ret
        yield 'verdict', (r1 == 0 and r3 == 0) if stub else ((r1 >= 0 and r1 == r3) if not isn(r1) else sym.ge(r1, 0))
        for k, w in want.items():
            if k == 'intl_desig':
                yield k, sym.cand(*[sym.eq(c, d) if isn(c) or isn(d) else c == d for c, d in zip(v[k], list(w) + [0])])
            else:
                w, sc = w if isinstance(w, tuple) else (w, None)
                if sc is None: yield k, sym.eq(v[k], w) if isn(v[k]) or isn(w) else v[k] == w
                else: yield k, fw.close(v[k], w, 1e-12 * sc)
            yield k + ' again', v[k] is u[k] or (isinstance(v[k], list) and all(c is d or c == d for c, d in zip(v[k], u[k]))) or (fw.close(v[k], u[k], 1e-15) if not isinstance(v[k], list) else False)

    def replay(e):
        a, b = lines(e)
        r, v, raw = parse(bytes(a), bytes(b))
        parse(*[x.encode() for x in ref.GEO_LINES])
        r2, v2, _ = parse(bytes(a), bytes(b))
        show = ' (lines %r %r)' % (bytes(a).decode(), bytes(b).decode())
        if r != 0: return 'well-formed lines: verdict %d%s' % (r, show)
        if r2 != r or v2 != v: return 'decoding the same lines again gives %r instead of %r%s' % (v2, v, show)
        for k, w in want.items():
            if k == 'intl_desig':
                w = bytes(int(round(sym.evalf(c, e))) if isn(c) else c for c in w)
                if v[k] != w: return 'designator %r%s' % (v[k], show)
                continue
            w, sc = w if isinstance(w, tuple) else (w, None)
            w = sym.evalf(w, e) if isn(w) else w
            g = v[k]
            if abs(g - w) > (1e-11 * max(sc, abs(w)) if sc is not None else 0): return '%s = %r, expected %r%s' % (k, g, w, show)
        return None
    fw.fn_check(C, name, R, entry, inps, goals, replay, validate=2, timeout=6000)


def esc(t): return [ord(c) for c in t]


def nodes(inps): return [i.node() for i in inps]


def angles(C):
    for w in range(1, 4):
        A = [chars(p, w + 4) for p in 'imop']
        puts, want = [], {}
        for (k, col), a in zip((('xincl', 8), ('xnodeo', 17), ('omegao', 34), ('xmo', 43)), A):
            n = nodes(a)
            puts.append((2, col, [32] * (3 - w) + n[:w] + [46] + n[w:]))
            want[k] = (sym.scale(val(n), sym.Fr(PI) / 1800000), PI)
        fieldfam(C, 'angles with %d integer digits' % w, puts, want, sum(A, []))


def motion(C):
    for w in (1, 2):
        m, e, r = chars('m', w + 8), chars('e', 7), chars('r', 5)
        n = nodes(m)
        f = sym.Fr(2) * sym.Fr(PI) / 1440
        v = sym.add(val(n[:w]), sym.scale(val(n[w:]), sym.Fr(1, 10 ** 8)))
        for blanks in range(5):
            fieldfam(C, 'motion %d, revolution with %d blanks' % (w, blanks), [(2, 26, nodes(e)), (2, 52, [32] * (2 - w) + n[:w] + [46] + n[w:]), (2, 63, [32] * blanks + nodes(r)[blanks:])],
                     dict(eo=(sym.scale(val(nodes(e)), sym.Fr(1, 10 ** 7)), 1), xno=(sym.scale(v, f), .1), revolution_number=val(nodes(r)[blanks:])), m + e + r[blanks:])


def rates(C):
    d = chars('d', 8)
    f = sym.Fr(2) * sym.Fr(PI) / 1440 ** 2
    for sg in ' +-0':
        v = sym.scale(val(nodes(d)), sym.Fr(1, 10 ** 8) * f)
        fieldfam(C, 'first derivative, sign %r' % sg, [(1, 33, [ord(sg), 46] + nodes(d))], dict(xndt2o=(sym.neg(v) if 0 else sym.scale(v, -1) if sg == '-' else v, 1e-6)), d)


def drag(C, signs):
    m, k = chars('m', 5), chars('k', 5)
    ex = range(10)
    for s1 in signs:
        for s2 in '+- ':
            for e in ex:
                x = sym.Fr(10) ** ((-e if s2 == '-' else e) - 5) * (-1 if s1 == '-' else 1)
                y = sym.Fr(10) ** (-(9 - e) - 5)
                want = dict(bstar=(sym.scale(val(nodes(m)), x), float(abs(x)) * 1e5), xndd6o=(sym.scale(val(nodes(k)), y * 2 * sym.Fr(PI) / 1440 ** 3), float(y) * 1e5 * 2e-9))
                fieldfam(C, 'drag %r %r %d' % (s1, s2, e), [(1, 53, [ord(s1)] + nodes(m) + [ord(s2), 48 + e]), (1, 44, [32] + nodes(k) + [45, 48 + 9 - e])], want, m + k)
    s1 = signs[0]
    x = sym.Fr(2) * sym.Fr(PI) / 1440 ** 3
    for s2 in '+- ':
        for e in (0, 3, 9):
            y = sym.Fr(10) ** ((-e if s2 == '-' else e) - 5) * (-1 if s1 == '-' else 1)
            fieldfam(C, 'second derivative %r %r %d' % (s1, s2, e), [(1, 44, [ord(s1)] + nodes(k) + [ord(s2), 48 + e])], dict(xndd6o=(sym.scale(val(nodes(k)), y * x), float(abs(y)) * 1e5 * 2e-9)), k)


def epochs(C, years):
    d = chars('d', 11)
    n = nodes(d)
    for yy in years:
        y = 1900 + yy if yy >= 57 else 2000 + yy
        j = datetime.date(y, 1, 1).toordinal() + 1721424.5 - 1
        v = sym.add(sym.add(val(n[:3]), sym.scale(val(n[3:]), sym.Fr(1, 10 ** 8))), j)
        fieldfam(C, 'epoch %02d' % yy, [(1, 18, esc('%02d' % yy) + n[:3] + [46] + n[3:])], dict(epoch=(v, 100.)), d)
        for b in (1, 2) if yy in (0, 57, 99, 8) else ():
            v = sym.add(sym.add(val(n[b:3]), sym.scale(val(n[3:]), sym.Fr(1, 10 ** 8))), j)
            fieldfam(C, 'epoch %02d, %d blanks' % (yy, b), [(1, 18, esc('%02d' % yy) + [32] * b + n[b:3] + [46] + n[3:])], dict(epoch=(v, 100.)), d[b:])
        if yy < 10:
            v = sym.add(sym.add(val(n[:3]), sym.scale(val(n[3:]), sym.Fr(1, 10 ** 8))), j)
            fieldfam(C, 'epoch %2d' % yy, [(1, 18, esc('%2d' % yy) + n[:3] + [46] + n[3:])], dict(epoch=(v, 100.)), d)


def copies(C):
    c = chars('c', 8, 33, 122)
    k = chars('k', 1, 65, 90)
    for b in range(4):
        e = chars('e', 4 - b)
        fieldfam(C, 'copied fields, %d blanks' % b, [(1, 9, nodes(c)), (1, 7, nodes(k)), (1, 64, [32] * b + nodes(e))],
                 dict(intl_desig=nodes(c), classification=nodes(k)[0], bulletin_number=val(nodes(e)), ephemeris_type=48), c + k + e)


def T03(C):
    C.assume(REALS, 'the checksum test enters as "right" (its meaning: T01)')
    C.bound('all digits of all fields, integer parts with leading blanks, all signs, all one-digit exponents, all epoch years 00..99; the pair decoded before and after another one')
    prepare()
    J = [('angles', angles), ('motion', motion), ('rates', rates), ('copies', copies)]
    J += [('drag ' + s, lambda C, s=s: drag(C, s)) for s in ' +-']
    J += [('epochs %d' % i, lambda C, i=i: epochs(C, range(i, 100, 8))) for i in range(8)]
    fw.par(C, J)


# ---------------------------------------------------------------- T04

def T04(C):
    C.bound('pairs of lines of the lengths 1, 30, 68, 69, 70, 99 listed in the obligations, in objects that end with their NUL, all byte contents; the checksum test on all lengths up to 99; inner loops up to 14 rounds (asserted to suffice); verdict and integer fields compared over two calls with another pair between')
    C.assume('atoi by a stand-in: for memory safety it reads the field and returns an arbitrary number, for repetition it converts at most twelve digits')
    prepare()
    pre = '''#include "norad.h"
#include <stdlib.h>
unsigned char nondet_uchar(void); unsigned nondet_uint(void); int nondet_int(void);
'''
    H = pre + '''
int atoi(const char *s)
{
  if( __CPROVER_OBJECT_SIZE( s) < 20) { int i = 0; while( s[i]) i++; }   /* a copied field: has to end inside its buffer */
  else { char c = *s; }                                                 /* a position in a line, which has its end inside */
  return nondet_int();
}
int main(void)
{
  char l[N1 + 1], m[N2 + 1]; tle_t t; int i;
  for( i = 0; i < N1; i++) { l[i] = nondet_uchar(); __CPROVER_assume( l[i] != 0); }
  for( i = 0; i < N2; i++) { m[i] = nondet_uchar(); __CPROVER_assume( m[i] != 0); }
  l[N1] = m[N2] = 0;
  parse_elements( l, m, &t);
  return 0;
}
'''
    H1 = pre + '''
int main(void)
{
  unsigned i, n1 = nondet_uint(); char *l;
  __CPROVER_assume( n1 <= 99);
  l = malloc( n1 + 1);
  l[n1] = 0;
  for( i = 0; i < 99; i++) if( i < n1) __CPROVER_assume( l[i] != 0);
  tle_checksum( l);
  return 0;
}
'''
    G = pre + '''
int atoi(const char *s)
{
  unsigned v = 0; int neg = 0, i;
  for( i = 0; i < 40 && *s == ' '; i++) s++;
  if( *s == '-' || *s == '+') { neg = *s == '-'; s++; }
  for( i = 0; i < 12 && *s >= '0' && *s <= '9'; i++) { v = v * 10 + (unsigned)(*s - 48); s++; }
  return (int)(neg ? 0u - v : v);
}
int main(void)
{
  char l[71], m[71], x[71] = "@1", y[71] = "@2"; int i, r, q; tle_t a, b, c;
  for( i = 0; i < 70; i++) l[i] = (char)nondet_uchar(), m[i] = (char)nondet_uchar();
  l[70] = m[70] = 0;
  r = parse_elements( l, m, &a);
  parse_elements( x, y, &c);
  q = parse_elements( l, m, &b);
  __CPROVER_assert( r == q, "same verdict");
  if( r >= 0) __CPROVER_assert( a.norad_number == b.norad_number && a.classification == b.classification && a.ephemeris_type == b.ephemeris_type && a.bulletin_number == b.bulletin_number && a.revolution_number == b.revolution_number, "same values");
  return 0;
}
'''.replace('@1', ref.GEO_LINES[0]).replace('@2', ref.GEO_LINES[1])

    def draw(r):
        out = {}
        for k, t in (('l', L1), ('m', L2)):
            x = bytearray((t + r.choice(['', '\n', '\r\n', ' ' * 20, '9' * 30])).encode())
            for _ in range(r.choice([0, 1, 1, 2, 5, 20])): x[r.randrange(2, len(x))] = r.choice([r.randrange(1, 256), r.choice(b'0123456789-+. ZAHz')])
            if r.random() < .3: x[62] = r.choice(b'H012345 9')
            if r.random() < .3:
                a = r.randrange(60)
                x[a:a + r.randrange(1, 12)] = r.choice(b'z9-+ ') .to_bytes(1, 'big') * r.randrange(1, 12)
            if r.random() < .2: x = x[:r.randrange(len(x))]
            x = x[:99]
            if len(x) >= 69: x[68] = 48 + csum(x)
            out[k] = bytes(x)
        return out
    exe = native_pair()

    def replay(e):
        l, m = [e[k].split(b'\0')[0] for k in 'lm']
        if not m: m = b'2'
        for x in exe:
            p = subprocess.run([x], input=b'%d %d\n' % (len(l), len(m)) + l + m, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99', UBSAN_OPTIONS='halt_on_error=1:exitcode=99', MSAN_OPTIONS='exitcode=99'))
            if p.returncode: return 'lines\n%r\n%r\nexit %d: %s' % (l, m, p.returncode, (p.stdout + p.stderr).decode('latin1')[:600])
        return None
    us = ('tle_checksum.0:102', 'main.0:102', 'main.1:102')
    big = ('--sat-solver', 'cadical', '--slice-formula')
    L = [(70, 70), (69, 69), (99, 70), (30, 70), (70, 30), (68, 70), (70, 68), (1, 70), (70, 1)] + ([(99, 99), (71, 72), (70, 99), (10, 10), (50, 60), (69, 70), (70, 69)] if T else [])
    J = [('repetition', lambda C: fw.cb(C, 'repetition', G, UNITS, replay, draw=draw, unwind=14, unwindset=us + ('atoi.0:41', 'atoi.1:20'), timeout=400, checks=False, opts=big))]
    J += [('lengths %d %d' % n, lambda C, n=n: fw.cb(C, 'lines of %d and %d bytes' % n, H, UNITS, replay, draw=draw, unwind=14, unwindset=us + ('atoi.0:20',), defs=('N1=%d' % n[0], 'N2=%d' % n[1]), timeout=400, seconds=25, opts=big)) for n in L]
    J += [('checksum', lambda C: fw.cb(C, 'checksum of a line of any length', H1, UNITS, replay, draw=draw, unwind=102, timeout=400, opts=('--sat-solver', 'cadical')))]
    fw.par(C, J)


def native_pair():
    """sanitizer build that decodes a pair from exact-size buffers, three times"""
    d = build.scratch()
    h = os.path.join(d, 'pair.c')
    open(h, 'w').write('''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "norad.h"
#ifdef MSAN
int atoi( const char *s)      /* seen by the sanitizer */
{
  unsigned v = 0; int neg = 0;
  while( *s == ' ' || (*s >= 9 && *s <= 13)) s++;
  if( *s == '-' || *s == '+') neg = *s++ == '-';
  while( *s >= '0' && *s <= '9') v = v * 10 + (unsigned)(*s++ - '0');
  return (int)( neg ? 0u - v : v);
}
#endif
int main(void)
{
  int n1, n2, r[2], i; char *l, *m; tle_t t[2];
  if( scanf( "%d %d", &n1, &n2) != 2) return 1;
  getchar();
  l = malloc( n1 + 1); m = malloc( n2 + 1);
  if( fread( l, 1, n1, stdin) != (size_t)n1 || fread( m, 1, n2, stdin) != (size_t)n2) return 1;
  l[n1] = m[n2] = 0;
  for( i = 0; i < 2; i++) {
    memset( t + i, 0x5a, sizeof( tle_t));
    if( i) { tle_t x; parse_elements( "1 08366U 75100A   20013.25000000  .00001264  00000-0  29621-4 0  9990", "2 08366  51.6465 341.5807 0003880  94.4223  26.1197  1.00000000 12340", &x); }
    if( n1 && n2) r[i] = parse_elements( l, m, t + i); else r[i] = 0;
    if( n1) tle_checksum( l);
  }
  if( r[0] != r[1] || (r[0] >= 0 && memcmp( t, t + 1, sizeof( tle_t)))) { printf( "not the same when repeated: verdicts %d %d\\n", r[0], r[1]); return 3; }
  return 0;
}
''')
    return [build.native('pair', harness=[h], san=True, opt='-O1'), build.native('pairm', harness=[h], san='memory', opt='-O0', defs=('-DMSAN', '-fno-builtin'))]


# ---------------------------------------------------------------- T05

def T05(C):
    C.assume(REALS, 'gravity constants of the published theory: ke = 0.0743669161331734, J2 = 1.082616e-3')
    C.bound('mean motion 0.5..18 rev/day, eccentricity 0..0.95, inclination 0..pi; every other element arbitrary; ephemeris type 0 or blank (the types that name a model are obeyed)')
    prepare()
    O = offs()
    R = fw.new_rt(build.all_lib(), 'lib')
    tp = 2 * PI / 1440
    A = [Inp('n', .5 * tp, 18 * tp, (6.4 * tp, 6.39 * tp), samp=lambda r: r.choice([r.uniform(6.2, 6.6), r.uniform(.5, 18)]) * tp), Inp('e', 0, .95, (0, .95)), Inp('i', 0, PI, (0, PI / 2, PI, .9553))]
    B = [Inp(k, -10, 10) for k in ('xndt2o', 'xndd6o', 'bstar', 'xnodeo', 'omegao', 'xmo')] + [Inp('epoch', 2.4e6, 2.5e6)]
    n, e, i = [x.node() for x in A]
    f = nfun(lib(), 'select_ephemeris', ctypes.c_int, ctypes.c_void_p)
    k2 = .5 * 1.082616e-3
    KE = 0.0743669161331734132
    ci = sym.fcos(i)
    beta2 = sym.sub(1, sym.mul(e, e))
    a1 = rtm.m_pow(R, sym.div(KE, n), 2 / 3.)
    tv = sym.div(sym.scale(sym.sub(sym.scale(sym.mul(ci, ci), 3), 1), 1.5 * k2), sym.mul(sym.fsqrt(beta2), beta2))
    d1 = sym.div(tv, sym.mul(a1, a1))
    a0 = sym.mul(a1, sym.sub(1, sym.mul(d1, sym.add(1 / 3., sym.mul(d1, sym.add(1, sym.scale(d1, 134. / 81)))))))
    d0 = sym.div(tv, sym.mul(a0, a0))
    n0 = sym.div(n, sym.add(1, d0))

    def entry(ty=48):
        t = Ptr(R.new('tle', O['size']), 0)
        for x in B: R.store(Ptr(t.o, O[x.name]), 8, x.node(), 'double')
        for k, v in (('xno', n), ('eo', e), ('xincl', i)): R.store(Ptr(t.o, O[k]), 8, v, 'double')
        for k in FIELDS[10:13]: R.store(Ptr(t.o, O[k]), 4, 7, 'i32')
        R.store(Ptr(t.o, O['ephemeris_type']), 1, ty, 'i8')
        R.store(Ptr(t.o, O['classification']), 1, 85, 'i8')
        return R.call('select_ephemeris', (t,))
    P = sym.div(2 * PI, n0)

    def goals(p):
        yield 'verdict', p.ret in (0, 1)
        yield 'period rule', sym.ge(P, 225 - 1e-9) if p.ret == 1 else sym.lt(P, 225 + 1e-9)

    def period(n, e, i):
        a1 = (KE / n) ** (2 / 3)
        tv = 1.5 * k2 * (3 * math.cos(i) ** 2 - 1) / (1 - e * e) ** 1.5
        d1 = tv / a1 ** 2
        a0 = a1 * (1 - d1 / 3 - d1 ** 2 - 134 / 81 * d1 ** 3)
        return 2 * PI / n * (1 + tv / a0 ** 2)

    def replay(v, ty=48):
        b = ctypes.create_string_buffer(O['size'])
        for k, x in [('xno', v['n']), ('eo', v['e']), ('xincl', v['i'])] + [(k.name, v[k.name]) for k in B]:
            ctypes.c_double.from_buffer(b, O[k]).value = x
        b[O['ephemeris_type']] = ty
        r = f(b)
        p = period(v['n'], v['e'], v['i'])
        if abs(p - 225) > 1e-7 and r != int(p > 225): return 'mean motion %r rev/day, eccentricity %r, inclination %r rad: period %.6f min, model %d' % (v['n'] / tp, v['e'], v['i'], p, r)
        return None
    fw.par(C, [('period rule', lambda C: fw.fn_check(C, 'period rule', R, entry, A + B, goals, replay, timeout=20000)),
               ('period rule, blank type', lambda C: fw.fn_check(C, 'period rule, blank type', R, lambda: entry(32), A + B, goals, lambda v: replay(v, 32), timeout=20000))])


# ---------------------------------------------------------------- T06

def T06(C):
    C.assume(REALS, 'the checksum test enters as "right" (its meaning: T01)')
    C.bound('all eight base-36 digits of each component, both signs; all epochs of the year 2015 and 1999')
    prepare()
    O = offs()
    names = ['xincl', 'xnodeo', 'eo', 'omegao', 'xmo', 'xno']
    J = []
    for k in range(6):
        for sg in '+-':
            J.append(('component %d %s' % (k, sg), lambda C, k=k, sg=sg: component(C, k, sg, names)))
    J.append(('model', model_h))
    J.append(('epoch', lambda C: hepoch(C)))
    fw.par(C, J)


HV = ['+0000ABCD', '-000012ZZ', '+0001A2B3']
HW = ['-00001000', '+000A0Z01', '+0000000Z']


def hputs():
    return [(1, 33 + 10 * i, esc(HV[i] + ' ')[:10 if i < 2 else 9]) for i in range(3)] + [(2, 33 + 10 * i, esc(HW[i] + ' ')[:10 if i < 2 else 9]) for i in range(3)] + [(1, 62, [72])]


def h36(t):
    v = int(t[1:], 36)
    return -v if t[0] == '-' else v


def component(C, k, sg, names):
    d = [Inp('d%d' % i, 48, 90, isint=True, samp=lambda r: r.choice(b'0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ')) for i in range(8)]
    n = nodes(d)
    want = {}
    for i in range(3):
        want[names[i]] = (h36(HV[i]), 1e9)
        want[names[i + 3]] = (h36(HW[i]) * 1e-4, 1e5)
    puts = hputs() + [(1 if k < 3 else 2, 33 + 10 * (k % 3), [ord(sg)] + n)]
    # value of the digits: letters and figures
    lim = 8 if T else 4

    def prep(R):
        for i, c in enumerate(n):
            R.assume(sym.cor(sym.le(c, 57), sym.ge(c, 65)))
    w = 0
    dv = []
    for c in n:
        v = sym.fn_ite(sym.le(c, 57), sym.sub(c, 48), sym.sub(c, 55)) if hasattr(sym, 'fn_ite') else None
        dv.append(v)
    fieldfam36(C, 'component %d %s' % (k, sg), puts, want, names[k], n, d, sg, 1.0 if k < 3 else 1e-4, prep)


def fieldfam36(C, name, puts, want, key, n, d, sg, f, prep):
    R = fw.new_rt(build.all_lib(), 'lib')
    O = offs()
    import world
    stub = world.sig(R, 'tle_checksum') == ('ptr',)
    if stub: R.stubs['tle_checksum'] = lambda rt, p: 0

    def lines(env=None):
        o = []
        for k, t in ((1, L1), (2, L2)):
            a = [ord(c) for c in t]
            for j, col, cells in puts:
                if j == k: a[col:col + len(cells)] = cells
            if env is not None:
                a = bytearray(int(round(sym.evalf(c, env))) if isn(c) else c for c in a)
                a[68] = 48 + csum(a)
            o.append(a)
        return o

    def entry():
        prep(R)
        a, b = lines()
        t = Ptr(R.new('tle', O['size']), 0)
        r = R.call('parse_elements', (R.str_obj(a), R.str_obj(b), t))
        v = {k: R.load(Ptr(t.o, O[k]), 8, 'double') for k in want}
        w = 0
        for c in n:
            w = sym.add(sym.mul(w, 36), sym.sub(c, 48 if R.branch(sym.le(c, 57)) else 55))
        return r, v, sym.scale(w, sym.Fr(f) * (-1 if sg == '-' else 1))

    def goals(p):
        r, v, w = p.ret
        yield 'verdict', r == 0
        yield key, fw.close(v[key], w, 1e-3 * f)
        for k, x in want.items():
            if k != key: yield k, fw.close(v[k], x[0], 1e-9)

    def replay(e):
        e = dict(e)
        for i in d:
            if 57 < e[i.name] < 65: e[i.name] = 65
        a, b = lines(e)
        r, v, _ = parse(bytes(a), bytes(b))
        w = h36(sg + ''.join(chr(int(e[i.name])) for i in d)) * f
        show = ' (lines %r %r)' % (bytes(a).decode(), bytes(b).decode())
        if r != 0: return 'state-vector record: verdict %d%s' % (r, show)
        for k, x in want.items():
            x = w if k == key else x[0]
            if abs(v[k] - x) > 1e-9 * max(1, abs(x)): return '%s = %r, expected %r%s' % (k, v[k], x, show)
        return None
    fw.fn_check(C, name, R, entry, d, goals, replay, max_paths=600, validate=2)


def model_h(C):
    O = offs()
    R = fw.new_rt(build.all_lib(), 'lib')
    A = [Inp(k, -3e12, 3e12, (0, 1, -1)) for k in ('xincl', 'xnodeo', 'eo', 'omegao', 'xmo', 'xno')]
    f = nfun(lib(), 'select_ephemeris', ctypes.c_int, ctypes.c_void_p)

    def entry():
        t = Ptr(R.new('tle', O['size']), 0)
        for x in A: R.store(Ptr(t.o, O[x.name]), 8, x.node(), 'double')
        R.store(Ptr(t.o, O['ephemeris_type']), 1, 72, 'i8')
        return R.call('select_ephemeris', (t,))

    def replay(e):
        b = ctypes.create_string_buffer(O['size'])
        for x in A: ctypes.c_double.from_buffer(b, O[x.name]).value = e[x.name]
        b[O['ephemeris_type']] = 72
        r = f(b)
        return 'state-vector record %r: model %d' % (e, r) if r != 1 else None
    fw.fn_check(C, 'model', R, entry, A, lambda p: [('deep-space', p.ret == 1)], replay)


def hepoch(C):
    d = chars('d', 11)
    n = nodes(d)
    for yy, y in ((15, 2015), (99, 1999), (57, 1957), (56, 2056), (0, 2000)):
        j = datetime.date(y, 1, 1).toordinal() + 1721424.5 - 1
        v = sym.add(sym.add(val(n[:3]), sym.scale(val(n[3:]), sym.Fr(1, 10 ** 8))), j)
        fieldfam(C, 'epoch %02d' % yy, hputs() + [(1, 18, esc('%02d' % yy) + n[:3] + [46] + n[3:])], dict(epoch=(v, 100.), ephemeris_type=72), d)
