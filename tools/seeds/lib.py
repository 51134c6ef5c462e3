"""Helpers of the demonstrations of planted bugs (standard library only; run with cwd /repo after the build)."""
import json, math, os, subprocess, sys, tempfile, shutil, atexit
REPO = os.getcwd()
SRC = os.path.join(REPO, 'src')
TMP = tempfile.mkdtemp(prefix='demo_')
atexit.register(shutil.rmtree, TMP, True)


def chk(s):
    return s + str(sum(int(c) if c.isdigit() else (c == '-') for c in s) % 10)


def tle(num=5, name='SAT', desig='58002B', yy=26, day=100.5, incl=51.6, raan=120., ecc=.001, argp=90., ma=10., mm=15.5,
        nd=' .00000000', ndd=' 00000-0', bstar=' 00000-0', num_txt=None):
    n = num_txt or '%5d' % num
    l1 = '1 %sU %-8s %02d%012.8f %s %s %s 0  999' % (n, desig, yy, day, nd, ndd, bstar)
    l2 = '2 %s %8.4f %8.4f %07d %8.4f %8.4f %11.8f12345' % (n, incl, raan, round(ecc * 1e7), argp, ma, mm)
    assert len(l1) == 68 and len(l2) == 68, (l1, l2)
    return (name + '\n' if name is not None else '') + chk(l1) + '\n' + chk(l2) + '\n'


def put(name, text):
    with open(os.path.join(TMP, name), 'w', newline='') as f:
        f.write(text)
    return name


def run(prog, *args, timeout=60):
    r = subprocess.run([os.path.join(SRC, prog), *args], cwd=TMP, capture_output=True, timeout=timeout)
    return r.returncode, r.stdout.decode('latin-1')


def sky(*args):
    """search program: (exit status, parsed object)"""
    rc, out = run('sat_skymap', *args, '-D' + TMP)
    return rc, json.loads(out)


def vis(*args):
    rc, out = run('sat_visibility', *args, '-D' + TMP)
    return rc, json.loads(out)


def sats(d):
    return d.get('satellites') or []


def cc(code, extra=(), libs=('-lsatskymap', '-lchealpix')):
    p = os.path.join(TMP, 'd.c')
    with open(p, 'w') as f:
        f.write(code)
    e = os.path.join(TMP, 'd.exe')
    subprocess.run(['gcc', '-O1', '-w', '-I' + SRC, '-I' + os.path.join(REPO, 'HealpixC'), p, *extra, '-o', e, '-L' + SRC,
                    '-L' + os.path.join(REPO, 'HealpixC'), '-Wl,-Bstatic', *libs, '-Wl,-Bdynamic', '-lm'], check=True)
    r = subprocess.run([e], capture_output=True, timeout=120)
    return r.returncode, r.stdout.decode('latin-1')


def verdict(ok, text=''):
    print('holds' if ok else 'BROKEN', text)
    sys.exit(0 if ok else 1)
