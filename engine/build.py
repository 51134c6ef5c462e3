"""Regenerate IR and native builds from /repo's current sources (into scratch directories)."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import atexit

REPO = os.environ.get('SATSKY_REPO', '/repo')
CLANG = shutil.which('clang-18') or shutil.which('clang')
OPT = shutil.which('opt-18') or shutil.which('opt')
LINK = shutil.which('llvm-link-18') or shutil.which('llvm-link')

LIB = ['sgp', 'sgp4', 'sgp8', 'sdp4', 'sdp8', 'deep', 'basics', 'get_el', 'common', 'observe', 'date2mjd_nf', 'mjd2date', 'skysep_h', 'lmst_hr',
       'dechalat2alt', 'lpsun_radec', 'earthtilt', 'zenith_site_ra']

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='satsky_verif_')
        pid = os.getpid()
        d = _scratch

        def clean():
            if os.getpid() == pid and d.startswith('/tmp/') or d.startswith(tempfile.gettempdir()):
                if os.getpid() == pid:
                    shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _scratch


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-3000:])
    return r.stdout


def src(name):
    if name == 'chealpix':
        return os.path.join(REPO, 'HealpixC', 'chealpix.c')
    return os.path.join(REPO, 'src', name + '.c')


def all_lib():
    """the library's translation units: the Makefile's LIBOBJS, so that a new unit is picked up"""
    mk = open(os.path.join(REPO, 'src', 'Makefile')).read()
    import re
    m = re.search(r'^LIBOBJS\s*=\s*((?:.*\\\n)*.*)$', mk, re.M)
    if m:
        o = [x[:-2] for x in m.group(1).replace('\\\n', ' ').split() if x.endswith('.o')]
        if o:
            return o
    return LIB


INC = lambda: ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'HealpixC')]


def ir(units, tag='m'):
    """textual IR of the given units linked together (mem2reg'd)"""
    d = scratch()
    bcs = []
    procs = []
    for u in units:
        o = os.path.join(d, '%s_%s.bc' % (tag, u))
        cmd = [CLANG, '-std=gnu11', '-fgnu89-inline', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-builtin-printf', '-ffp-contract=off', '-emit-llvm', '-c', '-w', '-U_FORTIFY_SOURCE'] + INC() + [src(u), '-o', o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        bcs.append(o)
    for cmd, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError(' '.join(cmd) + '\n' + out[-3000:])
    ll = os.path.join(d, tag + '.ll')
    lk = os.path.join(d, tag + '.bc')
    run([LINK] + bcs + ['-o', lk])
    run([OPT, '-S', '-passes=sroa,mem2reg', lk, '-o', ll])
    return open(ll).read()


def native(out, units=None, harness=(), extra=(), opt='-O2', san=False, main=None, wrap=(), defs=()):
    """compile harness + the library (+ main program unit) natively from the current sources"""
    d = scratch()
    exe = os.path.join(d, out)
    cc = 'gcc'
    srcs = [h for h in harness]
    if main:
        srcs.append(src(main))
    for u in (units if units is not None else all_lib() + ['chealpix']):
        srcs.append(src(u))
    cmd = [cc, '-g', opt, '-w', '-fPIC'] + list(defs) + INC() + srcs + ['-o', exe] + list(extra) + ['-lm', '-Wl,--allow-multiple-definition']
    if san == 'memory':
        cmd[0] = 'clang-18'
        cmd[1:1] = ['-fsanitize=memory', '-fno-omit-frame-pointer', '-fgnu89-inline', '-D_FORTIFY_SOURCE=0']
    elif san:
        cmd[1:1] = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
    run(cmd)
    return exe
