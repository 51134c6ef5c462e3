"""Plant the bugs of bugs*.py: mk.py [id...]  -> writes /verif/seeded/<id>/ for those confirmed.
Runs each in a private mount namespace with a patched copy of /repo bound over /repo."""
import importlib, json, os, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
sys.path.insert(0, HERE)
BUGS = {}
for f in sorted(glob.glob(HERE + '/bugs*.py')):
    for b in importlib.import_module(os.path.basename(f)[:-3]).BUGS:
        assert b['id'] not in BUGS, b['id']
        BUGS[b['id']] = b


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def one(bid):
    b = BUGS[bid]
    w = tempfile.mkdtemp(prefix='seed_')
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        for fn, old, new in b['edits']:
            p = '%s/repo/%s' % (w, fn)
            s = open(p, newline='', encoding='latin-1').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                return bid, 'edit matches %d times: %s' % (s.count(old), old[:60])
            open(p, 'w', newline='', encoding='latin-1').write(s.replace(old, new))
        d = subprocess.run(['git', 'diff', '--no-ext-diff'], cwd=w + '/repo', capture_output=True).stdout
        # every removed line must come from the original commit; insert-only changes are accepted by looking at neighbours
        base = set()
        for fn in {e[0] for e in b['edits']}:
            base |= {l.strip() for l in subprocess.run(['git', 'show', '41b17ab:' + fn], cwd='/repo', capture_output=True).stdout.decode('latin-1').splitlines()}
        rem = [l[1:].strip() for l in d.decode('latin-1').splitlines() if l.startswith('-') and not l.startswith('---')]
        orig = [l in base for l in rem]
        if not rem or not any(orig):
            return bid, 'no original line changed: %s' % rem
        o = '%s/%s' % (OUT, bid)
        tmpo = w + '/' + bid
        os.makedirs(tmpo)
        open(tmpo + '/patch.diff', 'wb').write(d)
        open(tmpo + '/demo.py', 'w').write('from lib import *\n' + b['demo'].lstrip('\n'))
        shutil.copy(HERE + '/lib.py', tmpo + '/lib.py')
        open(tmpo + '/demo.sh', 'w').write('#!/bin/sh\n# cwd: /repo, after the build\nexec python3 -B "$(dirname "$0")/demo.py"\n')
        os.chmod(tmpo + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(tmpo + '/meta.json', 'w'), indent=1)
        open(tmpo + '/go.sh', 'w').write('''
mount --bind "$1" /repo || exit 90
bash /opt/vp/build.sh >/dev/null 2>%s/build.log || exit 91
bash /opt/vp/test.sh %s/res.json >/dev/null 2>&1 
cd /repo && timeout 280 sh %s/demo.sh; echo DEMO $?
''' % (tmpo, tmpo, tmpo))
        subprocess.run(['cp', '-a', '/repo', w + '/clean'], check=True)
        r1 = sh('unshare -Urm bash %s/go.sh %s/repo' % (tmpo, w))
        if r1.returncode in (90, 91):
            return bid, 'build %s %s' % (r1.returncode, open(tmpo + '/build.log').read()[-300:])
        res = json.load(open(tmpo + '/res.json'))
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        miss = stable - set(res['passed'])
        if miss:
            return bid, 'tests fail: %s' % sorted(miss)[:4]
        r0 = sh('unshare -Urm bash %s/go.sh %s/clean' % (tmpo, w))
        if 'DEMO 0' not in r0.stdout:
            return bid, 'demo fails on clean tree: ' + (r0.stdout + r0.stderr)[-400:]
        if 'DEMO 1' not in r1.stdout:
            return bid, 'demo with bug: ' + (r1.stdout + r1.stderr)[-400:]
        if 'BROKEN' not in r1.stdout:
            return bid, 'demo crashed: ' + (r1.stdout + r1.stderr)[-600:]
        os.makedirs(o, exist_ok=True)
        for f in ('patch.diff', 'demo.py', 'lib.py', 'demo.sh', 'meta.json'):
            shutil.copy(tmpo + '/' + f, o + '/' + f)
        part = '' if all(orig) else ' (some removed lines not original)'
        return bid, 'OK' + part + ' | ' + r1.stdout.strip().replace('\n', ' ')[:110]
    finally:
        shutil.rmtree(w, True)


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:]] or [i for i in BUGS if not os.path.exists('%s/%s/patch.diff' % (OUT, i))]
    with ThreadPoolExecutor(7) as ex:
        for bid, msg in ex.map(one, ids):
            print(bid, msg, flush=True)
