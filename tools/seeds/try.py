"""try.py [-p PROP] [id...]: run the check of each planted bug's property (or PROP) with the bug applied to a private copy of /repo."""
import json, os, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
SEED = '/verif/seeded'


def one(a):
    bid, prop, tier = a
    patch = '%s/%s/patch.diff' % (SEED, bid)
    prop = prop or json.load(open('%s/%s/meta.json' % (SEED, bid)))['property']
    w = tempfile.mkdtemp(prefix='try_')
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        subprocess.run(['cp', '-a', '/verif', w + '/verif'], check=True)
        r = subprocess.run(['git', 'apply', patch], cwd=w + '/repo', capture_output=True, text=True)
        if r.returncode:
            return bid, prop, 'patch does not apply ' + r.stderr[:100], 0
        t = time.time()
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s/repo /repo; mount --bind %s/verif /verif; cd /verif; VERIF_SEED=1 VERIF_TIER=%s timeout 900 python3-vt check.py %s' % (w, w, tier, prop)], capture_output=True, text=True)
        t = time.time() - t
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        ok = r.returncode == 1 and v and ('property=%s ' % prop) in v[0]
        return bid, prop, ('caught' if ok else 'MISSED rc=%d' % r.returncode) + ' ' + ((r.stdout + r.stderr).strip().splitlines() or [''])[-1][:150], t
    finally:
        shutil.rmtree(w, True)


if __name__ == '__main__':
    a = sys.argv[1:]
    prop = None; tier = 'quick'; n = 3
    while a and a[0].startswith('-'):
        if a[0] == '-p': prop = a[1]
        if a[0] == '-j': n = int(a[1])
        if a[0] == '-t': tier = a[1]
        a = a[2:]
    ids = a or sorted(os.listdir(SEED))
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, [(i, prop, tier) for i in ids]):
            print('%-32s %s %5.0fs %s' % (r[0], r[1], r[3], r[2]), flush=True)
