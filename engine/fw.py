"""Check framework: obligations, counterexample realisation + native replay, evidence."""
import ctypes
import json
import math
import os
import random
import re
import subprocess
import sys
import time
import traceback

import build
import llir
import rt as rtm
import sym
import zs
from sym import isn

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
THOROUGH = TIER == 'thorough'


class Check:
    def __init__(self, pid, budget=None):
        self.pid = pid
        self.t0 = time.time()
        self.budget = budget or (700 if THOROUGH else 150)
        self.obl = []
        self.viol = []
        self.knownhits = []
        self.samples = []
        self.validated = 0
        self.assump = []
        self.bounds = []
        self.rts = []
        self.extra = {}
        self.cb = dict(runs=0, steps=0, vccs=0, time=0.0, props=0, proved=0)
        self.rnd = random.Random(SEED * 7919 + hash_str(pid))
        self.encoded = {}
        self.merged = dict(paths=0, inf=0, uns=[], inc=[])
        self.known = {}
        p = os.path.join(HERE, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
                if m and m.group(1) == pid:
                    self.known[m.group(2)] = m.group(3)

    def left(self):
        return self.budget - (time.time() - self.t0)

    def assume(self, *t):
        for x in t:
            if x not in self.assump:
                self.assump.append(x)

    def bound(self, *t):
        for x in t:
            if x not in self.bounds:
                self.bounds.append(x)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def ob(self, name, status, detail=''):
        self.obl.append((name, status, detail))

    def violation(self, key, text, data=None):
        if any(v[0] == key for v in self.viol):
            return
        self.viol.append((key, text, data))

    def rt(self, R):
        if R not in self.rts:
            self.rts.append(R)
        return R

    def pack(self):
        """what a child process hands back"""
        enc = dict(self.encoded)
        for R in self.rts:
            for f, (nb, ni) in R.encoded.items():
                enc[f] = '%d blocks, %d instructions' % (nb, ni)
        m = self.merged
        return dict(obl=self.obl, viol=[(k, t, d if isinstance(d, (str, type(None))) else json.loads(json.dumps(d, default=str))) for k, t, d in self.viol],
                    samples=self.samples, validated=self.validated, assump=self.assump, bounds=self.bounds, encoded=enc, cb=self.cb, extra=self.extra,
                    paths=sum(R.npaths for R in self.rts) + m['paths'], inf=sum(R.ninfeasible for R in self.rts) + m['inf'],
                    uns=[u for R in self.rts for u in R.nunsupported] + m['uns'], inc=[u for R in self.rts for u in R.incomplete] + m['inc'],
                    st=[zs.ST.queries, zs.ST.sat, zs.ST.unsat, zs.ST.unknown, zs.ST.time])

    def absorb(self, d, label=''):
        self.obl += [(label + n, s, t) for n, s, t in d['obl']]
        for k, t, x in d['viol']:
            self.violation(label + k, t, x)
        for s in d['samples'][:4]:
            self.sample(label + s)
        self.validated += d['validated']
        self.assume(*d['assump'])
        self.bound(*d['bounds'])
        self.encoded.update(d['encoded'])
        self.extra.update(d['extra'])
        for k in self.cb:
            self.cb[k] += d['cb'][k]
        m = self.merged
        m['paths'] += d['paths']
        m['inf'] += d['inf']
        m['uns'] += [label + u for u in d['uns']]
        m['inc'] += [label + u for u in d['inc']]
        q, a, b, c, t = d['st']
        zs.ST.queries += q
        zs.ST.sat += a
        zs.ST.unsat += b
        zs.ST.unknown += c
        zs.ST.time += t

    def finish(self):
        wall = time.time() - self.t0
        real = []
        for key, text, data in self.viol:
            if key in self.known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[key]))
                self.knownhits.append(key)
            else:
                real.append((key, text, data))
        und = [o for o in self.obl if o[1] != 'proved']
        enc = dict(self.encoded)
        for R in self.rts:
            for f, (nb, ni) in R.encoded.items():
                enc[f] = '%d blocks, %d instructions' % (nb, ni)
        paths = sum(R.npaths for R in self.rts) + self.merged['paths']
        inf = sum(R.ninfeasible for R in self.rts) + self.merged['inf']
        uns = [u for R in self.rts for u in R.nunsupported] + self.merged['uns']
        inc = [u for R in self.rts for u in R.incomplete] + self.merged['inc']
        for u in sorted(set(uns)):
            und.append(('path', 'unsupported', u))
        for u in inc:
            und.append(('paths', 'unexplored', u))
        ndis = sum(1 for o in self.obl if o[1] == 'proved')
        cov = dict(
            states=paths + self.cb['steps'],
            transitions=zs.ST.queries + self.cb['vccs'],
            traces_validated_against_impl=self.validated,
            samples=self.samples or ['none'],
            obligations=len(self.obl), discharged=ndis,
            undischarged=['%s: %s %s' % o for o in und][:60],
            symbolic_paths=paths, infeasible_paths=inf,
            solver=dict(smt_queries=zs.ST.queries, smt_sat=zs.ST.sat, smt_unsat=zs.ST.unsat, smt_unknown=zs.ST.unknown, smt_seconds=round(zs.ST.time, 2),
                        cbmc_runs=self.cb['runs'], cbmc_steps=self.cb['steps'], cbmc_vccs=self.cb['vccs'], cbmc_properties=self.cb['props'],
                        cbmc_seconds=round(self.cb['time'], 2)),
            functions_encoded=enc,
            bounds=self.bounds,
            states_meaning='symbolic path end states plus CBMC symbolic-execution steps',
            transitions_meaning='SMT queries plus CBMC verification conditions decided',
        )
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level='model_checking', coverage=cov,
                  assumptions=self.assump, wall_s=round(wall, 2), violations=len(real))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d/%d obligations discharged, %d paths, %d smt queries (%.1fs), %d cbmc runs (%.1fs), %d native validations, %.1fs' % (
            self.pid, ndis, len(self.obl), paths, zs.ST.queries, zs.ST.time, self.cb['runs'], self.cb['time'], self.validated, wall))
        for o in und[:25]:
            print('  UNDISCHARGED %s: %s %s' % (o[0], o[1], str(o[2])[:300]))
        code = 0
        rd = os.path.join(HERE, 'evidence', 'replay')
        for i, (key, text, data) in enumerate(real):
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, '%s-%d.txt' % (self.pid, i))
            with open(p, 'w') as f:
                f.write('property %s\nkey %s\n%s\n' % (self.pid, key, text))
                if data is not None:
                    f.write(data if isinstance(data, str) else json.dumps(data, indent=1, default=str))
                    f.write('\n')
            print('  ' + text.replace('\n', '\n  ')[:1500])
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            code = 1
        return code


def par(C, jobs, procs=8, limit=None):
    """run jobs [(label, fn)] - fn(child Check) - in forked processes and merge what they report"""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    limit = limit or max(10, C.left())
    todo = list(jobs)
    run = []
    t_end = time.time() + limit + 20
    while todo or run:
        while todo and len(run) < procs:
            label, fn = todo.pop(0)
            a, b = ctx.Pipe(False)

            def child(label=label, fn=fn, b=b):
                c = Check(C.pid, budget=max(5, C.left()))
                c.rnd = random.Random(SEED * 7919 + hash_str(C.pid + label))
                st0 = zs.ST
                st0.queries = st0.sat = st0.unsat = st0.unknown = 0
                st0.time = 0.0
                try:
                    fn(c)
                except build.BuildError:
                    raise
                except Exception as e:
                    traceback.print_exc()
                    c.ob('engine', 'undecided', repr(e))
                b.send(c.pack())
                b.close()
            p = ctx.Process(target=child)
            p.start()
            b.close()
            run.append((label, p, a))
        done = False
        for x in list(run):
            label, p, a = x
            try:
                if a.poll(0):
                    C.absorb(a.recv(), label + ': ')
                    p.join()
                    run.remove(x)
                    done = True
                    continue
            except EOFError:
                p.join()
                C.ob(label + ': process', 'undecided', 'ended without a result (status %r)' % p.exitcode)
                run.remove(x)
                done = True
                continue
            if time.time() > t_end:
                p.kill()
                p.join()
                C.ob(label + ': process', 'undecided', 'time limit')
                run.remove(x)
                done = True
        if not done:
            time.sleep(0.02)


def hash_str(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) & 0x7fffffff
    return h


# ---------------------------------------------------------------- native library

_lib = {}


def native_lib(tag='lib', units=None, defs=(), extra_src=(), opt='-O2'):
    """shared object of the library units (current sources) loaded with ctypes"""
    key = (tag, tuple(defs), tuple(extra_src))
    if key not in _lib:
        exe = build.native('lib_%s.so' % tag, units=units, harness=extra_src, extra=['-shared'], opt=opt, defs=defs)
        _lib[key] = ctypes.CDLL(exe)
    return _lib[key]


D = ctypes.c_double
PD = ctypes.POINTER(ctypes.c_double)


def outd(n=1):
    return (ctypes.c_double * n)()


def nfun(lib, name, res, *args):
    f = getattr(lib, name)
    f.restype = res
    f.argtypes = list(args)
    return f


_ir = {}


def new_rt(units, tag, mode=sym.REAL):
    key = (tuple(units), tag)
    if key not in _ir:
        _ir[key] = llir.Module(build.ir(list(units), tag))
    return rtm.RT(_ir[key], mode)


# ---------------------------------------------------------------- proving

def eq_pins(pc):
    """variables that a path condition fixes to a constant"""
    m = {}
    for c in pc:
        if type(c) is bool or c.op != 'eq' or not isn(c.a):
            continue
        k0, d = sym._term(c.a)
        if len(d) == 1:
            (n, k), = d.items()
            if n.k == 'var':
                v = -k0 / k
                m[n.id] = int(v) if n.isint and v.denominator == 1 else float(v)
    return m


def z_prove(pc, goal, timeout=8000, mono=False, extra=None, depth=3):
    """'proved' | 'sat' | 'unknown' and a model"""
    if goal is True:
        return 'proved', None
    if goal is not False:
        g2 = sym.simp_cond(goal)
        if g2 is True:
            return 'proved', None
        goal = g2
        if sym.by_interval(goal):
            return 'proved', None
    if type(goal) is not bool and goal.op == 'and' and len(goal.a) > 1:
        worst, env = 'proved', None
        for g in goal.a:
            st, m = z_prove(pc, g, timeout, mono, extra, depth)
            if st != 'proved':
                return st, m
        return worst, env
    if depth > 0 and goal is not False:
        m = eq_pins(pc)
        if m:
            pc2 = [x for x in [sym.subst_cond(x, m) for x in pc] if x is not True]
            if any(x is False for x in pc2):
                return 'proved', None
            return z_prove(pc2, sym.subst_cond(goal, m), timeout, mono, extra, depth)
    ng = sym.neg(goal) if goal is not False else True
    if extra and ng is not True and zs.check(pc, timeout=timeout // 4, slice_goal=ng, mono=mono)[0] == 'unsat':
        return 'proved', None
    if ng is True:
        r, env = zs.check(pc, timeout=timeout, want_model=True, mono=mono, extra=extra)
    else:
        r, env = zs.check(pc, timeout=timeout, want_model=True, slice_goal=ng, mono=mono, extra=extra)
    if r == 'unsat':
        return 'proved', None
    if depth > 0 and goal is not False:
        g2 = sym.clear_cond(goal)
        if g2 is not None and zs.check(pc, timeout=timeout, slice_goal=sym.neg(g2), mono=mono, extra=extra)[0] == 'unsat':
            return 'proved', None
    st = 'sat' if r == 'sat' else 'unknown'
    if depth > 0 and goal is not False:
        # pin / split small integer atoms (floor terms) and retry on the re-normalised goal
        at = [n for n in sym.int_atoms(goal).values() if n.lo > -1e9 and n.hi < 1e9 and n.hi - n.lo <= 6]
        at.sort(key=lambda n: (n.hi - n.lo, n.id))
        for n in at[:4]:
            vals = []
            for v in range(int(n.lo), int(n.hi) + 1):
                if zs.check(pc, timeout=timeout, slice_goal=sym.eq(n, v))[0] != 'unsat':
                    vals.append(v)
            if len(vals) > 2:
                continue
            good = True
            for v in vals:
                m = {n.id: v}
                pc2 = [x for x in [sym.subst_cond(x, m) for x in pc] if x is not True] + [sym.eq(n, v)]
                if any(x is False for x in pc2):
                    continue
                s2, env2 = z_prove(pc2, sym.subst_cond(goal, m), timeout, mono, extra, depth - 1)
                if s2 != 'proved':
                    good = False
                    if env2 is not None:
                        env, st = env2, s2
                    break
            if good:
                return 'proved', None
            break
    return st, env


def close(a, b, tol):
    """|a-b| <= tol as a Cond (or bool)"""
    for x in (a, b):
        if not isn(x) and (x != x or abs(x) == sym.INF):
            return False
    d = sym.sub(a, b)
    if not isn(d):
        return abs(d) <= tol
    if sym.is_zero(d):
        return True
    return sym.cand(sym.le(d, tol), sym.ge(d, -tol))


class Inp:
    """a symbolic input: name, range, integer?, special values"""
    def __init__(self, name, lo, hi, specials=(), isint=False, samp=None):
        self.name = name
        self.lo = lo
        self.hi = hi
        self.specials = [s for s in specials if lo <= s <= hi]
        self.isint = isint
        self.samp = samp

    def node(self):
        return sym.var(self.name, self.lo, self.hi, self.isint)

    def draw(self, rnd):
        r = rnd.random()
        if self.specials and r < 0.3:
            v = rnd.choice(self.specials)
            if rnd.random() < 0.3:
                v += rnd.choice([-1, 1]) * 10 ** rnd.uniform(-9, -1)
        elif self.samp:
            v = self.samp(rnd)
        else:
            v = rnd.uniform(self.lo, self.hi)
        v = min(max(v, self.lo), self.hi)
        return int(round(v)) if self.isint else v


def draw_env(inps, rnd):
    return {i.name: i.draw(rnd) for i in inps}


def pc_holds(pc, env, slack=0.0):
    memo = {}
    try:
        return all(sym.evalc(c, env, memo, slack) for c in pc)
    except Exception:
        return False


def realise(C, inps, pc, tries=400, near=None):
    """a concrete input that satisfies a path condition numerically (solver model first, then guided sampling)"""
    cands = []
    if near is not None:
        cands.append(near)
    r, m = zs.check(pc, timeout=4000, want_model=True)
    if m is not None:
        cands.append(m)
    for c in cands:
        env = draw_env(inps, C.rnd)
        env.update({k: v for k, v in c.items() if k in env})
        if pc_holds(pc, env):
            return env
        for k in range(10):
            e2 = dict(env)
            for i in inps:
                if C.rnd.random() < 0.5:
                    e2[i.name] = i.draw(C.rnd)
            if pc_holds(pc, e2):
                return e2
    for _ in range(tries):
        env = draw_env(inps, C.rnd)
        if pc_holds(pc, env):
            return env
    return None


def fn_check(C, name, R, entry, inps, goals, replay, pre=(), max_paths=400, time_limit=60, timeout=6000, mono=False,
             hazard_ok=None, validate=6, tries=3000, axioms=None, hazard_replay=None):
    """Explore `entry` symbolically; on every path prove every goal; realise + natively replay what is not proved.

    goals(path) -> list of (label, Cond or bool);   replay(env) -> None (fine) or text (violated), runs the real code.
    """
    C.rt(R)
    res = R.explore(entry, max_paths=max_paths, time_limit=min(time_limit, max(5, C.left())))
    nval = 0
    todo = []
    for k, p in enumerate(res):
        lab = '%s/path%d' % (name, k)
        if p.hazard is not None:
            if hazard_ok and hazard_ok(p):
                C.ob(lab + '/allowed-hazard', 'proved', str(p.hazard))
                continue
            r, m = zs.check(p.pc, timeout=timeout, want_model=True)
            if r == 'unsat':
                C.ob(lab + '/no-hazard', 'proved', 'infeasible')
                continue
            C.ob(lab + '/no-hazard', 'undecided', str(p.hazard))
            todo.append((lab + '/no-hazard', p, None, m))
            continue
        try:
            gs = goals(p)
        except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
            C.ob(lab + '/goals', 'undecided', 'result shape: %r' % (e,))
            todo.append((lab, p, None, None))
            continue
        for g, cond in gs:
            if C.left() < 0:
                C.ob(lab + '/' + g, 'undecided', 'time budget')
                continue
            st, m = z_prove(p.pc, cond, timeout, mono, axioms(p) if axioms else None)
            if st == 'proved':
                C.ob(lab + '/' + g, 'proved')
            else:
                # infeasible path?
                if cond is not False and zs.check(p.pc, timeout=timeout)[0] == 'unsat':
                    C.ob(lab + '/' + g, 'proved', 'path infeasible')
                    continue
                C.ob(lab + '/' + g, 'undecided', st)
                todo.append((lab + '/' + g, p, cond, m))
        if nval < validate and replay:
            env = realise(C, inps, p.pc, tries=60)
            if env is not None:
                nval += 1
                t = replay(env)
                C.validated += 1
                C.sample('%s %s' % (lab, {a: env[a] for a in list(env)[:8]}))
                if t:
                    C.violation('%s' % name, t, env)
    if not res:
        C.ob(name + '/reachable', 'undecided', 'no path explored')
    # realise the unproved ones
    if replay and not C.viol:
        budget = time.time() + min(20, max(3, C.left()))
        seen = 0
        for lab, p, cond, m in todo:
            if time.time() > budget or C.viol:
                break
            cands = []
            if m is not None:
                env = draw_env(inps, C.rnd)
                env.update({k: v for k, v in m.items() if k in env})
                cands.append(env)
            for _ in range(40 if m is not None else 0):
                e2 = dict(cands[0])
                for i in inps:
                    if C.rnd.random() < 0.4:
                        e2[i.name] = i.draw(C.rnd)
                cands.append(e2)
            for env in cands:
                C.validated += 1
                t = replay(env)
                if t:
                    C.violation(name, '%s\n%s' % (lab, t), env)
                    break
        n = 0
        if todo and not C.viol:
            while time.time() < budget and n < tries:
                n += 1
                env = draw_env(inps, C.rnd)
                t = replay(env)
                C.validated += 1
                if t:
                    C.violation(name, 'unproved obligation realised: %s' % t, env)
                    break
    if (R.nunsupported or R.incomplete) and replay and not C.viol:
        # the encoding is incomplete on this tree: look for a concrete failure with the real code
        budget = time.time() + min(15, max(3, C.left()))
        n = 0
        while time.time() < budget and n < tries:
            n += 1
            env = draw_env(inps, C.rnd)
            t = replay(env)
            C.validated += 1
            if t:
                C.violation(name, 'replayed: %s' % t, env)
                break
    return res


# ---------------------------------------------------------------- CBMC

def cbmc(C, name, harness, units, func='main', unwind=None, unwindset=(), opts=(), timeout=120, defs=(), checks=True, unwinding_assertions=True):
    """run CBMC on harness + repo units; returns dict(result=..., failed=[(prop, desc)], trace=text, inputs={})"""
    d = build.scratch()
    h = os.path.join(d, name + '.c')
    with open(h, 'w') as f:
        f.write(harness)
    cmd = ['cbmc', h] + [build.src(u) for u in units] + build.INC() + ['-D' + x for x in defs] + ['--function', func, '--drop-unused-functions', '--no-malloc-may-fail']
    if unwind:
        cmd += ['--unwind', str(unwind)]
    for u in unwindset:
        cmd += ['--unwindset', u]
    if unwinding_assertions:
        cmd += ['--unwinding-assertions']
    else:
        cmd += ['--no-unwinding-assertions']
    if not checks:
        cmd += ['--no-standard-checks']
    cmd += list(opts) + ['--trace', '--json-ui']
    t = time.time()
    C.cb['runs'] += 1
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out = r.stdout
        code = r.returncode
    except subprocess.TimeoutExpired as e:
        out = ''
        code = 'timeout'
    dt = time.time() - t
    C.cb['time'] += dt
    res = dict(result='unknown', failed=[], props=0, inputs={}, bits={}, code=code, out=out, time=dt)
    if code == 'timeout':
        return res
    try:
        js = json.loads(out)
    except ValueError:
        res['result'] = 'error'
        return res
    for x in js:
        mt = x.get('messageText', '')
        m = re.search(r'size of program expression: (\d+) steps', mt)
        if m:
            C.cb['steps'] += int(m.group(1))
        m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', mt)
        if m:
            C.cb['vccs'] += int(m.group(1))
        if 'result' in x:
            for p in x['result']:
                res['props'] += 1
                C.cb['props'] += 1
                if p['status'] == 'SUCCESS':
                    C.cb['proved'] += 1
                elif p['status'] == 'FAILURE':
                    res['failed'].append((p['property'], p.get('description', '')))
                    if not res['inputs']:
                        for s in p.get('trace', []):
                            if s.get('stepType') == 'assignment' and not s.get('hidden') and 'value' in s:
                                nm = s.get('lhs', '')
                                v = s['value']
                                if 'data' in v:
                                    res['inputs'][nm] = v['data']
                                    if 'binary' in v: res['bits'][nm] = v['binary']
        if 'cProverStatus' in x:
            res['result'] = {'success': 'proved', 'failure': 'failed'}.get(x['cProverStatus'], 'unknown')
    if res['result'] == 'unknown' and code not in (0, 10):
        res['result'] = 'error'
    return res


def cb(C, name, harness, units, replay, arrays=None, scalars=(), draw=None, what='all assertions', seconds=10, **kw):
    """CBMC on a harness over the real units; a counterexample (arrays of bytes, scalars) is replayed by replay(dict) -> None or text.
    Not decided (or not confirmed): native search with draw(rnd) -> dict"""
    kw.setdefault('timeout', 300 if THOROUGH else 120)
    r = cbmc(C, re.sub(r'\W+', '_', name), harness, units, **kw)
    if r['result'] == 'proved':
        C.ob(name, 'proved', '%s, %d properties, %.1f s' % (what, r['props'], r['time']))
        env = None
    else:
        C.ob(name, 'undecided', '%s %s' % (r['result'], r['failed'][:3] or (r['code'] if r['result'] != 'error' else r['out'][-300:])))
        env = {}
        for a, n in (arrays or {}).items():
            v = []
            for i in range(n):
                b = r['bits'].get('%s[%dl]' % (a, i), r['bits'].get('%s[%d]' % (a, i)))
                v.append(int(b, 2) & 255 if b else 0)
            env[a] = bytes(v)
        for a in scalars:
            b = r['bits'].get(a)
            env[a] = (int(b, 2) - ((1 << len(b)) if b[0] == '1' else 0)) if b else 0
    n = 0
    t = time.time() + (seconds if env is not None else 1.5)
    k = 4000000 if env is not None else 200
    while n < k and time.time() < t and not C.viol:
        e = env if env and n == 0 and r['result'] == 'failed' else draw(C.rnd) if draw else None
        n += 1
        if e is None: break
        w = replay(e)
        C.validated += 1
        if w: C.violation(name, 'replayed: ' + w, {a: repr(v) for a, v in e.items()})
    return r


def run_main(pid, fn):
    C = Check(pid)
    try:
        fn(C)
    except build.BuildError as e:
        print('BUILD ERROR\n%s' % e)
        C.ob('build', 'undecided', str(e)[:500])
        C.finish()
        return 2
    except Exception as e:
        traceback.print_exc()
        C.ob('engine', 'undecided', repr(e))
    return C.finish()
