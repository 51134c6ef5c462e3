"""Solver side: Node/Cond -> z3, axioms for function atoms, satisfiability with statistics."""
import time
from fractions import Fraction as Fr
import z3
import sym
from sym import isn, Cond

PI_LO = Fr(3141592653589793, 10**15)
PI_HI = Fr(3141592653589794, 10**15)


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.sat = 0
        self.unsat = 0


ST = Stats()


def q(c):
    c = Fr(c)
    return z3.Q(c.numerator, c.denominator)


class Conv:
    def __init__(self):
        self.e = {}       # node id -> z3 expr
        self.ax = {}      # node id -> list of axioms introduced by it
        self.deps = {}    # node id -> set of node ids below that carry axioms

    def node(self, x):
        if not isn(x):
            return q(sym.fr(x))
        st = [x]
        while st:
            n = st[-1]
            if n.id in self.e:
                st.pop()
                continue
            if n.k == 'var':
                ch = []
            elif n.k in ('lin',):
                ch = [t for t, _ in n.a[1]]
            elif n.k == 'prod':
                ch = [t for t, _ in n.a]
            else:
                ch = [t for t in n.a[1] if isn(t)]
            miss = [t for t in ch if t.id not in self.e]
            if miss:
                st.extend(miss)
                continue
            self._mk(n, ch)
            st.pop()
        return self.e[x.id]

    def _mk(self, n, ch):
        deps = set()
        for t in ch:
            deps |= self.deps[t.id]
        ax = []
        if n.k == 'var':
            v = z3.ToReal(z3.Int(n.a)) if n.isint else z3.Real(n.a)
            if n.lo > -sym.INF:
                ax.append(v >= q(Fr(n.lo)))
            if n.hi < sym.INF:
                ax.append(v <= q(Fr(n.hi)))
        elif n.k == 'lin':
            terms = [q(k) * self.e[t.id] if k != 1 else self.e[t.id] for t, k in n.a[1]]
            if n.a[0]:
                terms.append(q(n.a[0]))
            v = z3.Sum(terms) if len(terms) > 1 else terms[0]
        elif n.k == 'prod':
            fs = []
            for t, p in n.a:
                b = self.e[t.id]
                if p < 0:
                    iv = z3.Real('inv%d' % t.id)
                    ax.append(iv * b == 1)
                    b = iv
                    p = -p
                fs.extend([b] * p)
            v = z3.Product(fs) if len(fs) > 1 else fs[0]
        else:
            v, ax = self._fn(n)
        self.e[n.id] = v
        self.ax[n.id] = ax
        if ax:
            deps = deps | {n.id}
        self.deps[n.id] = deps

    def _fn(self, n):
        name, args = n.a
        ax = []
        za = [self.node(a) for a in args]
        if name == 'floor':
            i = z3.Int('fl%d' % n.id)
            v = z3.ToReal(i)
            ax += [v <= za[0], za[0] < v + 1]
            return v, ax
        v = z3.Real('%s_%d' % (name, n.id))
        if n.lo > -sym.INF:
            ax.append(v >= q(Fr(n.lo)))
        if n.hi < sym.INF:
            ax.append(v <= q(Fr(n.hi)))
        if name in ('sin', 'cos'):
            o = sym.S.table.get(('fn', 'cos' if name == 'sin' else 'sin', (args[0].id,)))
            if o is None:
                o = sym._cos0(args[0]) if name == 'sin' else sym._sin0(args[0])
            if isn(o) and o.k == 'fn' and o.a[0] in ('sin', 'cos'):
                w = z3.Real('%s_%d' % (o.a[0], o.id))
                ax.append(v * v + w * w == 1)
                if o.lo > -1:
                    ax.append(w >= q(Fr(o.lo)))
                if o.hi < 1:
                    ax.append(w <= q(Fr(o.hi)))
            a = args[0]
            if name == 'sin' and a.lo > -4 and a.hi < 4:
                # sign in (-pi, pi)
                ax += [z3.Implies(z3.And(za[0] > 0, za[0] < q(PI_LO)), v > 0), z3.Implies(z3.And(za[0] < 0, za[0] > -q(PI_LO)), v < 0),
                       z3.Implies(za[0] == 0, v == 0)]
            if name == 'cos' and a.lo > -4 and a.hi < 4:
                ax += [z3.Implies(z3.And(za[0] < q(PI_LO / 2), za[0] > -q(PI_LO / 2)), v > 0), z3.Implies(za[0] == 0, v == 1)]
        elif name == 'sqrt':
            ax += [v >= 0, v * v == za[0]]
        elif name in ('asin', 'atan'):
            ax += [z3.Implies(za[0] > 0, v > 0), z3.Implies(za[0] < 0, v < 0), z3.Implies(za[0] == 0, v == 0)]
        elif name == 'acos':
            ax += [z3.Implies(za[0] > 0, v < q(PI_HI / 2)), z3.Implies(za[0] < 0, v > q(PI_LO / 2))]
        elif name == 'atan2':
            y, x = za
            ax += [z3.Implies(y > 0, z3.And(v > 0, v <= q(PI_LO))), z3.Implies(y < 0, z3.And(v < 0, v >= -q(PI_LO))),
                   z3.Implies(z3.And(y == 0, x >= 0), v == 0),
                   z3.Implies(z3.And(y == 0, x < 0), z3.And(v >= q(PI_LO), v <= q(PI_HI))),
                   z3.Implies(x > 0, z3.And(v < q(PI_HI / 2), v > -q(PI_HI / 2))),
                   z3.Implies(z3.And(x < 0, y > 0), v > q(PI_LO / 2)), z3.Implies(z3.And(x < 0, y < 0), v < -q(PI_LO / 2)),
                   z3.Implies(z3.And(x == 0, y > 0), z3.And(v >= q(PI_LO / 2), v <= q(PI_HI / 2))),
                   z3.Implies(z3.And(x == 0, y < 0), z3.And(v <= -q(PI_LO / 2), v >= -q(PI_HI / 2)))]
        return v, ax

    def cond(self, c):
        if type(c) is bool:
            return z3.BoolVal(c)
        if c.op == 'and':
            return z3.And([self.cond(x) for x in c.a])
        if c.op == 'or':
            return z3.Or([self.cond(x) for x in c.a])
        e = self.node(c.a)
        return {'le': e <= 0, 'lt': e < 0, 'eq': e == 0, 'ne': e != 0}[c.op]

    def cdeps(self, c):
        if type(c) is bool:
            return set()
        if c.op in ('and', 'or'):
            r = set()
            for x in c.a:
                r |= self.cdeps(x)
            return r
        if not isn(c.a):
            return set()
        self.node(c.a)
        return self.deps[c.a.id] | ({c.a.id} if self.ax.get(c.a.id) else set())


CV = Conv()


def reset():
    global CV
    CV = Conv()


def _vars(c, memo={}):
    if type(c) is bool:
        return frozenset()
    if c.op in ('and', 'or'):
        r = set()
        for x in c.a:
            r |= _vars(x)
        return r
    return {v.id for v in sym.subst_vars(c.a)}


def relevant(pc, goal):
    """conditions of pc connected to goal through shared variables"""
    gv = set(_vars(goal))
    rest = [(c, _vars(c)) for c in pc]
    out = []
    ch = True
    while ch and rest:
        ch = False
        nr = []
        for c, vs in rest:
            if vs & gv or not vs:
                out.append(c)
                if not vs <= gv:
                    gv |= vs
                    ch = True
            else:
                nr.append((c, vs))
        rest = nr
    return out


def is_linear(n, memo):
    if not isn(n):
        return True
    r = memo.get(n.id)
    if r is None:
        if n.k == 'prod':
            r = False
        elif n.k == 'lin':
            r = all(is_linear(t, memo) for t, _ in n.a[1])
        elif n.k == 'fn':
            r = n.a[0] == 'floor' and is_linear(n.a[1][0], memo)
        else:
            r = True
        memo[n.id] = r
    return r


def mono_axioms(ids):
    """monotonicity between pairs of applications of the same monotone function"""
    by = {}
    for i in ids:
        n = sym.S.nodes[i]
        if n.k == 'fn' and n.a[0] in ('asin', 'acos', 'atan', 'sqrt'):
            by.setdefault(n.a[0], []).append(n)
    out = []
    for name, l in by.items():
        l = sorted(l, key=lambda n: n.id)[:8]
        for i in range(len(l)):
            for j in range(i):
                a, b = l[i], l[j]
                x, y = CV.node(a.a[1][0]), CV.node(b.a[1][0])
                u, v = CV.e[a.id], CV.e[b.id]
                if name == 'acos':
                    u, v = v, u
                out.append((x < y) == (u < v))
                out.append((x > y) == (u > v))
    return out


TRIG_LIMIT = 7


def trig_axioms(ids):
    """angle-addition, double-angle and product identities between the sin/cos atoms present in a query"""
    args = {}
    for i in ids:
        n = sym.S.nodes[i]
        if n.k == 'fn' and n.a[0] in ('sin', 'cos') and isn(n.a[1][0]):
            args[n.a[1][0].id] = n.a[1][0]
    if len(args) < 2 or len(args) > TRIG_LIMIT:
        return []
    L = sorted(args.values(), key=lambda n: n.id)
    out = []
    new = set()

    def z(n):
        if isn(n):
            e = CV.node(n)
            new.update(CV.deps[n.id])
            if CV.ax.get(n.id):
                new.add(n.id)
            return e
        return q(sym.fr(n))

    def S(x): return z(sym.fsin(x))

    def C(x): return z(sym.fcos(x))

    def present(x):
        if not isn(x):
            return False
        y = sym._angle_canon(x)[2]
        return isn(y) and y.id in args

    for x in L:
        d = sym.scale(x, 2)
        if present(d):
            out.append(S(d) == 2 * S(x) * C(x))
            out.append(C(d) == 1 - 2 * S(x) * S(x))
    for i in range(len(L)):
        for j in range(i):
            x, y = L[i], L[j]
            for sg, w in ((1, sym.add(x, y)), (-1, sym.sub(x, y))):
                if present(w):
                    out.append(S(w) == S(x) * C(y) + sg * C(x) * S(y))
                    out.append(C(w) == C(x) * C(y) - sg * S(x) * S(y))
            m, n = sym.scale(sym.sub(x, y), 0.5), sym.scale(sym.add(x, y), 0.5)
            if present(m) or present(n):
                cm, sm, cn, sn = C(m), S(m), C(n), S(n)
                out.append(C(x) * C(y) == cm * cm - sn * sn)
                out.append(S(x) * S(y) == cm * cm - cn * cn)
    for i in sorted(new - set(ids)):
        out.extend(CV.ax[i])
    return out


def check(conds, timeout=3000, want_model=False, slice_goal=None, mono=False, extra=None):
    """satisfiability of a conjunction; returns ('sat'|'unsat'|'unknown', model-env)"""
    cs = []
    for c in conds:
        if c is True:
            continue
        if c is False:
            return 'unsat', None
        cs.append(c)
    if slice_goal is not None:
        cs = relevant(cs, slice_goal) + [slice_goal]
    zc = [CV.cond(c) for c in cs]
    ids = set()
    for c in cs:
        ids |= CV.cdeps(c)
    s = z3.Solver()
    s.set('timeout', timeout)
    for c in zc:
        s.add(c)
    for i in sorted(ids):
        for a in CV.ax[i]:
            s.add(a)
    for a in trig_axioms(ids):
        s.add(a)
    if mono:
        for a in mono_axioms(ids):
            s.add(a)
    if extra:
        for a in extra:
            s.add(a)
    t = time.time()
    r = str(s.check())
    ST.time += time.time() - t
    ST.queries += 1
    if r == 'sat':
        ST.sat += 1
    elif r == 'unsat':
        ST.unsat += 1
    else:
        ST.unknown += 1
        r = 'unknown'
    env = None
    if want_model and r == 'sat':
        env = model_env(s.model())
    return r, env


def model_env(m):
    env = {}
    for d in m.decls():
        v = m[d]
        try:
            if z3.is_int_value(v):
                env[d.name()] = v.as_long()
            elif z3.is_rational_value(v):
                env[d.name()] = float(Fr(v.numerator_as_long(), v.denominator_as_long()))
            elif z3.is_algebraic_value(v):
                a = v.approx(20)
                env[d.name()] = float(Fr(a.numerator_as_long(), a.denominator_as_long()))
        except Exception:
            pass
    return env
