"""Runtime for the compiled IR: memory, integer/float operations, branching (replay-based path exploration),
libc models."""
import math
import re
import struct
import sys
import time
from fractions import Fraction as Fr

import sym
import zs
from llir import Compiler, Unsupported, wrap, ity
from sym import isn, Node, Cond

sys.setrecursionlimit(20000)


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Hazard(Exception):
    def __init__(self, kind, detail=''):
        Exception.__init__(self, kind + ': ' + detail)
        self.kind = kind
        self.detail = detail


class PathEnd(Exception):
    def __init__(self, why, code=None):
        Exception.__init__(self, why)
        self.why = why
        self.code = code


class Infeasible(Exception):
    pass


class Obj:
    __slots__ = ('name', 'size', 'c', 'u', 'zero', 'freed', 'ro')

    def __init__(self, name, size, zero=False):
        self.name = name
        self.size = size
        self.c = {}
        self.u = None        # uniform cell size or 0 when mixed
        self.zero = zero
        self.freed = False
        self.ro = False


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return '&%s+%s' % (self.o.name, self.off)


NULL = 0


class Mark:
    """a number written in a text buffer whose digits are not modelled (its value is)"""
    __slots__ = ('node', 'w', 'fmt', 'neg')

    def __init__(self, node, w=1, fmt=None, neg=False):
        self.node = node
        self.w = w
        self.fmt = fmt
        self.neg = neg

    def __repr__(self):
        return '<%s>' % (self.node,)


class Sel:
    """element of a constant table at a symbolic offset, decided by value class rather than by offset"""
    def __init__(self, off, tab):
        self.off = off
        self.tab = tab

    def ext(self, f):
        return Sel(self.off, {k: f(v) for k, v in self.tab.items()})

    def mask(self, rt, m, w):
        groups = {}
        run = None
        for k in sorted(self.tab):
            if isn(self.off) and (k < self.off.lo or k > self.off.hi):
                continue
            v = wrap(self.tab[k] & m & ((1 << w) - 1), w)
            if run is not None and run[0] == v:
                run[1][1] = k
            else:
                run = (v, [k, k])
                groups.setdefault(v, []).append(run[1])
        order = sorted(groups, key=lambda v: len(groups[v]))
        for v in order[:-1]:
            c = False
            for lo, hi in groups[v]:
                e = sym.eq(self.off, lo) if lo == hi else sym.cand(sym.ge(self.off, lo), sym.le(self.off, hi))
                c = sym.cor(c, e)
            if rt.branch(c):
                return v
        return order[-1]


class Cont:
    def __repr__(self):
        return '~'


CONT = Cont()


class PathResult:
    __slots__ = ('pc', 'out', 'err', 'ret', 'exit', 'hazard', 'notes', 'data', 'decisions', 'events', 'steps')


class RT:
    def __init__(self, mod, mode=sym.REAL):
        self.mod = mod
        self.mode = mode
        self.comp = Compiler(mod)
        self.fns = {}
        self.stubs = {}
        self.encoded = {}
        self.gproto = {}
        self.max_steps = 3000000
        self.max_decisions = 4000
        self.branch_timeout = 1500
        self.qcache = {}
        self.incomplete = []
        self.npaths = 0
        self.ninfeasible = 0
        self.nunsupported = []
        self.overflow_hazards = True
        self.reset_path([])

    # ------------------------------------------------------------ path state
    def reset_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pc = []
        self.pcset = {}
        self.pending = []
        self.out = []
        self.err = []
        self.globs = {}
        self.steps = self.max_steps
        self.nobj = 0
        self.errn = 0
        self.files = {}
        self.notes = []
        self.data = {}
        self.events = []
        self.depth = 0
        self.strtok_pos = None

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self._push(c)

    def _push(self, c):
        self.pc.append(c)
        if c.op in ('and', 'or'):
            if c.op == 'and':
                for x in c.a:
                    if type(x) is not bool and x.op not in ('and', 'or'):
                        self.pcset[(x.op, x.a.id)] = True
            return
        self.pcset[(c.op, c.a.id)] = True
        self._pcset_add(c.op, c.a)

    def _pcset_add(self, op, n):
        s = self.pcset
        m = sym.scale(n, -1)
        if op == 'lt':
            s[('le', n.id)] = True; s[('ne', n.id)] = True; s[('eq', n.id)] = False
            s[('lt', m.id)] = False; s[('le', m.id)] = False; s[('ne', m.id)] = True; s[('eq', m.id)] = False
        elif op == 'le':
            s[('lt', m.id)] = False
        elif op == 'eq':
            s[('ne', n.id)] = False; s[('le', n.id)] = True; s[('lt', n.id)] = False
            s[('le', m.id)] = True; s[('lt', m.id)] = False; s[('eq', m.id)] = True; s[('ne', m.id)] = False
        elif op == 'ne':
            s[('eq', n.id)] = False; s[('eq', m.id)] = False; s[('ne', m.id)] = True

    def known(self, c):
        if c.op == 'and':
            r = True
            for x in c.a:
                k = x if type(x) is bool else self.known(x)
                if k is False:
                    return False
                if k is None:
                    r = None
            return r
        if c.op == 'or':
            r = False
            for x in c.a:
                k = x if type(x) is bool else self.known(x)
                if k is True:
                    return True
                if k is None:
                    r = None
            return r
        return self.pcset.get((c.op, c.a.id))

    def branch(self, c):
        """decide a symbolic condition (forking the exploration when both outcomes are possible)"""
        if type(c) is bool:
            return c
        if c is UNDEF:
            raise Hazard('uninit', 'branch on an uninitialised value')
        if type(c) is not Cond:
            return bool(c)
        k = self.known(c)
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            if len(self.decisions) >= self.max_decisions:
                raise Hazard('unwind', 'more than %d symbolic decisions' % self.max_decisions)
            nc = sym.neg(c)
            ft = self.feasible(c)
            ff = self.feasible(nc) if ft else True
            if ft and ff:
                self.pending.append(self.decisions + [False])
                d = True
            elif ft:
                d = True
            else:
                d = False
            self.pos += 1
        self.decisions.append(d)
        self._push(c if d else sym.neg(c))
        return d

    def feasible(self, c):
        key = (tuple((x.op, x.a.id if isn(x.a) else repr(x)) for x in self.pc), (c.op, c.a.id if isn(c.a) else repr(c)))
        r = self.qcache.get(key)
        if r is None:
            r, _ = zs.check(self.pc, timeout=self.branch_timeout, slice_goal=c)
            self.qcache[key] = r
        return r != 'unsat'

    def must(self, c):
        """is c implied by the path condition? (True only when the solver says so)"""
        if type(c) is bool:
            return c
        k = self.known(c)
        if k is not None:
            return k
        return not self.feasible(sym.neg(c))

    def concretize(self, x, limit=300):
        """enumerate the values of an integer node by forking"""
        if not isn(x):
            return x
        if x.lo > -1e9 and x.hi < 1e9 and x.hi - x.lo <= limit:
            vals = range(int(x.lo), int(x.hi) + 1)
            for v in vals:
                if self.branch(sym.eq(x, v)):
                    return v
            raise Infeasible()
        for _ in range(limit):
            # prefix-driven: values are found through the solver
            r, env = zs.check(self.pc, timeout=5000, want_model=True)
            if r != 'sat':
                raise Unsupported('cannot concretise %r' % x)
            v = int(round(sym.evalf(x, env)))
            if self.branch(sym.eq(x, v)):
                return v
        raise Unsupported('too many values for %r' % x)

    # ------------------------------------------------------------ execution
    def enter(self, name):
        self.depth += 1
        if self.depth > 200:
            raise Hazard('stack', 'recursion depth')

    def leave(self, allocas):
        self.depth -= 1
        for o in allocas:
            o.freed = True

    def out_of_steps(self, fn):
        raise Hazard('steps', 'no termination within %d IR blocks/instructions (in %s)' % (self.max_steps, fn))

    def unreachable(self, fn):
        raise Hazard('unreachable', fn)

    def getfn(self, name):
        f = self.fns.get(name)
        if f is None:
            fn = self.mod.funcs[name]
            text, consts = self.comp.compile(fn)
            g = {'rt': self, 'K': consts, 'UNDEF': UNDEF, 'NULL': NULL}
            exec(compile(text, '<ir:%s>' % name, 'exec'), g)
            f = self.fns[name] = g['F']
            self.encoded[name] = (fn.nblocks, fn.ninstr)
        return f

    def call(self, name, args):
        s = self.stubs.get(name)
        if s is not None:
            return s(self, *args)
        if name in self.mod.funcs:
            return self.getfn(name)(*args)
        m = LIBC.get(name)
        if m is None:
            if name.startswith('llvm.'):
                for pre, f in INTRIN:
                    if name.startswith(pre):
                        return f(self, *args)
            raise Unsupported('external function ' + name)
        return m(self, *args)

    def callptr(self, p, args):
        if isinstance(p, Ptr) and p.o.name.startswith('fn:'):
            return self.call(p.o.name[3:], args)
        raise Unsupported('indirect call')

    def explore(self, entry, max_paths=2000, time_limit=600, on_path=None):
        """run entry() over all feasible paths; returns list of PathResult"""
        work = [[]]
        res = []
        t0 = time.time()
        while work:
            if len(res) >= max_paths or time.time() - t0 > time_limit:
                self.incomplete.append('%d pending paths not explored' % len(work))
                break
            prefix = work.pop()
            self.reset_path(prefix)
            r = PathResult()
            r.ret = r.exit = r.hazard = None
            try:
                r.ret = entry()
            except Infeasible:
                self.ninfeasible += 1
                work.extend(self.pending)
                continue
            except PathEnd as e:
                r.exit = e.code
            except Hazard as e:
                r.hazard = e
            except Unsupported as e:
                self.nunsupported.append(str(e))
                work.extend(self.pending)
                continue
            except ArithmeticError as e:
                self.nunsupported.append('arithmetic: ' + str(e))
                work.extend(self.pending)
                continue
            r.pc = self.pc
            r.out = self.out
            r.err = self.err
            r.notes = self.notes
            r.data = self.data
            r.events = self.events
            r.decisions = self.decisions
            r.steps = self.max_steps - self.steps
            work.extend(self.pending)
            self.npaths += 1
            if on_path is not None:
                on_path(r)
            res.append(r)
        return res

    # ------------------------------------------------------------ memory
    def new(self, name, size, zero=False):
        self.nobj += 1
        return Obj(name, size, zero)

    def alloca(self, size, n, name, allocas):
        if isn(n):
            n = self.concretize(n)
        o = self.new(name, size * n)
        allocas.append(o)
        return Ptr(o, 0)

    def byval_copy(self, p, size):
        o = self.new('byval', size)
        self.memcpy(Ptr(o, 0), p, size)
        return Ptr(o, 0)

    def gptr(self, name, off):
        o = self.globs.get(name)
        if o is None:
            g = self.mod.globals.get(name)
            if g is None:
                if name in self.mod.funcs or name in self.mod.decls:
                    o = self.globs[name] = Obj('fn:' + name, 1)
                    return Ptr(o, off)
                raise Unsupported('global ' + name)
            ty, init, isconst = g
            if init is None:
                o = self.ext_global(name, ty)
            else:
                key = name
                pr = self.gproto.get(key)
                if pr is None:
                    self.mod.layout(ty)
                    pr = Obj(name, ty.size, True)
                    self._init(pr, 0, ty, init)
                    pr.ro = isconst
                    self.gproto[key] = pr
                o = Obj(name, pr.size, True)
                o.c = dict(pr.c) if not pr.ro else pr.c
                o.u = pr.u
                o.ro = pr.ro
                # pointer initialisers refer to globals by name: resolve now
                for k2, (s2, v2) in list(o.c.items()):
                    if type(v2) is tuple and v2[0] == 'g':
                        if o.c is pr.c:
                            o.c = dict(pr.c)
                        o.c[k2] = (s2, self.gptr(v2[1], v2[2]))
            self.globs[name] = o
        return Ptr(o, off)

    def ext_global(self, name, ty):
        o = Obj(name, 8, False)
        o.c[0] = (8, Ptr(Obj('FILE:' + name, 8), 0))
        o.u = 8
        return o

    def _init(self, o, off, ty, init):
        if ty.k in ('int', 'double', 'float', 'ptr'):
            if type(init) is tuple and init[0] in ('zero', 'undef'):
                return
            self._put(o, off, ty.size, init)
            return
        if type(init) is tuple and init[0] in ('zero', 'undef'):
            return
        if init[0] == 'str':
            for i, b in enumerate(init[1]):
                self._put(o, off + i, 1, wrap(b, 8))
            return
        if init[0] == 'agg':
            if ty.k == 'arr':
                for i, (t, c) in enumerate(init[1]):
                    self._init(o, off + i * ty.sub.size, ty.sub, c)
            else:
                self.mod.layout(ty)
                for i, (t, c) in enumerate(init[1]):
                    self._init(o, off + ty.offs[i], t, c)
            return
        raise Unsupported('initialiser')

    def _put(self, o, off, size, v):
        c = o.c
        old = c.get(off)
        if old is not None and old[0] == size:
            c[off] = (size, v)
            return
        if o.u is None:
            o.u = size
        if o.u != size or off % size:
            o.u = 0
            self._clear(o, off, size)
        c[off] = (size, v)

    def _clear(self, o, off, size):
        """remove cells overlapping [off, off+size), keeping bytes outside"""
        c = o.c
        for k in range(off - 15, off + size):
            x = c.get(k)
            if x is not None and k + x[0] > off:
                s, v = x
                del c[k]
                if k < off or k + s > off + size:
                    for i in range(s):
                        if not off <= k + i < off + size:
                            c[k + i] = (1, self._byte(v, s, i))

    def _byte(self, v, s, i):
        if type(v) is int:
            return wrap(v >> (8 * i), 8)
        if type(v) is bool:
            return int(v) if i == 0 else 0
        if type(v) is float:
            b = struct.pack('<d', v) if s == 8 else struct.pack('<f', v)
            return wrap(b[i], 8)
        if v is UNDEF:
            return UNDEF
        if isn(v) and v.isint and v.lo >= 0:
            q = sym.ffloor(sym.div(v, float(1 << (8 * i)))) if i else v
            r = sym.sub(q, sym.scale(sym.ffloor(sym.div(q, 256.0)), 256))
            return r
        return ('part', v, s, i)

    def chk(self, p, size, what):
        if type(p) is not Ptr:
            if p is UNDEF:
                raise Hazard('uninit', 'uninitialised pointer')
            if p == 0:
                raise Hazard('null', 'null pointer ' + what)
            raise Hazard('oob', 'wild pointer %r' % (p,))
        off = p.off
        if isn(off):
            off = self.concretize_off(p)
        o = p.o
        if o.freed:
            raise Hazard('uaf', '%s of dead object %s' % (what, o.name))
        if off < 0 or off + size > o.size:
            raise Hazard('oob', '%s of %d bytes at offset %d of %s (size %d)' % (what, size, off, o.name, o.size))
        return o, off

    def concretize_off(self, p):
        x = p.off
        if isn(x):
            # out-of-range possible?
            bad = sym.cor(sym.lt(x, 0), sym.ge(x, p.o.size))
            if bad is True or (bad is not False and self.branch(bad)):
                raise Hazard('oob', 'symbolic offset outside %s (size %d)' % (p.o.name, p.o.size))
            return self.concretize(x)
        return x

    def load(self, p, size, t):
        if type(p) is Ptr and type(p.off) is int and not p.o.freed:
            c = p.o.c.get(p.off)
            if c is not None and c[0] == size:
                v = c[1]
                if t == 'd':
                    if type(v) is float or (type(v) is Node):
                        return v
                    return self.conv_load(v, size, t)
                if t == 'i1' or t == 'p' or type(v) is Node:
                    return self.conv_load(v, size, t) if t != 'p' else v
                if type(v) is int:
                    return v
                return self.conv_load(v, size, t)
        if type(p) is Ptr and p.o is self.globs.get('!ctype') and isn(p.off) and size == 2:
            x = p.off
            bad = sym.cor(sym.lt(x, 0), sym.ge(x, p.o.size))
            if bad is True or (bad is not False and self.branch(bad)):
                raise Hazard('oob', 'character class of a value outside the table')
            return Sel(x, {k: v[1] for k, v in p.o.c.items()})
        o, off = self.chk(p, size, 'read')
        c = o.c.get(off)
        if c is not None and c[0] == size:
            return self.conv_load(c[1], size, t)
        # compose from bytes
        bs = []
        un = False
        for i in range(size):
            b = self.getbyte(o, off + i)
            if b is UNDEF:
                un = True
            bs.append(b)
        if un:
            return UNDEF
        if all(type(b) is int for b in bs):
            raw = bytes(b & 255 for b in bs)
            if t == 'd':
                return struct.unpack('<d', raw)[0]
            if t == 'f':
                return struct.unpack('<f', raw)[0]
            v = wrap(int.from_bytes(raw, 'little'), 8 * size)
            if t == 'i1':
                return bool(v & 1)
            return v
        if type(bs[0]) is tuple and bs[0][0] == 'part' and bs[0][2] == size and all(type(b) is tuple and b[1] is bs[0][1] and b[3] == i for i, b in enumerate(bs)):
            return self.conv_load(bs[0][1], size, t)
        if t[0] == 'i' and all(type(b) is int or (isn(b) and b.isint) for b in bs):
            v = 0
            for i, b in enumerate(bs):
                if isn(b):
                    if b.lo < 0:
                        b = sym.add(b, 256) if self.branch(sym.lt(b, 0)) else b
                else:
                    b &= 255
                v = sym.add(v, sym.mul(b, 1 << (8 * i)))
            return v if isn(v) else wrap(v, 8 * size)
        raise Unsupported('load of %s from mixed bytes of %s' % (t, o.name))

    def getbyte(self, o, off):
        c = o.c
        x = c.get(off)
        if x is not None and x[0] == 1:
            return x[1]
        for k in range(off, off - 16, -1):
            x = c.get(k)
            if x is not None:
                if k + x[0] > off:
                    return self._byte(x[1], x[0], off - k)
                if k + x[0] <= off and x[0] >= 1:
                    # a cell ending before off may still be followed by a wider earlier one only if overlapping: not possible
                    break
        return 0 if o.zero else UNDEF

    def conv_load(self, v, size, t):
        if t == 'd':
            if type(v) is int:
                return struct.unpack('<d', struct.pack('<q', v))[0]
            return v
        if t == 'f':
            if type(v) is int:
                return struct.unpack('<f', struct.pack('<i', v))[0]
            return v
        if t == 'i1':
            if type(v) is int:
                return bool(v & 1)
            if isn(v):
                return sym.ne(v, 0)
            return v
        if t[0] == 'i':
            if type(v) is float:
                return struct.unpack('<q', struct.pack('<d', v))[0] if size == 8 else struct.unpack('<i', struct.pack('<f', v))[0]
            if type(v) is bool:
                return int(v)
            return v
        return v

    def store(self, p, size, v, t):
        if type(p) is Ptr and type(p.off) is int:
            o = p.o
            off = p.off
            if not o.freed and not o.ro:
                c = o.c.get(off)
                if c is not None and c[0] == size:
                    o.c[off] = (size, v)
                    return
        o, off = self.chk(p, size, 'write')
        if o.ro:
            raise Hazard('oob', 'write to constant ' + o.name)
        self._put(o, off, size, v)

    def gep(self, p, i, sz):
        if type(i) is int:
            return self.gepc(p, i * sz)
        if i is UNDEF:
            raise Hazard('uninit', 'uninitialised index')
        if type(p) is not Ptr:
            raise Hazard('null', 'indexing null')
        return Ptr(p.o, sym.add(p.off, sym.mul(i, sz)))

    def gepc(self, p, off):
        if type(p) is Ptr:
            o = p.off
            return Ptr(p.o, o + off if type(o) is int else sym.add(o, off))
        if p is UNDEF:
            raise Hazard('uninit', 'uninitialised pointer')
        return p + off

    def memcpy(self, d, s, n):
        if n == 0:
            return
        so, soff = self.chk(s, n, 'read')
        do, doff = self.chk(d, n, 'write')
        if so is do:
            items = [(k, x) for k, x in so.c.items() if soff <= k and k + x[0] <= soff + n]
        items = []
        covered = 0
        partial = False
        for k in sorted(so.c) if len(so.c) < 4 * n else range(soff, soff + n):
            x = so.c.get(k)
            if x is None:
                continue
            if k >= soff and k + x[0] <= soff + n:
                items.append((k - soff, x))
                covered += x[0]
            elif k < soff + n and k + x[0] > soff:
                partial = True
        for k in range(max(0, soff - 15), soff):
            x = so.c.get(k)
            if x is not None and k + x[0] > soff:
                partial = True
        if partial:
            bs = [self.getbyte(so, soff + i) for i in range(n)]
            self._clear(do, doff, n)
            do.u = 0
            for i, b in enumerate(bs):
                if b is not UNDEF:
                    do.c[doff + i] = (1, b)
            return
        self._clear(do, doff, n)
        if so.zero and not do.zero and covered < n:
            have = set()
            for k, x in items:
                have.update(range(k, k + x[0]))
            for i in range(n):
                if i not in have:
                    items.append((i, (1, 0)))
            do.u = 0
        elif do.zero and not so.zero and covered < n:
            have = set()
            for k, x in items:
                have.update(range(k, k + x[0]))
            for i in range(n):
                if i not in have:
                    items.append((i, (1, UNDEF)))
            do.u = 0
        for k, x in items:
            do.c[doff + k] = x
        if do.u is None and items:
            do.u = 0
        elif do.u:
            do.u = 0

    def insval(self, a, b, i, n):
        l = list(a) if isinstance(a, list) else [UNDEF] * n
        l[i] = b
        return l

    # ------------------------------------------------------------ integers
    def fit(self, r, w, fl, opname):
        """bring the exact integer r into the signed w-bit range"""
        if type(r) is int:
            h = 1 << (w - 1)
            if -h <= r < h:
                return r
            return wrap(r, w)
        if not isn(r):
            return r
        h = 1 << (w - 1)
        if r.lo >= -h and r.hi <= h - 1:
            return r
        inr = sym.cand(sym.ge(r, -h), sym.le(r, h - 1))
        if inr is True or self.must(inr):
            return r
        if fl & 1:
            if self.branch(inr):
                return r
            if self.overflow_hazards:
                raise Hazard('int-overflow', 'signed overflow in ' + opname)
        qn = sym.ffloor(sym.div(sym.add(r, h), float(1 << w)))
        return sym.sub(r, sym.scale(qn, 1 << w)) if isn(qn) else sym.sub(r, qn << w)

    def _ck(self, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is Mark or type(b) is Mark or a is CONT or b is CONT:
            raise Unsupported('arithmetic on unmodelled digits')
        if type(a) is tuple or type(b) is tuple:
            raise Unsupported('arithmetic on partial value')
        return None

    def i_add(self, a, b, w, fl):
        if type(a) is int and type(b) is int:
            r = a + b
            h = 1 << (w - 1)
            return r if -h <= r < h else wrap(r, w)
        if self._ck(a, b) is UNDEF: return UNDEF
        if type(a) is Ptr or type(b) is Ptr:
            p, i = (a, b) if type(a) is Ptr else (b, a)
            return self.gep(p, i, 1)
        return self.fit(sym.add(a, b), w, fl, 'add')

    def i_sub(self, a, b, w, fl):
        if type(a) is int and type(b) is int:
            r = a - b
            h = 1 << (w - 1)
            return r if -h <= r < h else wrap(r, w)
        if self._ck(a, b) is UNDEF: return UNDEF
        if type(a) is Ptr and type(b) is Ptr:
            if a.o is not b.o:
                raise Unsupported('pointer difference between objects')
            return sym.sub(a.off, b.off)
        if type(a) is Ptr:
            return self.gep(a, sym.scale(b, -1) if isn(b) else -b, 1)
        return self.fit(sym.sub(a, b), w, fl, 'sub')

    def i_mul(self, a, b, w, fl):
        if type(a) is int and type(b) is int:
            r = a * b
            h = 1 << (w - 1)
            return r if -h <= r < h else wrap(r, w)
        if self._ck(a, b) is UNDEF: return UNDEF
        return self.fit(sym.mul(a, b), w, fl, 'mul')

    def uns(self, a, w):
        if type(a) is int:
            return a & ((1 << w) - 1)
        if isn(a):
            if a.lo >= 0:
                return a
            if self.branch(sym.lt(a, 0)):
                return sym.add(a, 1 << w)
        return a

    def i_sdiv(self, a, b, w, fl):
        if self._ck(a, b) is UNDEF: return UNDEF
        if type(a) is Ptr or type(b) is Ptr: raise Unsupported('ptr div')
        if isn(b):
            b = self.concretize(b)
        if b == 0:
            raise Hazard('divzero', 'integer division by zero')
        if type(a) is int:
            q = abs(a) // abs(b)
            return self.fit(q if (a < 0) == (b < 0) else -q, w, 0, 'sdiv')
        sg = 1
        if b < 0:
            b = -b
            sg = -1
        if b == 1:
            return self.fit(sym.scale(a, sg), w, 1, 'sdiv')
        if a.lo >= 0 or self.branch(sym.ge(a, 0)):
            q = sym.ffloor(sym.div(a, float(b)) if b < 2**53 else sym.scale(a, Fr(1, b)))
        else:
            q = sym.ffloor(sym.scale(a, Fr(-1, b)))
            q = sym.scale(q, -1) if isn(q) else -q
        if sg < 0:
            q = sym.scale(q, -1) if isn(q) else -q
        return q

    def i_udiv(self, a, b, w, fl):
        if self._ck(a, b) is UNDEF: return UNDEF
        a, b = self.uns(a, w), self.uns(b, w)
        if isn(b): b = self.concretize(b)
        if b == 0: raise Hazard('divzero', 'integer division by zero')
        if type(a) is int:
            return wrap(a // b, w)
        return self.fit(sym.ffloor(sym.scale(a, Fr(1, b))), w, 0, 'udiv')

    def i_srem(self, a, b, w, fl):
        if self._ck(a, b) is UNDEF: return UNDEF
        if isn(b): b = self.concretize(b)
        if type(a) is int:
            if b == 0: raise Hazard('divzero', 'integer division by zero')
            r = abs(a) % abs(b)
            return -r if a < 0 else r
        q = self.i_sdiv(a, b, w, fl)
        return sym.sub(a, sym.mul(q, b))

    def i_urem(self, a, b, w, fl):
        if self._ck(a, b) is UNDEF: return UNDEF
        a, b = self.uns(a, w), self.uns(b, w)
        if isn(b): b = self.concretize(b)
        if b == 0: raise Hazard('divzero', 'integer division by zero')
        if type(a) is int:
            return wrap(a % b, w)
        q = sym.ffloor(sym.scale(a, Fr(1, b)))
        return self.fit(sym.sub(a, sym.mul(q, b)), w, 0, 'urem')

    def i_shl(self, a, b, w, fl):
        if self._ck(a, b) is UNDEF: return UNDEF
        if isn(b): b = self.concretize(b)
        if type(a) is int:
            return wrap(a << b, w)
        return self.fit(sym.mul(a, 1 << b), w, fl, 'shl')

    def i_ashr(self, a, b, w, fl):
        if self._ck(a, b) is UNDEF: return UNDEF
        if isn(b): b = self.concretize(b)
        if type(a) is int:
            return a >> b
        return sym.ffloor(sym.scale(a, Fr(1, 1 << b)))

    def i_lshr(self, a, b, w, fl):
        if self._ck(a, b) is UNDEF: return UNDEF
        if isn(b): b = self.concretize(b)
        a = self.uns(a, w)
        if type(a) is int:
            return wrap(a >> b, w)
        return self.fit(sym.ffloor(sym.scale(a, Fr(1, 1 << b))), w, 0, 'lshr')

    def i_and(self, a, b, w, fl):
        if type(a) is int and type(b) is int:
            return a & b
        if self._ck(a, b) is UNDEF: return UNDEF
        if type(a) is int:
            a, b = b, a
        if type(b) is not int:
            raise Unsupported('symbolic & symbolic')
        if b == 0: return 0
        if type(a) is Sel:
            return a.mask(self, b, w)
        if b == -1: return a
        m = b & ((1 << w) - 1)
        # contiguous mask 2^k-1
        if m & (m + 1) == 0:
            k = m + 1
            if a.lo >= 0 and a.hi <= m:
                return a
            return sym.sub(a, sym.scale(sym.ffloor(sym.scale(a, Fr(1, k))), k))
        a = self.concretize(a)
        return wrap((a & m), w)

    def i_or(self, a, b, w, fl):
        if type(a) is int and type(b) is int:
            return a | b
        if self._ck(a, b) is UNDEF: return UNDEF
        if a == 0 and type(a) is int: return b
        if b == 0 and type(b) is int: return a
        a = self.concretize(a)
        b = self.concretize(b)
        return a | b

    def i_xor(self, a, b, w, fl):
        if type(a) is int and type(b) is int:
            return a ^ b
        if self._ck(a, b) is UNDEF: return UNDEF
        if type(a) is int: a, b = b, a
        if type(b) is int and b == -1:
            return sym.sub(-1, a)
        a = self.concretize(a)
        b = self.concretize(b)
        return a ^ b

    def b_and(self, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        return sym.cand(a, b)

    def b_or(self, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        return sym.cor(a, b)

    def b_xor(self, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if type(a) is bool and type(b) is bool: return a != b
        if type(a) is bool: a, b = b, a
        if type(b) is bool: return sym.neg(a) if b else a
        return sym.cxor(a, b)

    def b_add(self, a, b):
        return self.b_xor(a, b)

    def sext(self, a, w, w2):
        if type(a) is bool: return -1 if a else 0
        if type(a) is Cond: return -1 if self.branch(a) else 0
        return a

    def zext(self, a, w, w2):
        if type(a) is Sel:
            return a.ext(lambda v: v & ((1 << w) - 1))
        if type(a) is int:
            return a & ((1 << w) - 1)
        if type(a) is bool: return 1 if a else 0
        if type(a) is Cond: return 1 if self.branch(a) else 0
        if isn(a): return self.uns(a, w)
        if type(a) is Mark: return a
        return a

    def trunc(self, a, w, w2):
        if type(a) is int:
            return wrap(a, w2) if w2 > 1 else bool(a & 1)
        if isn(a):
            if w2 == 1:
                return sym.ne(self.i_and(a, 1, w, 0), 0)
            return self.fit(a, w2, 0, 'trunc')
        if type(a) is bool or type(a) is Cond:
            return a
        return a

    def _marked(self, op, a, b):
        """comparison of a text cell holding an unmodelled digit with a character"""
        if type(b) is Mark or b is CONT:
            a, b = b, a
        if type(b) is Mark or b is CONT:
            raise Unsupported('compare marks')
        if b is UNDEF: return UNDEF
        if isn(b): raise Unsupported('compare mark with symbolic char')
        ch = b & 255
        if op in ('eq', 'ne'):
            if ch in b'0123456789.+':
                if ch in b'.+' : pass
                else: raise Unsupported('digit of a symbolic number inspected')
            if ch == 45 and type(a) is Mark and a.neg:
                r = self.branch(sym.lt(a.node, 0))
            else:
                r = False
            return r if op == 'eq' else not r
        # ordering: digits are 48..57
        if ch < 45:
            return op in ('gt', 'ge', 'ugt', 'uge')
        if ch > 57 and ch < 128:
            return op in ('lt', 'le', 'ult', 'ule')
        raise Unsupported('digit of a symbolic number compared')

    def _c(self, op, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if type(a) is Mark or type(b) is Mark or a is CONT or b is CONT:
            return self._marked(op, a, b)
        if type(a) in (Cond, bool): a = self.zext(a, 1, 32)
        if type(b) in (Cond, bool): b = self.zext(b, 1, 32)
        if type(a) is Ptr or type(b) is Ptr:
            return self.pcmp(op, a, b)
        if type(a) is tuple or type(b) is tuple: raise Unsupported('partial value compared')
        return getattr(sym, op)(a, b)

    def c_eq(self, a, b, w):
        if type(a) is int and type(b) is int: return a == b
        if w == 1: return sym.neg(self.b_xor(a, b)) if (a is not UNDEF and b is not UNDEF) else UNDEF
        return self._c('eq', a, b)

    def c_ne(self, a, b, w):
        if type(a) is int and type(b) is int: return a != b
        if w == 1: return self.b_xor(a, b)
        return self._c('ne', a, b)

    def c_lt(self, a, b, w):
        if type(a) is int and type(b) is int: return a < b
        return self._c('lt', a, b)

    def c_le(self, a, b, w):
        if type(a) is int and type(b) is int: return a <= b
        return self._c('le', a, b)

    def c_gt(self, a, b, w):
        if type(a) is int and type(b) is int: return a > b
        return self._c('gt', a, b)

    def c_ge(self, a, b, w):
        if type(a) is int and type(b) is int: return a >= b
        return self._c('ge', a, b)

    def _u(self, op, a, b, w):
        if a is UNDEF or b is UNDEF: return UNDEF
        if type(a) is Mark or type(b) is Mark: return self._marked('u' + op, a, b)
        if type(a) is Ptr or type(b) is Ptr: return self.pcmp('u' + op, a, b)
        return getattr(sym, op)(self.uns(a, w), self.uns(b, w))

    def c_ult(self, a, b, w): return self._u('lt', a, b, w)
    def c_ule(self, a, b, w): return self._u('le', a, b, w)
    def c_ugt(self, a, b, w): return self._u('gt', a, b, w)
    def c_uge(self, a, b, w): return self._u('ge', a, b, w)

    def pcmp(self, op, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        pa, pb = type(a) is Ptr, type(b) is Ptr
        if pa and pb and a.o is b.o:
            op = {'ult': 'lt', 'ule': 'le', 'ugt': 'gt', 'uge': 'ge', 'slt': 'lt', 'sgt': 'gt', 'sle': 'le', 'sge': 'ge'}.get(op, op)
            return getattr(sym, op)(a.off, b.off)
        if op == 'eq': return (not pa and not pb and a == b)
        if op == 'ne': return not (not pa and not pb and a == b)
        raise Unsupported('pointer ordering between objects')

    def swval(self, x):
        if x is UNDEF: raise Hazard('uninit', 'switch on an uninitialised value')
        return x

    def sweq(self, x, c):
        if type(x) is int: return x == c
        r = self._c('eq', x, c)
        return r if type(r) is bool else self.branch(r)

    # ------------------------------------------------------------ floats
    def rnd(self, r, rel=2.0 ** -53, mbits=53):
        """add a rounding-error term (ROUND mode)"""
        if self.mode != sym.ROUND or not isn(r):
            return r
        m = max(abs(r.lo), abs(r.hi))
        if r.grid is not None and m < 2.0 ** (mbits + r.grid if mbits + r.grid < 1000 else 1000):
            return r
        if m == sym.INF:
            raise Unsupported('rounding of unbounded value')
        bound = m * rel * (1 + 1e-12) + 5e-324
        self.errn += 1
        e = sym.var('err%d_%d' % (self.errn, r.id), -bound, bound)
        return sym.add(r, e)

    def fin(self, x):
        if x is UNDEF:
            raise Hazard('uninit', 'uninitialised floating-point operand')
        if type(x) is float and (x != x or x in (sym.INF, -sym.INF)):
            return False
        return True

    def special(self, op, a, b):
        """one operand is nan/inf: the other, when symbolic, is some finite value"""
        if (type(a) is float and a != a) or (type(b) is float and b != b):
            return float('nan')
        if type(a) is float and abs(a) == sym.INF:
            if op in ('fadd', 'fsub'): return a
            if op == 'fmul' or op == 'fdiv':
                if not isn(b): return a * b if op == 'fmul' else (a / b if b else a)
                if op == 'fmul' and self.branch(sym.eq(b, 0)): return float('nan')
                return a if self.branch(sym.gt(b, 0)) else -a
        if op == 'fadd': return b
        if op == 'fsub': return -b
        if op == 'fdiv': return 0.0
        if not isn(a): return a * b
        if self.branch(sym.eq(a, 0)): return float('nan')
        return b if self.branch(sym.gt(a, 0)) else -b

    def f_fadd(self, a, b):
        if type(a) is float and type(b) is float: return a + b
        if not self.fin(a) or not self.fin(b): return self.special('fadd', a, b)
        return self.flo(self.rnd(sym.add(a, b)))

    def f_fsub(self, a, b):
        if type(a) is float and type(b) is float: return a - b
        if not self.fin(a) or not self.fin(b): return self.special('fsub', a, b)
        return self.flo(self.rnd(sym.sub(a, b)))

    def f_fmul(self, a, b):
        if type(a) is float and type(b) is float: return a * b
        if not self.fin(a) or not self.fin(b): return self.special('fmul', a, b)
        return self.flo(self.rnd(sym.mul(a, b)))

    def flo(self, x):
        return float(x) if type(x) is int else x

    def f_fdiv(self, a, b):
        if type(a) is float and type(b) is float:
            if b == 0.0:
                if a == 0.0 or a != a: return float('nan')
                return math.copysign(sym.INF, a) * math.copysign(1.0, b)
            return a / b
        if not self.fin(a) or not self.fin(b): return self.special('fdiv', a, b)
        if isn(b) and b.lo <= 0 <= b.hi and self.branch(sym.eq(b, 0)):
            self.notes.append('division by zero')
            if isn(a):
                if self.branch(sym.eq(a, 0)): return float('nan')
                return sym.INF if self.branch(sym.gt(a, 0)) else -sym.INF
            if a == 0.0: return float('nan')
            return math.copysign(sym.INF, a)
        if not isn(b) and b == 0.0:
            self.notes.append('division by zero')
            if self.branch(sym.eq(a, 0)): return float('nan')
            return (sym.INF if self.branch(sym.gt(a, 0)) else -sym.INF) * math.copysign(1.0, b)
        return self.flo(self.rnd(sym.div(a, b)))

    def f_frem(self, a, b):
        return m_fmod(self, a, b)

    def f_neg(self, a):
        if type(a) is float: return -a
        if a is UNDEF: raise Hazard('uninit', 'uninitialised floating-point operand')
        return sym.scale(a, -1)

    def f32(self, x, kind):
        if type(x) is float:
            try:
                return struct.unpack('<f', struct.pack('<f', x))[0]
            except OverflowError:
                return math.copysign(sym.INF, x)
        if isn(x):
            return self.rnd(x, 2.0 ** -24, 24)
        return x

    def fcmp(self, pred, a, b):
        if pred == 'true': return True
        if pred == 'false': return False
        if a is UNDEF or b is UNDEF: return UNDEF
        ca, cb = type(a) is not Node, type(b) is not Node
        nan = (ca and a != a) or (cb and b != b)
        if pred == 'ord': return not nan
        if pred == 'uno': return nan
        o = pred[0] == 'o'
        if nan: return not o
        op = pred[1:]
        if ca and cb:
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
        if (ca and abs(a) == sym.INF) or (cb and abs(b) == sym.INF):
            x = a if ca else 0.0
            y = b if cb else 0.0
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op]
        return getattr(sym, op)(a, b)

    def fptosi(self, x, w):
        if x is UNDEF: return UNDEF
        if type(x) is float:
            if x != x or abs(x) == sym.INF:
                self.notes.append('conversion of %r to integer' % x)
                return -(1 << (w - 1))
            v = int(x)
            if not -(1 << (w - 1)) <= v < (1 << (w - 1)):
                self.notes.append('conversion of %r to integer' % x)
                return -(1 << (w - 1))
            return v
        if x.isint:
            r = x
        elif x.lo >= 0 or self.branch(sym.ge(x, 0)):
            r = sym.ffloor(x)
        else:
            r = sym.ffloor(sym.scale(x, -1))
            r = sym.scale(r, -1) if isn(r) else -r
        if isn(r):
            h = 1 << (w - 1)
            ok = sym.cand(sym.ge(r, -h), sym.le(r, h - 1))
            if ok is not True and not self.branch(ok):
                self.notes.append('conversion out of range')
                return -h
        return r

    def fptoui(self, x, w):
        return self.fptosi(x, w + 1) if w < 64 else self.fptosi(x, 64)

    def sitofp(self, x, w, t):
        if x is UNDEF: return UNDEF
        if type(x) is int: return float(x) if t == 'double' else self.f32(float(x), 0)
        if type(x) is bool: return -1.0 if x else 0.0
        if t == 'float': return self.f32(x, 0)
        return x

    def uitofp(self, x, w, t):
        if x is UNDEF: return UNDEF
        if type(x) is bool: return 1.0 if x else 0.0
        if type(x) is Cond: return 1.0 if self.branch(x) else 0.0
        x = self.uns(x, w)
        if type(x) is int: return float(x)
        return x

    def bitcast(self, a, t, t2):
        if t == t2: return a
        return self.conv_load(a, 8 if t in ('d', 'i64') else 4, t2)

    def ptrtoint(self, a, w): return a
    def inttoptr(self, a, w): return a

    # ------------------------------------------------------------ strings
    def cells(self, p, n):
        """n raw byte cells"""
        o, off = self.chk(p, n, 'read')
        return [self.getbyte(o, off + i) for i in range(n)]

    def cstr(self, p, maxn=None):
        """list of byte cells up to NUL (exclusive); bounds-checked"""
        out = []
        if type(p) is not Ptr:
            raise Hazard('null', 'string operation on a null pointer')
        i = 0
        while maxn is None or i < maxn:
            c = self.load(Ptr(p.o, sym.add(p.off, i) if isn(p.off) else p.off + i), 1, 'i8')
            if type(c) is int:
                if c == 0: break
            elif c is UNDEF:
                raise Hazard('uninit', 'string read of uninitialised byte in %s' % p.o.name)
            elif isn(c):
                if self.branch(sym.eq(c, 0)): break
            out.append(c)
            i += 1
        return out

    def put_cells(self, p, cs, nul=True):
        n = len(cs) + (1 if nul else 0)
        if n == 0: return
        o, off = self.chk(p, n, 'write')
        for i, c in enumerate(cs):
            self._put(o, off + i, 1, c)
        if nul:
            self._put(o, off + len(cs), 1, 0)

    def str_obj(self, cs, name='str'):
        """allocate a NUL-terminated string object from text or cells"""
        if isinstance(cs, str): cs = [wrap(b, 8) for b in cs.encode('latin1')]
        o = self.new(name, len(cs) + 1)
        self.put_cells(Ptr(o, 0), cs)
        return Ptr(o, 0)

    def text(self, cs):
        """python text of concrete cells (None when symbolic)"""
        if all(type(c) is int for c in cs):
            return bytes(c & 255 for c in cs).decode('latin1')
        return None


# ---------------------------------------------------------------- libc models

FMT = re.compile(r'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L)?([diouxXcsfFeEgGp%])')


def render(rt, fmt, args, sink):
    """printf-style rendering into a list of segments: ('s', text) | ('v', spec, node) | ('cells', [...])"""
    args = list(args)
    pos = 0
    for m in FMT.finditer(fmt):
        if m.start() > pos:
            sink.append(('s', fmt[pos:m.start()]))
        pos = m.end()
        fl, wd, pr, ln, cv = m.groups()
        if cv == '%':
            sink.append(('s', '%'))
            continue
        if wd == '*':
            wd = str(args.pop(0))
        if pr == '*':
            pr = str(args.pop(0))
        if not args:
            raise Hazard('format', 'missing printf argument')
        a = args.pop(0)
        if a is UNDEF:
            raise Hazard('uninit', 'uninitialised value printed with %' + cv)
        if type(a) in (Cond, bool):
            a = rt.zext(a, 1, 32)
        spec = '%' + fl + (wd or '') + ('.' + pr if pr is not None else '')
        if cv == 's':
            cs = rt.cstr(a, int(pr) if pr is not None else None)
            t = rt.text(cs)
            if t is not None:
                sink.append(('s', ('%' + fl + (wd or '') + 's') % t))
            else:
                if wd and len(cs) < int(wd):
                    pad = [32] * (int(wd) - len(cs))
                    cs = cs + pad if '-' in fl else pad + cs
                sink.append(('cells', cs))
        elif isn(a):
            sink.append(('v', spec + ('c' if cv == 'c' else cv), a))
        elif cv == 'c':
            sink.append(('cells', [wrap(a, 8)]) if type(a) is Mark else ('s', chr(a & 255)))
        elif cv in 'di':
            sink.append(('s', (spec + 'd') % a))
        elif cv in 'ouxX':
            sink.append(('s', (spec + (cv if cv != 'u' else 'd')) % (a & ((1 << (64 if ln in ('l', 'll', 'z', 'j') else 32)) - 1))))
        elif cv in 'fFeEgG':
            if not isinstance(a, float):
                raise Hazard('format', 'floating conversion of %r' % (a,))
            sink.append(('s', (spec + cv) % a))
        else:
            raise Unsupported('conversion %' + cv)
    if pos < len(fmt):
        sink.append(('s', fmt[pos:]))
    return sink


def emit(rt, segs, sink):
    for s in segs:
        if s[0] == 'cells':
            buf = ''
            for c in s[1]:
                if type(c) is int:
                    buf += chr(c & 255)
                else:
                    if buf:
                        sink.append(('s', buf))
                        buf = ''
                    if c is CONT:
                        continue
                    if type(c) is Mark:
                        sink.append(('v', c.fmt or '%g', c.node))
                    elif isn(c):
                        sink.append(('v', '%c', c))
                    else:
                        raise Unsupported('printing %r' % (c,))
            if buf:
                sink.append(('s', buf))
        else:
            sink.append(s)


def fmt_text(rt, p):
    t = rt.text(rt.cstr(p))
    if t is None:
        raise Unsupported('symbolic format string')
    return t


def m_printf(rt, f, *a):
    segs = render(rt, fmt_text(rt, f), a, [])
    emit(rt, segs, rt.out)
    return 1


def m_fprintf(rt, fp, f, *a):
    segs = render(rt, fmt_text(rt, f), a, [])
    nm = fp.o.name if type(fp) is Ptr else ''
    emit(rt, segs, rt.out if nm == 'FILE:stdout' else rt.err)
    return 1


def m_puts(rt, p):
    emit(rt, [('cells', rt.cstr(p)), ('s', '\n')], rt.out)
    return 1


def m_fputs(rt, p, fp):
    nm = fp.o.name if type(fp) is Ptr else ''
    emit(rt, [('cells', rt.cstr(p))], rt.out if nm == 'FILE:stdout' else rt.err)
    return 1


def m_putchar(rt, c):
    rt.out.append(('s', chr(c & 255)) if type(c) is int else ('v', '%c', c))
    return c


def seg_cells(rt, segs):
    """segments -> byte cells for a buffer; symbolic integers get an exact width (forking on the digit count)"""
    out = []
    for s in segs:
        if s[0] == 's':
            out.extend(wrap(ord(ch), 8) for ch in s[1])
        elif s[0] == 'cells':
            out.extend(s[1])
        else:
            spec, node = s[1], s[2]
            cv = spec[-1]
            if cv == 'c':
                out.append(node)
                continue
            if cv in 'di':
                m = re.match(r'%([-+ #0]*)(\d+)?(?:\.(\d+))?', spec)
                wd = int(m.group(2) or 0)
                pr = int(m.group(3) or 1)
                # number of digits
                ngt = rt.branch(sym.lt(node, 0))
                mag = sym.scale(node, -1) if ngt else node
                nd = max(1, pr, wd - (1 if ngt else 0))     # the width does not depend on fewer digits
                while rt.branch(sym.ge(mag, 10 ** nd)):
                    nd += 1
                    if nd > 20: raise Unsupported('unbounded integer printed')
                w = max(wd, max(nd, pr) + (1 if ngt else 0))
                out.append(Mark(node, w, spec, ngt))
                out.extend([CONT] * (w - 1))
            else:
                out.append(Mark(node, 1, spec, True))
    return out


def m_sprintf(rt, d, f, *a):
    cs = seg_cells(rt, render(rt, fmt_text(rt, f), a, []))
    rt.put_cells(d, cs)
    return len(cs)


def m_snprintf(rt, d, n, f, *a):
    cs = seg_cells(rt, render(rt, fmt_text(rt, f), a, []))
    if isn(n): n = rt.concretize(n)
    if n > 0:
        rt.put_cells(d, cs[:n - 1])
    return len(cs)


def scan_ws(rt, cs, i):
    while i < len(cs):
        c = cs[i]
        if type(c) is int and (c == 32 or 9 <= c <= 13):
            i += 1
        elif isn(c) and rt.branch(sym.eq(c, 32)):
            i += 1
        else:
            break
    return i


def scan_int(rt, cs, i, width=None):
    """(value|None, next)"""
    j = i
    end = len(cs) if width is None else min(len(cs), i + width)
    if j < end and type(cs[j]) is Mark:
        mk = cs[j]
        if not (isn(mk.node) and mk.node.isint) and not (type(mk.node) is int):
            # real number read with an integer conversion: its integer part
            v = rt.fptosi(mk.node, 64)
        else:
            v = mk.node
        if j + mk.w > end:
            raise Unsupported('symbolic number wider than the scan width')
        return v, j + mk.w
    sg = 1
    if j < end and type(cs[j]) is int and cs[j] in (43, 45):
        sg = -1 if cs[j] == 45 else 1
        j += 1
    elif j < end and isn(cs[j]):
        if rt.branch(sym.eq(cs[j], 45)):
            sg = -1
            j += 1
        elif rt.branch(sym.eq(cs[j], 43)):
            j += 1
    v = 0
    n = 0
    while j < end:
        c = cs[j]
        if type(c) is int:
            if not 48 <= c <= 57: break
            v = sym.add(sym.mul(v, 10), c - 48) if isn(v) else v * 10 + c - 48
        elif isn(c):
            if not rt.branch(sym.cand(sym.ge(c, 48), sym.le(c, 57))): break
            v = sym.add(sym.mul(v, 10), sym.sub(c, 48))
        else:
            break
        j += 1
        n += 1
    if not n:
        return None, i
    return (sym.scale(v, sg) if isn(v) else v * sg), j


FLT = re.compile(r'[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|inf(inity)?|nan)', re.I)


def scan_float_sym(rt, cs, i, end, scan):
    """number with symbolic characters, as glibc reads it (scan: scanf, else strtod)"""
    j = i

    def one(k, chars):
        if k >= end: return False
        c = cs[k]
        if type(c) is int: return c in chars
        if not isn(c): return False
        return rt.branch(sym.cor(*[sym.eq(c, x) for x in chars]))

    def digit(k):
        if k >= end: return None
        c = cs[k]
        if type(c) is int: return c - 48 if 48 <= c <= 57 else None
        if not isn(c): return None
        return sym.sub(c, 48) if rt.branch(sym.cand(sym.ge(c, 48), sym.le(c, 57))) else None
    ng = False
    if one(j, b'-'):
        ng = True
        j += 1
    elif one(j, b'+'): j += 1
    if one(j, b'iI'):
        if not (one(j + 1, b'nN') and one(j + 2, b'fF')): return None, i
        if one(j + 3, b'iI'): raise Unsupported('text of an infinite number')
        return (-math.inf if ng else math.inf), j + 3
    if one(j, b'nN'):
        if not (one(j + 1, b'aA') and one(j + 2, b'nN')): return None, i
        if one(j + 3, b'('): raise Unsupported('text of a NaN')
        return math.nan, j + 3
    v, n = 0, 0
    if one(j, b'0') and one(j + 1, b'xX'):
        if j + 2 < end and (digit(j + 2) is not None or one(j + 2, b'abcdefABCDEF.')): raise Unsupported('hexadecimal number')
        return (None, i) if scan else (0.0, j + 1)
    while True:
        d = digit(j)
        if d is None: break
        v = sym.add(sym.mul(v, 10), d)
        n += 1
        j += 1
    if one(j, b'.'):
        k, sc, m = j + 1, Fr(1), 0
        while True:
            d = digit(k)
            if d is None: break
            sc /= 10
            v = sym.add(v, sym.scale(d, sc) if isn(d) else d * sc)
            m += 1
            k += 1
        if n or m: j = k
        n += m
    if not n: return None, i
    if one(j, b'eE'):
        k = j + 1
        en = False
        if one(k, b'-'):
            en = True
            k += 1
        elif one(k, b'+'): k += 1
        e, m = 0, 0
        while True:
            d = digit(k)
            if d is None: break
            e = e * 10 + rt.concretize(d)
            m += 1
            k += 1
        if m or scan: j = k
        if m:
            if e > 300: raise Unsupported('exponent of a number')
            v = sym.scale(v, Fr(10) ** (-e if en else e)) if isn(v) else v * Fr(10) ** (-e if en else e)
    if ng: v = sym.scale(v, -1) if isn(v) else -v
    if not isn(v): v = float(v)
    return rt.flo(v), j


def scan_float(rt, cs, i, width=None, scan=True):
    end = len(cs) if width is None else min(len(cs), i + width)
    if i < end and type(cs[i]) is Mark:
        return rt.flo(cs[i].node), i + cs[i].w
    if i < end and type(cs[i]) is int and cs[i] == 45 and i + 1 < end and type(cs[i + 1]) is Mark:
        return sym.scale(cs[i + 1].node, -1), i + 1 + cs[i + 1].w
    j = i
    if any(isn(c) for c in cs[i:end]):
        return scan_float_sym(rt, cs, i, end, scan)
    t = ''
    while j < end and type(cs[j]) is int:
        t += chr(cs[j] & 255)
        j += 1
    m = FLT.match(t)
    if not m:
        return None, i
    return float(m.group(0)), i + m.end()


def m_sscanf(rt, s, f, *a):
    cs = rt.cstr(s)
    fmt = fmt_text(rt, f)
    a = list(a)
    i = 0
    k = 0
    n = 0
    first = True
    while k < len(fmt):
        ch = fmt[k]
        if ch.isspace():
            i = scan_ws(rt, cs, i)
            k += 1
            continue
        if ch != '%':
            if i >= len(cs):
                return n if n or not first else -1
            c = cs[i]
            if type(c) is int:
                ok = chr(c & 255) == ch
            elif isn(c):
                ok = rt.branch(sym.eq(c, ord(ch)))
            else:
                r = rt._marked('eq', c, ord(ch))
                ok = r
            if not ok:
                return n
            i += 1
            k += 1
            first = False
            continue
        m = re.match(r'%(\*)?(\d+)?(hh|h|ll|l|L)?([difeEgGscu%]|\[[^\]]+\])', fmt[k:])
        if not m:
            raise Unsupported('sscanf format ' + fmt)
        k += m.end()
        sup, wd, ln, cv = m.groups()
        wd = int(wd) if wd else None
        if cv not in 'c%' and cv[0] != '[':
            i = scan_ws(rt, cs, i)
        if i >= len(cs):
            return n if n else -1
        if cv in 'diu':
            v, j = scan_int(rt, cs, i, wd)
            if v is None: return n
            i = j
            size = {'l': 8, 'll': 8, 'h': 2, 'hh': 1}.get(ln, 4)
            if not sup:
                rt.store(a.pop(0), size, rt.fit(v, size * 8, 0, 'scan'), 'i%d' % (size * 8))
        elif cv in 'feEgG':
            v, j = scan_float(rt, cs, i, wd)
            if v is None: return n
            i = j
            if not sup:
                if ln == 'l':
                    rt.store(a.pop(0), 8, v, 'd')
                else:
                    rt.store(a.pop(0), 4, rt.f32(v, 0), 'f')
        elif cv == 's':
            o = []
            while i < len(cs) and (wd is None or len(o) < wd):
                c = cs[i]
                if type(c) is int and (c == 32 or 9 <= c <= 13): break
                if isn(c) and rt.branch(sym.cor(sym.eq(c, 32), sym.cand(sym.ge(c, 9), sym.le(c, 13)))): break
                o.append(c)
                i += 1
            if not sup:
                rt.put_cells(a.pop(0), o)
        elif cv == 'c':
            o = cs[i:i + (wd or 1)]
            i += len(o)
            if not sup:
                rt.put_cells(a.pop(0), o, False)
        elif cv[0] == '[':
            inv = cv[1] == '^'
            st = cv[2:-1] if inv else cv[1:-1]
            cset = set()
            q = 0
            while q < len(st):
                if q + 2 < len(st) and st[q + 1] == '-':
                    cset.update(chr(x) for x in range(ord(st[q]), ord(st[q + 2]) + 1))
                    q += 3
                else:
                    cset.add(st[q])
                    q += 1
            o = []
            while i < len(cs) and (wd is None or len(o) < wd):
                c = cs[i]
                if type(c) is int:
                    if (chr(c & 255) in cset) == inv: break
                elif type(c) is Mark or c is CONT:
                    isd = '0' in cset
                    if isd == inv: break
                else:
                    if rt.branch(sym.cor(*[sym.eq(c, wrap(ord(x), 8)) for x in sorted(cset)])) == inv: break
                o.append(c)
                i += 1
            if not o: return n
            if not sup:
                rt.put_cells(a.pop(0), o)
        first = False
        n += 1
    return n


def m_atof(rt, p):
    cs = rt.cstr(p)
    v, j = scan_float(rt, cs, scan_ws(rt, cs, 0), None, False)
    return 0.0 if v is None else v


def m_strtod(rt, p, endp):
    cs = rt.cstr(p)
    i = scan_ws(rt, cs, 0)
    v, j = scan_float(rt, cs, i, None, False)
    if type(endp) is Ptr:
        rt.store(endp, 8, rt.gepc(p, j if v is not None else 0), 'p')
    return 0.0 if v is None else v


def lazy_int(rt, p):
    """atoi without reading past the number (C reads only as far as needed)"""
    i = 0

    def at(k):
        c = rt.load(rt.gepc(p, k), 1, 'i8')
        if c is UNDEF:
            raise Hazard('uninit', 'number read from uninitialised bytes of %s' % (p.o.name if type(p) is Ptr else '?'))
        return c
    c = at(0)
    while (type(c) is int and (c == 32 or 9 <= c <= 13)) or (isn(c) and rt.branch(sym.eq(c, 32))):
        i += 1
        c = at(i)
    if type(c) is Mark:
        v, j = scan_int(rt, [c] + [CONT] * (c.w - 1), 0)
        return v, i + c.w
    sg = 1
    if type(c) is int and c in (43, 45) or (isn(c) and rt.branch(sym.cor(sym.eq(c, 45), sym.eq(c, 43)))):
        if (type(c) is int and c == 45) or (isn(c) and rt.branch(sym.eq(c, 45))):
            sg = -1
        i += 1
        c = at(i)
        if type(c) is Mark:
            v, j = scan_int(rt, [c] + [CONT] * (c.w - 1), 0)
            return (sym.scale(v, sg) if isn(v) else sg * v), i + c.w
    v = 0
    n = 0
    while True:
        if type(c) is int:
            if not 48 <= c <= 57: break
            v = sym.add(sym.mul(v, 10), c - 48)
        elif isn(c):
            if not rt.branch(sym.cand(sym.ge(c, 48), sym.le(c, 57))): break
            v = sym.add(sym.mul(v, 10), sym.sub(c, 48))
        else:
            break
        n += 1
        i += 1
        c = at(i)
    return (sym.scale(v, sg) if isn(v) else v * sg), (i if n else 0)


def m_atoi(rt, p):
    if type(p) is not Ptr: raise Hazard('null', 'atoi(NULL)')
    v, _ = lazy_int(rt, p)
    if type(v) is int:
        if v > 2**63 - 1: v = 2**63 - 1
        if v < -2**63: v = -2**63
        return wrap(v, 32)
    return rt.fit(v, 32, 0, 'atoi')


def m_strtol(rt, p, endp, base):
    if type(p) is not Ptr: raise Hazard('null', 'strtol(NULL)')
    if base == 0 or base == 10:
        v, j = lazy_int(rt, p)
    else:
        raise Unsupported('strtol base %r' % base)
    if type(v) is int:
        v = max(-2**63, min(2**63 - 1, v))
    if type(endp) is Ptr:
        rt.store(endp, 8, rt.gepc(p, j), 'p')
    return v


def m_strlen(rt, p):
    return len(rt.cstr(p))


def m_strcpy(rt, d, s):
    rt.put_cells(d, rt.cstr(s))
    return d


def m_strncpy(rt, d, s, n):
    if isn(n): n = rt.concretize(n)
    cs = rt.cstr(s, n)
    rt.put_cells(d, cs + [0] * (n - len(cs)), False)
    return d


def m_strcat(rt, d, s):
    a = rt.cstr(d)
    rt.put_cells(rt.gepc(d, len(a)), rt.cstr(s))
    return d


def m_strncat(rt, d, s, n):
    a = rt.cstr(d)
    rt.put_cells(rt.gepc(d, len(a)), rt.cstr(s, n))
    return d


def cell_eq(rt, a, b):
    if type(a) is int and type(b) is int: return a == b
    if a is UNDEF or b is UNDEF: raise Hazard('uninit', 'comparison of uninitialised bytes')
    if a is b: return True
    if type(a) in (Mark, Cont) or type(b) in (Mark, Cont):
        if type(a) is Mark and type(b) is Mark: raise Unsupported('compare marks')
        return rt._marked('eq', a, b)
    return rt.branch(sym.eq(a, b))


def m_strcmp(rt, a, b):
    return m_strncmp(rt, a, b, 1 << 30)


def m_strncmp(rt, a, b, n):
    i = 0
    while i < n:
        x = rt.load(rt.gepc(a, i), 1, 'i8')
        y = rt.load(rt.gepc(b, i), 1, 'i8')
        if not cell_eq(rt, x, y):
            if type(x) is int and type(y) is int:
                return 1 if (x & 255) > (y & 255) else -1
            return 1
        if type(x) is int and x == 0: return 0
        if isn(x) and rt.branch(sym.eq(x, 0)): return 0
        i += 1
    return 0


def m_memcmp(rt, a, b, n):
    if isn(n): n = rt.concretize(n)
    for i in range(n):
        x = rt.load(rt.gepc(a, i), 1, 'i8')
        y = rt.load(rt.gepc(b, i), 1, 'i8')
        if not cell_eq(rt, x, y):
            if type(x) is int and type(y) is int:
                return 1 if (x & 255) > (y & 255) else -1
            return 1
    return 0


def m_strchr(rt, p, ch):
    cs = rt.cstr(p)
    if isn(ch):
        for i, c in enumerate(cs + [0]):
            if rt.branch(sym.eq(ch, c)): return rt.gepc(p, i)
        return NULL
    for i, c in enumerate(cs):
        if cell_eq(rt, c, wrap(ch, 8)):
            return rt.gepc(p, i)
    return rt.gepc(p, len(cs)) if ch == 0 else NULL


def m_strrchr(rt, p, ch):
    cs = rt.cstr(p)
    for i in range(len(cs) - 1, -1, -1):
        if cell_eq(rt, cs[i], wrap(ch, 8)):
            return rt.gepc(p, i)
    return rt.gepc(p, len(cs)) if ch == 0 else NULL


def m_strstr(rt, p, s):
    a = rt.cstr(p)
    b = rt.cstr(s)
    ta, tb = rt.text(a), rt.text(b)
    if ta is not None and tb is not None:
        i = ta.find(tb)
        return NULL if i < 0 else rt.gepc(p, i)
    for i in range(len(a) - len(b) + 1):
        if all(cell_eq(rt, a[i + j], b[j]) for j in range(len(b))):
            return rt.gepc(p, i)
    return NULL


def m_memcpy(rt, d, s, n, *a):
    if isn(n): n = rt.concretize(n)
    rt.memcpy(d, s, n)
    return d


def m_memset(rt, d, v, n, *a):
    if isn(n): n = rt.concretize(n)
    if n == 0: return d
    o, off = rt.chk(d, n, 'write')
    rt._clear(o, off, n)
    v = wrap(v, 8)
    if v == 0 and o.zero: return d
    for i in range(n):
        o.c[off + i] = (1, v)
    o.u = 1 if (off == 0 and n == o.size) else 0
    return d


def m_malloc(rt, n):
    if isn(n): n = rt.concretize(n)
    return Ptr(rt.new('heap', n), 0)


def m_calloc(rt, n, k):
    return Ptr(rt.new('heap', n * k, True), 0)


def m_realloc(rt, p, n):
    o = rt.new('heap', n, False)
    if type(p) is Ptr:
        if p.o.freed or p.off != 0: raise Hazard('uaf', 'realloc of dead object')
        m = min(n, p.o.size)
        o.c = {k: x for k, x in p.o.c.items() if k + x[0] <= m}
        o.u = p.o.u
        p.o.freed = True
    return Ptr(o, 0)


def m_free(rt, p):
    if type(p) is Ptr:
        if p.o.freed: raise Hazard('uaf', 'double free')
        p.o.freed = True


def m_fopen(rt, name, mode):
    cs = rt.cstr(name)
    t = rt.text(cs)
    if t is None:
        # symbolic characters in the name: one of the existing files, or none
        t = '?'
        for k in (rt.fnames() if getattr(rt, 'fnames', None) else ()):
            b = [wrap(x, 8) for x in k.encode('latin1')]
            if len(b) == len(cs) and all(cell_eq(rt, x, y) for x, y in zip(cs, b)):
                t = k
                break
    data = rt.fs(t) if hasattr(rt, 'fs') and rt.fs else None
    rt.events.append(('open', t, data is not None))
    if data is None: return NULL
    o = rt.new('FILE', 8)
    rt.files[o] = [list(data), 0]
    return Ptr(o, 0)


def _file(rt, f):
    if type(f) is not Ptr: raise Hazard('null', 'stream operation on a null stream')
    if f.o.freed: raise Hazard('uaf', 'use of closed stream')
    st = rt.files.get(f.o)
    if st is None: raise Unsupported('unknown stream')
    return st


def m_fgets(rt, d, n, f):
    st = _file(rt, f)
    data, i = st
    if i >= len(data): return NULL
    out = []
    while i < len(data) and len(out) < n - 1:
        c = data[i]
        i += 1
        out.append(c)
        if type(c) is int and c == 10: break
        if isn(c) and rt.branch(sym.eq(c, 10)): break
    st[1] = i
    rt.put_cells(d, out)
    return d


def m_fgetc(rt, f):
    st = _file(rt, f)
    if st[1] >= len(st[0]): return -1
    c = st[0][st[1]]
    st[1] += 1
    return c & 255 if type(c) is int else c


def m_feof(rt, f):
    st = _file(rt, f)
    return 1 if st[1] >= len(st[0]) else 0


def m_fclose(rt, f):
    _file(rt, f)
    rt.events.append(('close',))
    f.o.freed = True
    return 0


def m_exit(rt, c):
    raise PathEnd('exit', c)


def m_abort(rt):
    raise Hazard('abort', 'abort() called')


def m_assert(rt, e, f, l, fn):
    raise Hazard('assert', 'assertion failed: %s' % rt.text(rt.cstr(e)))


def ctype_table(rt):
    o = rt.globs.get('!ctype')
    if o is None:
        o = Obj('ctype', 768)
        o.u = 2
        for ch in range(-128, 256):
            c = ch & 255
            v = 0
            if c < 128:
                s = chr(c)
                if s.isupper(): v |= 256
                if s.islower(): v |= 512
                if s.isalpha(): v |= 1024
                if s.isdigit(): v |= 2048
                if s in '0123456789abcdefABCDEF': v |= 4096
                if c in (32, 9, 10, 11, 12, 13): v |= 8192
                if 32 <= c < 127: v |= 16384
                if 33 <= c < 127: v |= 32768
                if c in (32, 9): v |= 1
                if c < 32 or c == 127: v |= 2
                if 33 <= c < 127 and not s.isalnum(): v |= 4
                if s.isalnum(): v |= 8
            o.c[(ch + 128) * 2] = (2, wrap(v, 16))
        rt.globs['!ctype'] = o
    h = rt.globs.get('!ctypeptr')
    if h is None:
        h = Obj('ctypeptr', 8)
        h.c[0] = (8, Ptr(o, 256))
        h.u = 8
        rt.globs['!ctypeptr'] = h
    return Ptr(h, 0)


def _isch(pred):
    def f(rt, c):
        if isn(c): c = rt.concretize(c)
        if type(c) in (Mark, Cont): return 1 if pred('5') else 0
        return 1 if 0 <= (c & 255) < 128 and pred(chr(c & 255)) else 0
    return f


def m_toupper(rt, c):
    return ord(chr(c).upper()) if type(c) is int and 0 <= c < 128 else c


def m_tolower(rt, c):
    return ord(chr(c).lower()) if type(c) is int and 0 <= c < 128 else c


def m1(fn, dom=None):
    def f(rt, x):
        if x is UNDEF: raise Hazard('uninit', 'uninitialised argument')
        if not isn(x):
            if x != x: return x
            return fn(x) if abs(x) != sym.INF else float('nan')
        return fn(x)
    return f


def m_asin(rt, x):
    if x is UNDEF: raise Hazard('uninit', 'uninitialised argument')
    if isn(x):
        ok = sym.cand(sym.ge(x, -1), sym.le(x, 1))
        if ok is not True and not rt.must(ok):
            if not rt.branch(ok):
                rt.notes.append('asin/acos argument outside [-1,1]')
                return float('nan')
        return sym.fasin(x)
    if x != x or abs(x) > 1:
        return float('nan')
    return math.asin(x)


def m_acos(rt, x):
    if x is UNDEF: raise Hazard('uninit', 'uninitialised argument')
    if isn(x):
        ok = sym.cand(sym.ge(x, -1), sym.le(x, 1))
        if ok is not True and not rt.must(ok):
            if not rt.branch(ok):
                rt.notes.append('asin/acos argument outside [-1,1]')
                return float('nan')
        return sym.facos(x)
    if x != x or abs(x) > 1:
        return float('nan')
    return math.acos(x)


def m_sqrt(rt, x):
    if x is UNDEF: raise Hazard('uninit', 'uninitialised argument')
    if isn(x):
        if x.lo < 0:
            ok = sym.ge(x, 0)
            if not rt.must(ok) and not rt.branch(ok):
                rt.notes.append('sqrt of a negative value')
                return float('nan')
        return sym.fsqrt(x)
    if x != x or x < 0: return float('nan')
    return math.sqrt(x)


def m_atan2(rt, y, x):
    if x is UNDEF or y is UNDEF: raise Hazard('uninit', 'uninitialised argument')
    if not rt.fin(x) or not rt.fin(y):
        return math.atan2(y if not isn(y) else 1.0, x if not isn(x) else 1.0)
    return sym.fatan2(y, x)


def m_fabs(rt, x):
    if x is UNDEF: raise Hazard('uninit', 'uninitialised argument')
    if not isn(x): return abs(x)
    if x.lo >= 0: return x
    if x.hi <= 0: return sym.scale(x, -1)
    return x if rt.branch(sym.ge(x, 0)) else sym.scale(x, -1)


def m_iabs(rt, x, *a):
    if not isn(x): return abs(x)
    return x if rt.branch(sym.ge(x, 0)) else sym.scale(x, -1)


def m_floor(rt, x):
    if x is UNDEF: raise Hazard('uninit', 'uninitialised argument')
    if not isn(x): return float(math.floor(x)) if rt.fin(x) else x
    return rt.flo(sym.ffloor(x))


def m_ceil(rt, x):
    if not isn(x): return float(math.ceil(x)) if rt.fin(x) else x
    r = sym.ffloor(sym.scale(x, -1))
    return sym.scale(r, -1) if isn(r) else float(-r)


def m_trunc(rt, x):
    if not isn(x): return float(math.trunc(x)) if rt.fin(x) else x
    if rt.branch(sym.ge(x, 0)): return m_floor(rt, x)
    return m_ceil(rt, x)


def m_round(rt, x):
    if not isn(x):
        if not rt.fin(x): return x
        return math.copysign(float(math.floor(abs(x) + 0.5) if abs(x) < 2**52 else abs(x)), x)
    if rt.branch(sym.ge(x, 0)):
        return rt.flo(sym.ffloor(sym.add(x, 0.5)))
    r = sym.ffloor(sym.add(sym.scale(x, -1), 0.5))
    return sym.scale(r, -1) if isn(r) else float(-r)


def m_fmod(rt, a, b):
    if a is UNDEF or b is UNDEF: raise Hazard('uninit', 'uninitialised argument')
    if not isn(a) and not isn(b):
        if b == 0 or not rt.fin(a): return float('nan')
        return math.fmod(a, b)
    if isn(b): raise Unsupported('fmod by a symbolic value')
    b = abs(b)
    if a.lo > -b and a.hi < b or a.lo > -2 * b and a.hi < 2 * b and rt.must(sym.cand(sym.lt(a, b), sym.gt(a, -b))):
        return a
    if rt.branch(sym.ge(a, 0)):
        q = sym.ffloor(sym.scale(a, 1 / sym.fr(b)))
    else:
        q = sym.ffloor(sym.scale(a, -1 / sym.fr(b)))
        q = sym.scale(q, -1) if isn(q) else -q
    r = sym.sub(a, sym.mul(q, b) if isn(q) else float(q * b))
    return r


def m_pow(rt, x, y):
    if not isn(x) and not isn(y):
        try:
            return math.pow(x, y)
        except (OverflowError, ValueError):
            return float('nan')
    if not isn(y):
        if y == int(y) and abs(y) < 40:
            if y < 0 and isn(x) and rt.branch(sym.eq(x, 0)): return sym.INF
            return sym.power(x, int(y))
        if y == 0.5: return m_sqrt(rt, x)
        if y == 1.5: return sym.mul(x, m_sqrt(rt, x))
        if y == -1.5: return sym.div(1.0, sym.mul(x, m_sqrt(rt, x)))
        if x.lo < 0:
            ok = sym.ge(x, 0)
            if not rt.must(ok) and not rt.branch(ok):
                rt.notes.append('pow of a negative value')
                return float('nan')
    lo, hi = 0.0, sym.INF
    if isn(x) and not isn(y) and x.lo >= 0:
        a, b = [z if z in (0, sym.INF) else z ** y for z in ((x.lo, x.hi) if y > 0 else (x.hi, x.lo))] if x.lo > 0 or y > 0 else (0.0, sym.INF)
        if y < 0 and x.hi == sym.INF: a = 0.0
        if y < 0 and x.lo == 0: b = sym.INF
        lo, hi = a * (1 - 1e-13), b * (1 + 1e-13)
    return sym.mk_fn('pow', (x, y), lo, hi)


def m_exp(rt, x):
    if not isn(x): return math.exp(x)
    return sym.mk_fn('exp', (x,), 0.0, sym.INF)


def m_log(rt, x):
    if not isn(x): return math.log(x) if x > 0 else float('nan')
    return sym.mk_fn('log', (x,))


def m_fmin(rt, a, b):
    if not isn(a) and not isn(b): return min(a, b)
    return a if rt.branch(sym.le(a, b)) else b


def m_fmax(rt, a, b):
    if not isn(a) and not isn(b): return max(a, b)
    return a if rt.branch(sym.ge(a, b)) else b


def m_hypot(rt, a, b):
    return m_sqrt(rt, sym.add(sym.mul(a, a), sym.mul(b, b)))


def m_copysign(rt, a, b):
    if not isn(a) and not isn(b): return math.copysign(a, b)
    m = m_fabs(rt, a)
    if not isn(b): return m if math.copysign(1, b) > 0 else sym.scale(m, -1)
    return m if rt.branch(sym.ge(b, 0)) else (sym.scale(m, -1) if isn(m) else -m)


def m_isfpclass(rt, x, mask):
    if x is UNDEF: raise Hazard('uninit', 'uninitialised value classified')
    r = False
    if isn(x):
        if mask & 3 == 3 and mask & ~3 == 0: return False
        if mask == 504: return True          # finite
        if mask & 0x204 == mask: return False
        raise Unsupported('is.fpclass mask %d' % mask)
    if x != x: return bool(mask & 3)
    if x == sym.INF: return bool(mask & 0x200)
    if x == -sym.INF: return bool(mask & 4)
    if x > 0: return bool(mask & 0x180)
    if x < 0: return bool(mask & 0x18)
    return bool(mask & 0x60)


def m_fmuladd(rt, a, b, c):
    return rt.f_fadd(rt.f_fmul(a, b), c)


def m_time(rt, p):
    v = rt.stub_time() if hasattr(rt, 'stub_time') else 1700000000
    if type(p) is Ptr: rt.store(p, 8, v, 'i64')
    return v


def m_sincos(rt, x, ps, pc):
    rt.store(ps, 8, sym.fsin(x), 'd')
    rt.store(pc, 8, sym.fcos(x), 'd')


def m_strdup(rt, p):
    return rt.str_obj(rt.cstr(p), 'heap')


def m_strcspn(rt, p, s):
    a = rt.cstr(p)
    b = rt.cstr(s)
    for i, c in enumerate(a):
        if any(cell_eq(rt, c, x) for x in b): return i
    return len(a)


def m_strspn(rt, p, s):
    a = rt.cstr(p)
    b = rt.cstr(s)
    for i, c in enumerate(a):
        if not any(cell_eq(rt, c, x) for x in b): return i
    return len(a)


LIBC = {
    'printf': m_printf, 'fprintf': m_fprintf, 'puts': m_puts, 'putchar': m_putchar, 'fputs': m_fputs, 'sprintf': m_sprintf, 'snprintf': m_snprintf,
    'sscanf': m_sscanf, '__isoc99_sscanf': m_sscanf, '__isoc23_sscanf': m_sscanf, 'atof': m_atof, 'strtod': m_strtod, 'atoi': m_atoi, 'atol': lambda rt, p: m_strtol(rt, p, NULL, 10),
    'strtol': m_strtol, '__isoc23_strtol': m_strtol, 'strlen': m_strlen, 'strcpy': m_strcpy, 'strncpy': m_strncpy, 'strcat': m_strcat, 'strncat': m_strncat,
    'strcmp': m_strcmp, 'strncmp': m_strncmp, 'memcmp': m_memcmp, 'bcmp': m_memcmp, 'strchr': m_strchr, 'strrchr': m_strrchr, 'strstr': m_strstr,
    'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'malloc': m_malloc, 'calloc': m_calloc, 'realloc': m_realloc, 'free': m_free,
    'fopen': m_fopen, 'fgets': m_fgets, 'fgetc': m_fgetc, 'getc': m_fgetc, 'feof': m_feof, 'fclose': m_fclose, 'exit': m_exit, 'abort': m_abort,
    '__assert_fail': m_assert, '__ctype_b_loc': lambda rt: ctype_table(rt), 'toupper': m_toupper, 'tolower': m_tolower,
    'isspace': _isch(str.isspace), 'isdigit': _isch(str.isdigit), 'isalpha': _isch(str.isalpha), 'isupper': _isch(str.isupper), 'islower': _isch(str.islower), 'isalnum': _isch(str.isalnum),
    'sin': m1(sym.fsin), 'cos': m1(sym.fcos), 'tan': m1(sym.ftan), 'asin': m_asin, 'acos': m_acos, 'atan': m1(sym.fatan), 'atan2': m_atan2, 'sqrt': m_sqrt,
    'fabs': m_fabs, 'abs': m_iabs, 'labs': m_iabs, 'floor': m_floor, 'ceil': m_ceil, 'trunc': m_trunc, 'round': m_round, 'roundf': m_round, 'rint': m_round, 'fmod': m_fmod,
    'floorf': m_floor, 'ceilf': m_ceil, 'fabsf': m_fabs,
    'pow': m_pow, 'exp': m_exp, 'log': m_log, 'fmin': m_fmin, 'fmax': m_fmax, 'hypot': m_hypot, 'copysign': m_copysign, 'time': m_time, 'sincos': m_sincos, 'strdup': m_strdup,
    'strcspn': m_strcspn, 'strspn': m_strspn, 'fflush': lambda rt, f: 0, 'lround': lambda rt, x: rt.fptosi(m_round(rt, x), 64),
}


def i_minmax(kind):
    def f(rt, a, b):
        if type(a) is int and type(b) is int:
            return {'smax': max, 'smin': min}[kind](a, b)
        if kind == 'smax': return a if rt.branch(sym.ge(a, b)) else b
        return a if rt.branch(sym.le(a, b)) else b
    return f


INTRIN = [
    ('llvm.memcpy', m_memcpy), ('llvm.memmove', m_memcpy), ('llvm.memset', m_memset), ('llvm.fabs', m_fabs), ('llvm.floor', m_floor), ('llvm.ceil', m_ceil),
    ('llvm.trunc.', m_trunc), ('llvm.round', m_round), ('llvm.sqrt', m_sqrt), ('llvm.is.fpclass', m_isfpclass), ('llvm.fmuladd', m_fmuladd), ('llvm.abs', m_iabs),
    ('llvm.smax', i_minmax('smax')), ('llvm.smin', i_minmax('smin')), ('llvm.copysign', m_copysign), ('llvm.pow', m_pow), ('llvm.sin', m1(sym.fsin)), ('llvm.cos', m1(sym.fcos)),
    ('llvm.maxnum', m_fmax), ('llvm.minnum', m_fmin), ('llvm.assume', lambda rt, *a: None), ('llvm.expect', lambda rt, x, y: x), ('llvm.stack', lambda rt, *a: NULL),
    ('llvm.va_', lambda rt, *a: None),
]
