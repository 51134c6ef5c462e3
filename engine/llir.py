"""Parser for the textual LLVM 18 IR clang emits (opaque pointers) and a compiler from IR functions to Python
functions that compute on concrete or symbolic values through the runtime `rt` (see rt.py)."""
import re
import struct

TOK = re.compile(r'''
   c"(?:[^"\\]|\\\\|\\[0-9A-Fa-f]{2})*"
 | "(?:[^"\\]|\\\\|\\[0-9A-Fa-f]{2})*"
 | [%@]"[^"]*"
 | [%@!\#$][-a-zA-Z$._0-9]+
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?[0-9]+\.[0-9]*(?:e[+-]?[0-9]+)?
 | -?[0-9]+
 | \.\.\.
 | [a-zA-Z_][-a-zA-Z$._0-9]*:?
 | [\[\]{}()<>,=*!|]
''', re.X)


class Unsupported(Exception):
    pass


class Ty:
    __slots__ = ('k', 'w', 'sub', 'n', 'size', 'align', 'offs', 'name')

    def __init__(self, k, w=0, sub=None, n=0, name=None):
        self.k = k
        self.w = w
        self.sub = sub
        self.n = n
        self.size = None
        self.align = None
        self.offs = None
        self.name = name

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.w
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.sub)
        if self.k == 'struct': return self.name or '{%s}' % ', '.join(map(repr, self.sub))
        return self.k


INTS = {}


def ity(w):
    t = INTS.get(w)
    if t is None:
        t = INTS[w] = Ty('int', w)
        t.size = max(1, (w + 7) // 8) if w <= 8 else {16: 2, 32: 4, 64: 8, 128: 16}.get(w, (w + 7) // 8)
        t.align = t.size if t.size in (1, 2, 4, 8, 16) else 8
    return t


def _prim(k, s):
    t = Ty(k)
    t.size = t.align = s
    return t


DOUBLE = _prim('double', 8)
FLOAT = _prim('float', 4)
PTR = _prim('ptr', 8)
VOID = _prim('void', 0)
VOID.align = 1
LABEL = _prim('label', 1)
META = _prim('metadata', 1)
X80 = _prim('x86_fp80', 16)
PRIMS = {'double': DOUBLE, 'float': FLOAT, 'ptr': PTR, 'void': VOID, 'label': LABEL, 'metadata': META, 'x86_fp80': X80}

PARAM_ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'signext', 'zeroext', 'noalias', 'returned',
               'inreg', 'readnone', 'immarg', 'nofree', 'nest', 'swiftself', 'noreturn', 'nounwind', 'allocptr', 'allocalign', 'local_unnamed_addr', 'unnamed_addr',
               'dso_local', 'internal', 'private', 'external', 'common', 'weak', 'linkonce_odr', 'hidden', 'ccc', 'fastcc', 'dllimport',
               'tail', 'musttail', 'notail', 'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'nneg', 'disjoint', 'available_externally', 'thread_local'}
PAREN_ATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'range', 'nofpclass', 'captures', 'memory', 'allocsize', 'vscale_range', 'initializes'}


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}     # name -> (ty, init const or None, isconst)
        self.funcs = {}       # name -> Func (defined)
        self.decls = set()
        self._typetext = {}
        self.parse(text)

    # ------------------------------------------------------------ types
    def layout(self, t):
        if t.size is not None:
            return t
        if t.k == 'arr':
            self.layout(t.sub)
            t.size = t.sub.size * t.n
            t.align = t.sub.align
        elif t.k == 'vec':
            self.layout(t.sub)
            t.size = t.sub.size * t.n
            t.align = t.size
        elif t.k == 'struct':
            if t.sub is None:
                raise Unsupported('opaque struct ' + str(t.name))
            off = 0
            al = 1
            offs = []
            for s in t.sub:
                self.layout(s)
                if not t.n:
                    off = (off + s.align - 1) // s.align * s.align
                    al = max(al, s.align)
                offs.append(off)
                off += s.size
            t.offs = offs
            t.align = al
            t.size = (off + al - 1) // al * al
        else:
            raise Unsupported('layout of ' + t.k)
        return t

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        glines = []
        while i < n:
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                nm, body = ln.split(' = type ', 1)
                self._typetext[nm.strip()] = body
            elif ln.startswith('@'):
                glines.append(ln)
            elif ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                hdr = ln
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', hdr)
                name = m.group(1).strip('"')
                self.funcs[name] = Func(self, name, hdr, lines[i + 1:j])
                i = j
            elif ln.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', ln)
                self.decls.add(m.group(1).strip('"'))
            i += 1
        for ln in glines:
            self.parse_global(ln)

    def named(self, nm):
        t = self.types.get(nm)
        if t is None:
            t = Ty('struct', name=nm)
            self.types[nm] = t
            body = self._typetext.get(nm)
            if body is not None and not body.startswith('opaque'):
                p = P(self, body)
                b = p.ty()
                t.sub = b.sub
                t.n = b.n
        return t

    def parse_global(self, ln):
        p = P(self, ln)
        name = p.next()[1:].strip('"')
        p.expect('=')
        isconst = False
        ext = False
        while True:
            t = p.peek()
            if t == 'constant':
                isconst = True
                p.next()
                break
            if t == 'global':
                p.next()
                break
            if t in ('external', 'extern_weak'):
                ext = True
            if t == 'alias':
                return
            p.next()
        ty = p.ty()
        init = None
        if not ext:
            init = p.const(ty)
        self.globals[name] = (ty, init, isconst)


class P:
    """token parser over one line"""

    def __init__(self, mod, s):
        self.mod = mod
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def expect(self, x):
        r = self.next()
        if r != x:
            raise Unsupported('parse: expected %s got %s in %s' % (x, r, ' '.join(self.t)))

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def ty(self):
        x = self.next()
        if x in PRIMS:
            t = PRIMS[x]
        elif re.fullmatch(r'i[0-9]+', x):
            t = ity(int(x[1:]))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            s = self.ty()
            self.expect(']')
            t = Ty('arr', sub=s, n=n)
            self.mod.layout(t)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                subs = []
                while not self.accept('}'):
                    subs.append(self.ty())
                    self.accept(',')
                self.expect('>')
                t = Ty('struct', sub=subs, n=1)
            else:
                n = int(self.next())
                self.expect('x')
                s = self.ty()
                self.expect('>')
                t = Ty('vec', sub=s, n=n)
        elif x == '{':
            subs = []
            while not self.accept('}'):
                subs.append(self.ty())
                self.accept(',')
            t = Ty('struct', sub=subs)
        elif x.startswith('%'):
            t = self.mod.named(x)
        else:
            raise Unsupported('type ' + x)
        # function type
        while self.peek() == '(' and t is not None and self._is_fn_type():
            self.skip_parens()
            f = Ty('fn', sub=t)
            t = f
        return t

    def _is_fn_type(self):
        # "i32 (ptr, ...) @printf(" : '(' directly after a type, contents are types
        x = self.peek(1)
        return x in PRIMS or x in ('...', ')', '[', '{') or (x and re.fullmatch(r'i[0-9]+', x) is not None) or (x or '').startswith('%struct')

    def attrs(self):
        """skip parameter attributes; returns byval type if present"""
        bv = None
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.next()
            elif x in PAREN_ATTRS:
                self.next()
                if x == 'byval':
                    self.expect('(')
                    bv = self.ty()
                    self.expect(')')
                elif self.peek() == '(':
                    self.skip_parens()
                elif x == 'align':
                    self.next()
            else:
                return bv

    # constants -> python values: int/float/None/('str',bytes)/('agg',[...])/('g',name,off)/('zero',)/('undef',)
    def const(self, ty):
        x = self.next()
        if x in ('null',):
            return 0
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x == 'true':
            return True
        if x == 'false':
            return False
        if x.startswith('c"'):
            b = bytearray()
            s = x[2:-1]
            k = 0
            while k < len(s):
                if s[k:k + 2] == '\\\\':
                    b.append(92)
                    k += 2
                elif s[k] == '\\':
                    b.append(int(s[k + 1:k + 3], 16))
                    k += 3
                else:
                    b.append(ord(s[k]))
                    k += 1
            return ('str', bytes(b))
        if x == '[' or x == '{' or x == '<':
            close = {'[': ']', '{': '}', '<': '>'}[x]
            packed = False
            if x == '<' and self.peek() == '{':
                self.next()
                close = '}'
                packed = True
            out = []
            while not self.accept(close):
                t = self.ty()
                out.append((t, self.const(t)))
                self.accept(',')
            if packed:
                self.expect('>')
            return ('agg', out)
        if x.startswith('@'):
            return ('g', x[1:].strip('"'), 0)
        if x == 'getelementptr':
            self.accept('inbounds')
            self.expect('(')
            t = self.ty()
            self.expect(',')
            pt = self.ty()
            base = self.const(pt)
            off = 0
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.ty()
                idx.append(self.const(it))
            self.expect(')')
            off = gep_const(self.mod, t, idx)
            return ('g', base[1], base[2] + off)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            self.expect('(')
            t = self.ty()
            c = self.const(t)
            self.expect('to')
            self.ty()
            self.expect(')')
            return c
        if ty.k in ('double', 'float'):
            if x.startswith('0x'):
                return struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]
            return float(x)
        if ty.k == 'int':
            v = int(x)
            return wrap(v, ty.w) if ty.w > 1 else bool(v & 1)
        raise Unsupported('constant %s of type %r' % (x, ty))


def wrap(v, w):
    m = 1 << w
    v &= m - 1
    return v - m if v >> (w - 1) else v


def gep_const(mod, t, idx):
    mod.layout(t)
    off = idx[0] * t.size
    cur = t
    for i in idx[1:]:
        if cur.k == 'struct':
            mod.layout(cur)
            off += cur.offs[i]
            cur = cur.sub[i]
        else:
            cur = cur.sub
            mod.layout(cur)
            off += i * cur.size
    return off


class Func:
    def __init__(self, mod, name, hdr, body):
        self.mod = mod
        self.name = name
        self.hdr = hdr
        self.body = body
        self.code = None
        self.nblocks = 0
        self.ninstr = 0

    def params(self):
        s = self.hdr[self.hdr.index('@'):]
        p = P(self.mod, s)
        p.next()
        p.expect('(')
        out = []
        va = False
        while not p.accept(')'):
            if p.accept('...'):
                va = True
                continue
            t = p.ty()
            bv = p.attrs()
            nm = p.next()
            out.append((t, nm, bv))
            p.accept(',')
        return out, va


CMPI = {'eq': 'eq', 'ne': 'ne', 'slt': 'lt', 'sle': 'le', 'sgt': 'gt', 'sge': 'ge',
        'ult': 'ult', 'ule': 'ule', 'ugt': 'ugt', 'uge': 'uge'}


class Compiler:
    """IR function -> python source"""

    def __init__(self, mod):
        self.mod = mod

    def compile(self, fn):
        mod = self.mod
        params, va = fn.params()
        names = {}
        consts = []

        def v(nm):
            r = names.get(nm)
            if r is None:
                r = names[nm] = 'v%d' % len(names)
            return r

        def k(c):
            consts.append(c)
            return 'K[%d]' % (len(consts) - 1)

        def operand(p, ty):
            x = p.peek()
            if x.startswith('%'):
                p.next()
                return v(x)
            c = p.const(ty)
            if type(c) is bool:
                return 'True' if c else 'False'
            if type(c) is int:
                return repr(c) if ty.k != 'ptr' or c else 'NULL'
            if type(c) is float:
                return k(c)
            if c[0] == 'g':
                return 'rt.gptr(%r,%d)' % (c[1], c[2])
            if c[0] == 'undef':
                return 'UNDEF'
            if c[0] == 'zero':
                return {'int': '0', 'double': '0.0', 'float': '0.0', 'ptr': 'NULL'}.get(ty.k, 'UNDEF')
            raise Unsupported('operand %r' % (c,))

        # split into blocks
        blocks = []
        cur = None
        label0 = None
        pend = None
        for ln in fn.body:
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = ('%' + m.group(1), [])
                blocks.append(cur)
                continue
            if cur is None:
                cur = ('%entry!', [])
                blocks.append(cur)
            if pend is not None:
                pend += ' ' + s
                if s.startswith(']'):
                    cur[1].append(pend)
                    pend = None
                continue
            if s.startswith('switch ') and s.endswith('['):
                pend = s
                continue
            cur[1].append(s)
        # entry label: if first block unlabeled its name is %N where N=number of params; phi refs use that name
        bid = {b[0]: i for i, b in enumerate(blocks)}
        if '%entry!' in bid:
            unn = [nm for _, nm, _ in params if re.fullmatch(r'%[0-9]+', nm)]
            bid['%%%d' % len(unn)] = 0
        fn.nblocks = len(blocks)

        # phis: block -> [(dest, {pred: operand})]
        phis = {}
        for bi, (bn, ins) in enumerate(blocks):
            lst = []
            rest = []
            for s in ins:
                m = re.match(r'^(%\S+|%"[^"]*") = phi ', s)
                if m:
                    p = P(mod, s)
                    d = p.next()
                    p.expect('=')
                    p.expect('phi')
                    while p.peek() in PARAM_ATTRS:
                        p.next()
                    t = p.ty()
                    inc = {}
                    while p.accept('['):
                        o = operand(p, t)
                        p.expect(',')
                        lab = p.next()
                        p.expect(']')
                        inc[bid[lab]] = o
                        p.accept(',')
                    lst.append((v(d), inc))
                else:
                    rest.append(s)
            phis[bi] = lst
            blocks[bi] = (bn, rest)

        def jump(src, lab):
            t = bid[lab]
            ph = phis[t]
            out = []
            if ph:
                ds = [d for d, _ in ph]
                vs = [inc[src] for _, inc in ph]
                out.append('%s = %s' % (', '.join(ds), ', '.join(vs)))
            out.append('b = %d' % t)
            return '; '.join(out)

        code = []
        for bi, (bn, ins) in enumerate(blocks):
            L = []
            for s in ins:
                fn.ninstr += 1
                L.extend(self.instr(s, bi, operand, v, jump, k, fn))
            code.append(L)

        src = ['def F(%s):' % ', '.join([v(nm) for _, nm, _ in params] + (['*va'] if va else []))]
        I = '  '
        src.append(I + 'allocas = []')
        for _, nm, bv in params:
            if bv is not None:
                mod.layout(bv)
                src.append(I + '%s = rt.byval_copy(%s, %d)' % (v(nm), v(nm), bv.size))
        src.append(I + 'b = 0')
        src.append(I + 'rt.enter(%r)' % fn.name)
        src.append(I + 'while True:')

        def tree(lo, hi, ind):
            if hi - lo == 1:
                src.append(ind + 'rt.steps -= %d' % (len(blocks[lo][1]) + 1))
                src.append(ind + 'if rt.steps < 0: rt.out_of_steps(%r)' % fn.name)
                for l in code[lo]:
                    src.append(ind + l)
                return
            mid = (lo + hi) // 2
            src.append(ind + 'if b < %d:' % mid)
            tree(lo, mid, ind + ' ')
            src.append(ind + 'else:')
            tree(mid, hi, ind + ' ')
        tree(0, len(blocks), I * 2)
        text = '\n'.join(src) + '\n'
        return text, consts

    def instr(self, s, bi, operand, v, jump, k, fn):
        mod = self.mod
        # strip metadata
        j = s.find(', !')
        if j >= 0:
            s = s[:j]
        p = P(mod, s)
        dest = None
        if p.peek(1) == '=':
            dest = v(p.next())
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()

        def flags():
            f = set()
            while p.peek() in PARAM_ATTRS:
                f.add(p.next())
            return f

        if op == 'ret':
            if p.peek() == 'void':
                return ['rt.leave(allocas); return None']
            t = p.ty()
            return ['rt.leave(allocas); return ' + operand(p, t)]
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return [jump(bi, p.next())]
            p.ty()
            c = operand(p, ity(1))
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            b = p.next()
            return ['if (%s if type(%s) is bool else rt.branch(%s)): %s' % (c, c, c, jump(bi, a)), 'else: %s' % jump(bi, b)]
        if op == 'switch':
            t = p.ty()
            x = operand(p, t)
            p.expect(',')
            p.expect('label')
            dflt = p.next()
            p.expect('[')
            out = []
            first = True
            out.append('sw = rt.swval(%s)' % x)
            while not p.accept(']'):
                ct = p.ty()
                c = p.const(ct)
                p.expect(',')
                p.expect('label')
                lab = p.next()
                out.append('%s rt.sweq(sw,%d): %s' % ('if' if first else 'elif', c, jump(bi, lab)))
                first = False
            if first:
                out.append(jump(bi, dflt))
            else:
                out.append('else: ' + jump(bi, dflt))
            return out
        if op == 'unreachable':
            return ['rt.unreachable(%r)' % fn.name]
        if op == 'alloca':
            t = p.ty()
            mod.layout(t)
            n = '1'
            if p.accept(','):
                if p.peek() == 'align':
                    pass
                else:
                    it = p.ty()
                    n = operand(p, it)
            return ['%s = rt.alloca(%d, %s, %r, allocas)' % (dest, t.size, n, fn.name + ':' + (s.split(' ')[0]))]
        if op == 'load':
            flags()
            t = p.ty()
            p.expect(',')
            pt = p.ty()
            a = operand(p, pt)
            return ['%s = rt.load(%s, %d, %r)' % (dest, a, mod.layout(t).size, tk(t))]
        if op == 'store':
            flags()
            t = p.ty()
            x = operand(p, t)
            p.expect(',')
            pt = p.ty()
            a = operand(p, pt)
            return ['rt.store(%s, %d, %s, %r)' % (a, mod.layout(t).size, x, tk(t))]
        if op == 'getelementptr':
            flags()
            t = p.ty()
            p.expect(',')
            pt = p.ty()
            base = operand(p, pt)
            off = 0
            dyn = []
            mod.layout(t)
            cur = None
            first = True
            while p.accept(','):
                it = p.ty()
                x = operand(p, it)
                if first:
                    sz = t.size
                    cur = t
                    first = False
                elif cur.k == 'struct':
                    mod.layout(cur)
                    off += cur.offs[int(x)]
                    cur = cur.sub[int(x)]
                    continue
                else:
                    cur = cur.sub
                    mod.layout(cur)
                    sz = cur.size
                if re.fullmatch(r'-?[0-9]+', x):
                    off += int(x) * sz
                else:
                    dyn.append((x, sz))
            e = base
            for x, sz in dyn:
                e = 'rt.gep(%s, %s, %d)' % (e, x, sz)
            if off or not dyn:
                e = 'rt.gepc(%s, %d)' % (e, off) if off else e
            return ['%s = %s' % (dest, e)]
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            f = flags()
            t = p.ty()
            a = operand(p, t)
            p.expect(',')
            b = operand(p, t)
            if t.k != 'int':
                raise Unsupported('vector integer op')
            if t.w == 1:
                return ['%s = rt.b_%s(%s, %s)' % (dest, op, a, b)]
            return ['%s = rt.i_%s(%s, %s, %d, %d)' % (dest, op, a, b, t.w, (1 if 'nsw' in f else 0) | (2 if 'nuw' in f else 0))]
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags()
            t = p.ty()
            a = operand(p, t)
            p.expect(',')
            b = operand(p, t)
            if t.k == 'double':
                if op in ('fadd', 'fsub', 'fmul'):
                    o = {'fadd': '+', 'fsub': '-', 'fmul': '*'}[op]
                    return ['%s = (%s %s %s) if type(%s) is float and type(%s) is float else rt.f_%s(%s, %s)' % (dest, a, o, b, a, b, op, a, b)]
                return ['%s = rt.f_%s(%s, %s)' % (dest, op, a, b)]
            if t.k == 'float':
                return ['%s = rt.f32(rt.f_%s(%s, %s), 2)' % (dest, op, a, b)]
            raise Unsupported('fp op on %r' % t)
        if op == 'fneg':
            flags()
            t = p.ty()
            return ['%s = rt.f_neg(%s)' % (dest, operand(p, t))]
        if op == 'icmp':
            pred = p.next()
            t = p.ty()
            a = operand(p, t)
            p.expect(',')
            b = operand(p, t)
            if t.k == 'ptr':
                return ['%s = rt.pcmp(%r, %s, %s)' % (dest, pred, a, b)]
            return ['%s = rt.c_%s(%s, %s, %d)' % (dest, CMPI[pred], a, b, t.w)]
        if op == 'fcmp':
            flags()
            pred = p.next()
            while pred in PARAM_ATTRS:
                pred = p.next()
            t = p.ty()
            a = operand(p, t)
            p.expect(',')
            b = operand(p, t)
            return ['%s = rt.fcmp(%r, %s, %s)' % (dest, pred, a, b)]
        if op in ('sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            flags()
            t = p.ty()
            a = operand(p, t)
            p.expect('to')
            t2 = p.ty()
            if op in ('sext', 'zext', 'trunc'):
                return ['%s = rt.%s(%s, %d, %d)' % (dest, op, a, t.w, t2.w)]
            if op in ('fptosi', 'fptoui'):
                return ['%s = rt.%s(%s, %d)' % (dest, op, a, t2.w)]
            if op in ('sitofp', 'uitofp'):
                return ['%s = rt.%s(%s, %d, %r)' % (dest, op, a, t.w, t2.k)]
            if op == 'fpext':
                return ['%s = %s' % (dest, a)]
            if op == 'fptrunc':
                return ['%s = rt.f32(%s, 1)' % (dest, a)]
            if op == 'bitcast':
                return ['%s = rt.bitcast(%s, %r, %r)' % (dest, a, tk(t), tk(t2))]
            return ['%s = rt.%s(%s, %d)' % (dest, op, a, 64)]
        if op == 'select':
            flags()
            p.ty()
            c = operand(p, ity(1))
            p.expect(',')
            t = p.ty()
            a = operand(p, t)
            p.expect(',')
            t = p.ty()
            b = operand(p, t)
            return ['%s = (%s if (%s if type(%s) is bool else rt.branch(%s)) else %s)' % (dest, a, c, c, c, b)]
        if op == 'freeze':
            t = p.ty()
            return ['%s = %s' % (dest, operand(p, t))]
        if op == 'call':
            flags()
            # return attrs
            p.attrs()
            t = p.ty()
            callee = p.next()
            p.expect('(')
            args = []
            while not p.accept(')'):
                at = p.ty()
                if at.k == 'metadata':
                    # metadata operand: skip to , or )
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x == '(': d += 1
                        if x == ')': d -= 1
                    args.append('None')
                    p.accept(',')
                    continue
                p.attrs()
                args.append(operand(p, at))
                p.accept(',')
            if callee.startswith('@'):
                cn = callee[1:].strip('"')
                if cn.startswith('llvm.lifetime') or cn.startswith('llvm.dbg') or cn == 'llvm.stacksave.p0' or cn == 'llvm.stackrestore.p0':
                    return ['%s = NULL' % dest] if dest else []
                e = 'rt.call(%r, (%s))' % (cn, ''.join(a + ', ' for a in args))
            else:
                e = 'rt.callptr(%s, (%s))' % (v(callee), ''.join(a + ', ' for a in args))
            return ['%s%s' % (dest + ' = ' if dest else '', e)]
        if op == 'extractvalue':
            t = p.ty()
            a = operand(p, t)
            e = a
            while p.accept(','):
                e = e + '[%s]' % p.next()
            return ['%s = %s' % (dest, e)]
        if op == 'insertvalue':
            t = p.ty()
            a = operand(p, t)
            p.expect(',')
            t2 = p.ty()
            b = operand(p, t2)
            p.expect(',')
            i = p.next()
            n = len(t.sub) if t.k == 'struct' else t.n
            return ['%s = rt.insval(%s, %s, %s, %d)' % (dest, a, b, i, n)]
        raise Unsupported('instruction ' + op)


def tk(t):
    if t.k == 'int':
        return 'i%d' % t.w
    return {'double': 'd', 'float': 'f', 'ptr': 'p'}.get(t.k, t.k)
