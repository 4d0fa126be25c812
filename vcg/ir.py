"""LLVM textual IR reader (the subset clang -O0 emits), with lazy function bodies.

Types are tuples:  ('i',n) ('p',) ('f',32|64|80) ('v',) ('a',n,t) ('s',(t..),packed)
Named structs are resolved on sight, so two TUs' types never need comparing.
Operands:  ('c',int) ('r',name) ('g',name) ('n',) null ('u',) undef/poison/zeroinit
           ('gep',ty,base,idx..) ('agg',[..]) ('str',bytes) ('z',) zeroinitializer
           ('fc',bits) float constant  ('ce',op,...) other constant expression
"""
import re
import subprocess

TOK = re.compile(r'''
    \s+
  | (?P<comment>;[^\n]*)
  | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
  | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
  | (?P<flt>-?\d+\.\d+(?:e[+-]?\d+)?)
  | (?P<num>-?\d+)
  | (?P<meta>![\w.]*)
  | (?P<attr>\#\d+)
  | (?P<word>[A-Za-z_$][-\w.$]*)
  | (?P<punct>\.\.\.|[()\[\]{}<>=,*:])
''', re.X)


def lex(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError('IR lex: %r' % s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k is None or k == 'comment':
            continue
        out.append((k, m.group(k)))
    return out


def unq(name):
    name = name[1:]
    if name.startswith('"'):
        name = name[1:-1]
    return name


def cstr_bytes(t):
    t = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(t):
        if t[i] == '\\':
            if t[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(t[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(t[i]))
            i += 1
    return bytes(out)


I1, I8, I32, I64 = ('i', 1), ('i', 8), ('i', 32), ('i', 64)
PTR = ('p',)
VOID = ('v',)

PARAM_ATTRS = {
    'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'readnone',
    'writeonly', 'returned', 'immarg', 'inreg', 'writable', 'dead_on_unwind', 'nofree', 'noreturn',
    'nest', 'swiftself', 'allocptr', 'noext', 'inrange', 'inbounds', 'captures',
}
PARAM_ATTRS_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval',
                     'byref', 'elementtype', 'preallocated', 'inalloca', 'allocalign', 'range',
                     'captures', 'initializes', 'memory'}
CONV = {'fastcc', 'coldcc', 'ccc'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class Parser:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        t = self.next()
        if t[1] != v:
            raise SyntaxError('expected %s got %s near %s' % (v, t, self.t[max(0, self.i - 6):self.i + 6]))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'void':
                ty = VOID
            elif v == 'ptr':
                ty = PTR
                if self.accept('addrspace'):
                    self.skip_paren()
            elif v == 'float':
                ty = ('f', 32)
            elif v == 'double':
                ty = ('f', 64)
            elif v == 'x86_fp80':
                ty = ('f', 80)
            elif v == 'half':
                ty = ('f', 16)
            elif v == 'label' or v == 'metadata' or v == 'token':
                ty = (v,)
            elif v == 'opaque':
                ty = ('s', (), False)
            elif re.fullmatch(r'i\d+', v):
                ty = ('i', int(v[1:]))
            else:
                raise SyntaxError('type? %s' % v)
        elif k == 'loc':
            ty = self.m.named_type(unq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            ty = ('a', n, e)
        elif v == '{':
            ty = self.struct_body('}', False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                ty = self.struct_body('}', True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                ty = ('vec', n, e)
        else:
            raise SyntaxError('type? %s %s' % (k, v))
        # function type suffix:  T (args)   -- only used before a callee
        if self.peek()[1] == '(' and self.fn_type_ahead():
            self.skip_paren()
            ty = ('fn', ty)
        return ty

    def fn_type_ahead(self):
        return getattr(self, 'in_call', False)

    def struct_body(self, close, packed):
        elems = []
        if not self.accept(close):
            while True:
                elems.append(self.type())
                if self.accept(close):
                    break
                self.expect(',')
        return ('s', tuple(elems), packed)

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def attrs(self):
        """skip parameter attributes; returns the pointee type of a byval, else None"""
        byval = None
        while True:
            k, v = self.peek()
            if v == 'byval':
                self.next()
                self.expect('(')
                byval = self.type()
                self.expect(')')
            elif k == 'word' and v in PARAM_ATTRS_PAREN:
                self.next()
                if self.peek()[1] == '(':
                    self.skip_paren()
                elif v == 'align':
                    self.next()
            elif k == 'word' and v in PARAM_ATTRS:
                self.next()
            elif k == 'attr' or k == 'str':
                self.next()
                if self.peek()[1] == '=':
                    self.next()
                    self.next()
            else:
                return byval

    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('r', unq(v))
        if k == 'glob':
            return ('g', unq(v))
        if k == 'num':
            if ty[0] == 'f':
                return ('fc', float(v))
            n = int(v)
            return ('c', n & ((1 << ty[1]) - 1))
        if k == 'flt':
            return ('fc', float(v))
        if k == 'hex':
            import struct
            if v[2] in 'KLMHR':
                return ('fc', None)
            d = struct.unpack('>d', int(v, 16).to_bytes(8, 'big'))[0]
            return ('fcx', int(v, 16), d)
        if k == 'cstr':
            return ('str', cstr_bytes(v))
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v in ('null', 'none'):
                return ('n',)
            if v in ('undef', 'poison'):
                return ('u', ty)
            if v == 'zeroinitializer':
                return ('z', ty)
            if v == 'getelementptr':
                self.accept('inbounds')
                self.accept('nuw')
                while self.peek()[1] in ('inrange',):
                    self.next()
                    self.skip_paren()
                self.expect('(')
                sty = self.type()
                self.expect(',')
                bt = self.type()
                base = self.value(bt)
                idx = []
                while self.accept(','):
                    self.accept('inrange')
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.expect(')')
                return ('gep', sty, base, idx)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t1 = self.type()
                x = self.value(t1)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('cast', v, t1, x, t2)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.expect('(')
                t1 = self.type()
                a = self.value(t1)
                self.expect(',')
                t2 = self.type()
                b = self.value(t2)
                self.expect(')')
                return ('cebin', v, t1, a, b)
            if v in ('icmp',):
                raise SyntaxError('const icmp')
        if v == '[':
            el = []
            if not self.accept(']'):
                while True:
                    t = self.type()
                    el.append((t, self.value(t)))
                    if self.accept(']'):
                        break
                    self.expect(',')
            return ('agg', el)
        if v == '{' or v == '<':
            close = '}'
            if v == '<':
                if self.peek()[1] == '{':
                    self.next()
                else:
                    close = '>'
            el = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    el.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if v == '<' and close == '}':
                self.expect('>')
            return ('agg', el)
        raise SyntaxError('value? %s %s in %s' % (k, v, self.t[max(0, self.i - 8):self.i + 8]))

    def typed(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'mod', 'raw', 'ext')


class Function:
    def __init__(self, mod, name, header, lines):
        self.mod = mod
        self.name = name
        self.header = header
        self.lines = lines
        self._blocks = None
        self._params = None
        self._loops = None

    @property
    def demangled(self):
        return self.mod.demangle(self.name)

    def parse(self):
        if self._blocks is not None:
            return
        p = Parser(self.mod, lex(self.header))
        # find the '@name (' then parameters
        while not (p.peek()[0] == 'glob' and unq(p.peek()[1]) == self.name):
            p.next()
        p.next()
        p.expect('(')
        params = []
        self.vararg = False
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    self.vararg = True
                    p.expect(')')
                    break
                t = p.type()
                p.attrs()
                nm = None
                if p.peek()[0] == 'loc':
                    nm = unq(p.next()[1])
                params.append((t, nm))
                if p.accept(')'):
                    break
                p.expect(',')
        self._params = params
        blocks = {}
        order = []
        cur = None
        first = True
        i = 0
        L = self.lines
        while i < len(L):
            line = L[i]
            i += 1
            s = line.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w$.]+):', line)
            if m:
                cur = m.group(1)
                if cur.startswith('"'):
                    cur = cur[1:-1]
                blocks[cur] = []
                order.append(cur)
                first = False
                continue
            if first and cur is None:
                cur = '0'
                blocks[cur] = []
                order.append(cur)
                first = False
            # multi-line: switch, landingpad clauses, invoke
            if re.match(r'\s*switch ', line):
                while ']' not in L[i - 1]:
                    s += ' ' + L[i].strip()
                    i += 1
            elif ' = invoke ' in line or s.startswith('invoke '):
                s += ' ' + L[i].strip()
                i += 1
            elif ' = landingpad ' in line:
                while i < len(L) and re.match(r'\s+(cleanup|catch|filter)', L[i]):
                    i += 1
            blocks[cur].append(s)
        self._raw = blocks
        self._order = order
        self._blocks = {}
        self.entry = order[0]

    @property
    def params(self):
        self.parse()
        return self._params

    def block(self, name):
        b = self._blocks.get(name) if self._blocks is not None else None
        if b is None:
            self.parse()
            b = self._blocks.get(name)
            if b is None:
                b = [parse_inst(self.mod, s) for s in self._raw[name]]
                self._blocks[name] = b
        return b

    def succs(self, name):
        t = self.block(name)[-1]
        op = t[0]
        if op == 'br':
            return [t[1]]
        if op == 'cbr':
            return [t[2], t[3]]
        if op == 'switch':
            return [t[3]] + [l for _, l in t[4]]
        if op == 'invoke':
            return [t[5]]      # exceptions are not modelled: normal edge only
        return []

    def loops(self):
        """header -> set of blocks (natural loops, normal edges only)."""
        if self._loops is not None:
            return self._loops
        self.parse()
        # DFS reachable
        order = []
        seen = set()
        stack = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(n)
                stack.pop()
        rpo = order[::-1]
        preds = {n: [] for n in rpo}
        for n in rpo:
            for s in self.succs(n):
                preds[s].append(n)
        dom = {n: set(rpo) for n in rpo}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for n in rpo[1:]:
                d = None
                for p in preds[n]:
                    d = dom[p] if d is None else d & dom[p]
                d = (d or set()) | {n}
                if d != dom[n]:
                    dom[n] = d
                    ch = True
        loops = {}
        for n in rpo:
            for s in self.succs(n):
                if s in dom[n]:
                    body = loops.setdefault(s, {s})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops = loops
        return loops


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or',
       'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
         'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}


def parse_inst(mod, s):
    p = Parser(mod, lex(s))
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = unq(p.next()[1])
        p.next()
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    if op == 'alloca':
        p.accept('inalloca')
        ty = p.type()
        cnt = None
        if p.accept(',') and p.peek()[0] == 'word' and re.fullmatch(r'i\d+', p.peek()[1]):
            t = p.type()
            cnt = p.value(t)
        return ('alloca', dst, ty, cnt)
    if op == 'load':
        p.accept('volatile')
        p.accept('atomic')
        ty = p.type()
        p.expect(',')
        p.type()
        return ('load', dst, ty, p.value(PTR))
    if op == 'store':
        p.accept('volatile')
        p.accept('atomic')
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.type()
        return ('store', t, v, p.value(PTR))
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        sty = p.type()
        p.expect(',')
        bt = p.type()
        base = p.value(bt)
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            it = p.type()
            idx.append((it, p.value(it)))
        return ('gep', dst, sty, base, idx)
    if op in BIN:
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek()[1] in FMF:
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return ('bin', dst, op, t, a, b)
    if op == 'fneg':
        while p.peek()[1] in FMF:
            p.next()
        t = p.type()
        return ('fneg', dst, t, p.value(t))
    if op == 'freeze':
        t = p.type()
        return ('freeze', dst, t, p.value(t))
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FMF or p.peek()[1] == 'samesign':
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return (op, dst, pred, t, a, b)
    if op in CASTS:
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
            p.next()
        t1 = p.type()
        a = p.value(t1)
        p.expect('to')
        t2 = p.type()
        return ('cast', dst, op, t1, a, t2)
    if op == 'phi':
        while p.peek()[1] in FMF:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = unq(p.next()[1])
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
            if p.peek()[0] == 'meta':
                break
        return ('phi', dst, t, inc)
    if op == 'select':
        while p.peek()[1] in FMF:
            p.next()
        ct, c = p.typed()
        p.expect(',')
        t, a = p.typed()
        p.expect(',')
        _, b = p.typed()
        return ('select', dst, t, c, a, b)
    if op == 'br':
        if p.peek()[1] == 'label':
            p.next()
            return ('br', unq(p.next()[1]))
        p.type()
        c = p.value(I1)
        p.expect(',')
        p.expect('label')
        a = unq(p.next()[1])
        p.expect(',')
        p.expect('label')
        b = unq(p.next()[1])
        return ('cbr', c, a, b)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = unq(p.next()[1])
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], unq(p.next()[1])))
        return ('switch', t, v, d, cases)
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return ('ret', VOID, None)
        return ('ret', t, p.value(t))
    if op in ('call', 'invoke'):
        while p.peek()[1] in FMF or p.peek()[1] in CONV:
            p.next()
        p.attrs()
        p.in_call = True
        rt = p.type()
        p.in_call = False
        if rt[0] == 'fn':
            rt = rt[1]
        callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                t = p.type()
                ic, p.in_call = p.in_call, False
                bv = p.attrs()
                p.in_call = ic
                if t[0] == 'metadata':
                    while p.peek()[1] not in (',', ')'):
                        p.next()
                    args.append((t, None, None))
                else:
                    args.append((t, p.value(t), bv))
                if p.accept(')'):
                    break
                p.expect(',')
        if op == 'call':
            return ('call', dst, rt, callee, args)
        while p.peek()[1] != 'to':
            p.next()
        p.next()
        p.expect('label')
        normal = unq(p.next()[1])
        return ('invoke', dst, rt, callee, args, normal)
    if op == 'extractvalue':
        t = p.type()
        a = p.value(t)
        idx = []
        while p.accept(','):
            if p.peek()[0] != 'num':
                break
            idx.append(int(p.next()[1]))
        return ('extractvalue', dst, t, a, idx)
    if op == 'insertvalue':
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        idx = []
        while p.accept(','):
            if p.peek()[0] != 'num':
                break
            idx.append(int(p.next()[1]))
        return ('insertvalue', dst, t, a, t2, b, idx)
    if op == 'unreachable':
        return ('unreachable',)
    if op == 'landingpad':
        return ('landingpad', dst)
    if op == 'resume':
        return ('resume',)
    if op == 'fence':
        return ('nop',)
    return ('unsupported', op, s)


class Module:
    def __init__(self, text):
        self.types = {}
        self.rawtypes = {}
        self.globals = {}
        self.rawglobals = {}
        self.functions = {}
        self.declared = {}
        self.aliases = {}
        self._dem = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', l)
                nm = m.group(1).strip('"')
                self.functions[nm] = Function(self, nm, l, lines[i + 1:j])
                i = j
            elif l.startswith('%'):
                m = re.match(r'^%("(?:[^"\\]|\\.)*"|[-\w$.]+) = type (.*)$', l)
                self.rawtypes[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'^@("(?:[^"\\]|\\.)*"|[-\w$.]+) = (.*)$', l)
                nm = m.group(1).strip('"')
                rest = m.group(2)
                if re.match(r'.*\b(alias)\b', rest.split('{')[0].split('"')[0]):
                    mm = re.search(r'alias .*@("(?:[^"\\]|\\.)*"|[-\w$.]+)$', rest.split(', partition')[0])
                    if mm:
                        self.aliases[nm] = mm.group(1).strip('"')
                        i += 1
                        continue
                self.rawglobals[nm] = rest
            elif l.startswith('declare'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', l)
                self.declared[m.group(1).strip('"')] = l
            i += 1
        self._demangle_all()

    def _demangle_all(self):
        names = list(self.functions) + list(self.declared) + list(self.rawglobals)
        r = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names),
                           capture_output=True, text=True)
        for a, b in zip(names, r.stdout.split('\n')):
            self._dem[a] = b

    def demangle(self, n):
        return self._dem.get(n, n)

    def named_type(self, name):
        t = self.types.get(name)
        if t is None:
            raw = self.rawtypes[name]
            self.types[name] = ('s', (), False)   # recursion is impossible with opaque pointers
            t = Parser(self, lex(raw)).type()
            self.types[name] = t
        return t

    def get_global(self, name):
        g = self.globals.get(name)
        if g is None:
            raw = self.rawglobals[name]
            p = Parser(self, lex(raw))
            while p.peek()[1] not in ('global', 'constant'):
                if p.peek()[1] == 'comdat':
                    p.next()
                p.next()
            g = Global()
            g.name = name
            g.const = p.next()[1] == 'constant'
            g.ext = bool(re.match(r'^(external|extern_weak|available_externally)\b', raw))
            g.ty = p.type()
            g.init = None
            if not g.ext and p.peek()[1] not in (',', None):
                g.init = p.value(g.ty)
            self.globals[name] = g
        return g

    # ---- layout
    _sizes = {}
    _aligns = {}

    def sizeof(self, t):
        r = self._sizes.get(id(t))
        if r is None or r[0] is not t:
            r = self._sizes[id(t)] = (t, self._sizeof(t))
        return r[1]

    def alignof(self, t):
        r = self._aligns.get(id(t))
        if r is None or r[0] is not t:
            r = self._aligns[id(t)] = (t, self._alignof(t))
        return r[1]

    def _sizeof(self, t):
        k = t[0]
        if k == 'i':
            n = t[1]
            b = (n + 7) // 8
            s = 1
            while s < b:
                s *= 2
            return s
        if k == 'p':
            return 8
        if k == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16}[t[1]]
        if k == 'a':
            return t[1] * self.sizeof(t[2])
        if k == 'vec':
            return t[1] * self.sizeof(t[2])
        if k == 's':
            off = 0
            mx = 1
            for e in t[1]:
                if not t[2]:
                    a = self.alignof(e)
                    mx = max(mx, a)
                    off = (off + a - 1) // a * a
                off += self.sizeof(e)
            return (off + mx - 1) // mx * mx
        raise TypeError(t)

    def _alignof(self, t):
        k = t[0]
        if k in ('i', 'p', 'f'):
            return min(self.sizeof(t), 16)
        if k in ('a', 'vec'):
            return self.alignof(t[2])
        if k == 's':
            if t[2] or not t[1]:
                return 1
            return max(self.alignof(e) for e in t[1])
        raise TypeError(t)

    def field_off(self, t, i):
        off = 0
        for j, e in enumerate(t[1]):
            if not t[2]:
                a = self.alignof(e)
                off = (off + a - 1) // a * a
            if j == i:
                return off
            off += self.sizeof(e)
        raise IndexError
