"""Parser for the textual LLVM IR (LLVM 18) that clang/opt print.

Only the instructions that occur in the extracted code are given structure; anything else is kept as
an 'unknown' instruction, which the executor reports as outside its reach.
"""
import re

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<comment>;[^\n]*)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|0x[0-9A-Fa-fKLMHR]+|-?[0-9]+)
 | (?P<id>[a-zA-Z_][-a-zA-Z_0-9.]*)
 | (?P<p>\.\.\.|[(){}\[\]<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('llparse: cannot tokenize: %r' % s[i:i + 60])
        k = m.lastgroup
        if k not in ('ws', 'comment'):
            out.append((k, m.group()))
        i = m.end()
    return out


def uq(name):
    """%"x" -> x ; %x -> x"""
    name = name[1:]
    if name.startswith('"'):
        name = name[1:-1]
    return name


# types: ('int',n) ('ptr',) ('double',) ('float',) ('void',) ('array',n,T) ('struct',(T..),packed)
# ('named',n) ('vector',n,T) ('label',) ('metadata',)

PARAM_ATTRS_PAREN = {'byval', 'sret', 'align', 'dereferenceable', 'dereferenceable_or_null', 'captures',
                     'byref', 'inalloca', 'elementtype', 'preallocated', 'nofpclass', 'memory', 'allocsize',
                     'range', 'allockind', 'alignstack', 'uwtable', 'vscale_range', 'initializes'}


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def at(self, v):
        return self.peek()[1] == v

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise SyntaxError('expected %r got %r in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t)[:300]))

    def done(self):
        return self.i >= len(self.t)

    # ---- types
    def type(self):
        k, v = self.next()
        if k == 'id':
            if re.fullmatch(r'i[0-9]+', v):
                t = ('int', int(v[1:]))
            elif v == 'ptr':
                t = ('ptr',)
                if self.at('addrspace'):
                    self.next(); self.expect('('); self.next(); self.expect(')')
            elif v in ('double', 'float', 'void', 'label', 'metadata', 'half', 'x86_fp80', 'opaque', 'fp128', 'token'):
                t = (v,)
            else:
                raise SyntaxError('type? %r in %s' % (v, ' '.join(x[1] for x in self.t)[:300]))
        elif k == 'local':
            t = ('named', uq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('array', n, e)
        elif v == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            t = ('struct', tuple(fs), False)
        elif v == '<':
            if self.at('{'):
                self.next()
                fs = []
                if not self.eat('}'):
                    while True:
                        fs.append(self.type())
                        if self.eat('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = ('struct', tuple(fs), True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vector', n, e)
        else:
            raise SyntaxError('type? %r' % v)
        # function type
        if self.at('('):
            depth = 0
            while True:
                x = self.next()[1]
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            t = ('func', t)
        return t

    def skip_attrs(self):
        """parameter / return attributes before a value"""
        while True:
            k, v = self.peek()
            if k == 'id' and (v in PARAM_ATTRS_PAREN) and self.peek(1)[1] == '(':
                self.next()
                self.paren()
            elif k == 'id' and v == 'align' and self.peek(1)[0] == 'num':
                self.next(); self.next()
            elif k == 'id' and v in ('noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'noalias',
                                     'signext', 'zeroext', 'inreg', 'returned', 'nofree', 'nest', 'swiftself', 'immarg',
                                     'noext', 'inrange', 'dead_on_unwind', 'writable', 'allocptr', 'dso_local',
                                     'noinline'):
                self.next()
            elif k == 'attr':
                self.next()
            else:
                return

    def paren(self):
        depth = 0
        while True:
            x = self.next()[1]
            if x in '([{' and len(x) == 1:
                depth += 1
            elif x in ')]}' and len(x) == 1:
                depth -= 1
                if depth == 0:
                    return

    # ---- values
    def value(self, t):
        k, v = self.next()
        if k == 'local':
            return ('local', t, uq(v))
        if k == 'glob':
            return ('global', t, uq(v))
        if k == 'num':
            if t[0] in ('double', 'float'):
                return ('const', t, ('fp', v))
            return ('const', t, int(v, 0))
        if k == 'meta':
            if self.at('{') or self.at('('):
                self.paren()
            return ('meta', t, v)
        if k == 'str':
            raw = v[2:-1] if v.startswith('c') else v[1:-1]
            out = []
            i = 0
            while i < len(raw):
                if raw[i] == '\\':
                    if raw[i + 1] == '\\':
                        out.append(92); i += 2
                    else:
                        out.append(int(raw[i + 1:i + 3], 16)); i += 3
                else:
                    out.append(ord(raw[i])); i += 1
            return ('const', t, ('bytes', bytes(x & 255 for x in out)))
        if k == 'id':
            if v == 'true':
                return ('const', t, 1)
            if v == 'false':
                return ('const', t, 0)
            if v == 'null':
                return ('const', t, ('null',))
            if v in ('undef', 'poison'):
                return ('const', t, ('undef',))
            if v == 'zeroinitializer':
                return ('const', t, ('zero',))
            if v == 'none':
                return ('const', t, ('zero',))
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.value(t)
            # constant expression
            op = v
            flags = []
            while self.peek()[0] == 'id' and not self.at('('):
                flags.append(self.next()[1])
                if flags[-1] == 'inrange' and self.at('('):
                    self.paren()
            if self.at('('):
                self.next()
                if op == 'getelementptr':
                    st = self.type()
                    self.expect(',')
                    ops = []
                    while True:
                        self.eat('inrange')
                        vt = self.type()
                        ops.append(self.value(vt))
                        if self.eat(')'):
                            break
                        self.expect(',')
                    return ('cexpr', t, ('gep', st, ops))
                if op in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                    vt = self.type()
                    x = self.value(vt)
                    self.expect('to')
                    tt = self.type()
                    self.expect(')')
                    return ('cexpr', t, ('cast', op, x, tt))
                ops = []
                while True:
                    vt = self.type()
                    ops.append(self.value(vt))
                    if self.eat(')'):
                        break
                    self.expect(',')
                return ('cexpr', t, (op, ops))
        if v in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[v]
            packed = False
            if v == '<' and self.at('{'):
                self.next()
                packed = True
                close = '}'
            items = []
            if not self.eat(close):
                while True:
                    vt = self.type()
                    items.append(self.value(vt))
                    if self.eat(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('const', t, ('agg', items))
        raise SyntaxError('value? %r %r in %s' % (k, v, ' '.join(x[1] for x in self.t)[:300]))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return self.value(t)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'text')

    def __init__(self, op, res=None, ty=None, ops=(), x=None, text=''):
        self.op = op
        self.res = res
        self.ty = ty
        self.ops = ops
        self.x = x
        self.text = text

    def __repr__(self):
        return self.text


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext',
         'fptrunc', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg',
         'inbounds', 'nusw', 'samesign'}


def parse_call(p, res, text, invoke=False):
    while p.peek()[0] == 'id' and p.peek()[1] in FLAGS | {'fastcc', 'ccc', 'coldcc', 'tail', 'musttail', 'notail', 'call', 'invoke'}:
        p.next()
    p.skip_attrs()
    rt = p.type()
    if rt[0] == 'func':
        rt = rt[1]
    p.skip_attrs()
    k, v = p.peek()
    if k == 'id' and v == 'asm':
        return Instr('unknown', res, rt, (), None, text)
    callee = p.value(('ptr',))
    p.expect('(')
    args = []
    byval = []
    if not p.eat(')'):
        while True:
            t = p.type()
            start = p.i
            p.skip_attrs()
            seen = [x[1] for x in p.t[start:p.i]]
            if t[0] == 'metadata':
                # metadata operand, skip
                args.append(p.value(t))
            else:
                args.append(p.value(t))
            byval.append('byval' in seen)
            if p.eat(')'):
                break
            p.expect(',')
    noreturn = False
    x = {'callee': callee, 'byval': byval}
    if invoke:
        while not p.at('to'):
            p.next()
        p.next(); p.expect('label')
        x['normal'] = uq(p.next()[1])
        p.expect('unwind'); p.expect('label')
        x['unwind'] = uq(p.next()[1])
    else:
        x['attrs'] = [z[1] for z in p.t[p.i:]]
    return Instr('invoke' if invoke else 'call', res, rt, args, x, text)


def parse_instr(line):
    p = P(tokenize(line))
    res = None
    if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
        res = uq(p.next()[1])
        p.next()
    k, op = p.next()
    try:
        if op in BINOPS:
            flags = []
            while p.peek()[0] == 'id' and p.peek()[1] in FLAGS:
                flags.append(p.next()[1])
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Instr(op, res, t, (a, b), flags, line)
        if op == 'fneg':
            while p.peek()[1] in FLAGS:
                p.next()
            t = p.type()
            return Instr(op, res, t, (p.value(t),), None, line)
        if op in ('icmp', 'fcmp'):
            pred = p.next()[1]
            while p.peek()[0] == 'id' and pred in FLAGS:
                pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Instr(op, res, ('int', 1), (a, b), pred, line)
        if op in CASTS:
            flags = []
            while p.peek()[1] in FLAGS:
                flags.append(p.next()[1])
            a = p.tv()
            p.expect('to')
            t = p.type()
            return Instr(op, res, t, (a,), flags, line)
        if op == 'alloca':
            p.eat('inalloca')
            t = p.type()
            n = ('const', ('int', 64), 1)
            while p.eat(','):
                if p.at('align'):
                    p.next(); p.next()
                elif p.peek()[0] == 'meta':
                    break
                else:
                    n = p.tv()
            return Instr(op, res, ('ptr',), (n,), t, line)
        if op == 'load':
            p.eat('atomic'); p.eat('volatile')
            t = p.type()
            p.expect(',')
            a = p.tv()
            return Instr(op, res, t, (a,), None, line)
        if op == 'store':
            p.eat('atomic'); p.eat('volatile')
            v = p.tv()
            p.expect(',')
            a = p.tv()
            return Instr(op, None, None, (v, a), None, line)
        if op == 'getelementptr':
            while p.peek()[1] in FLAGS:
                p.next()
            st = p.type()
            p.expect(',')
            ops = [p.tv()]
            while p.eat(','):
                if p.peek()[0] == 'meta':
                    break
                p.eat('inrange')
                ops.append(p.tv())
            return Instr(op, res, ('ptr',), ops, st, line)
        if op == 'select':
            while p.peek()[1] in FLAGS:
                p.next()
            c = p.tv(); p.expect(',')
            a = p.tv(); p.expect(',')
            b = p.tv()
            return Instr(op, res, a[1], (c, a, b), None, line)
        if op == 'phi':
            while p.peek()[1] in FLAGS:
                p.next()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                b = uq(p.next()[1])
                p.expect(']')
                inc.append((v, b))
                if not p.eat(','):
                    break
                if p.peek()[0] == 'meta':
                    break
            return Instr(op, res, t, inc, None, line)
        if op == 'br':
            if p.eat('label'):
                return Instr(op, None, None, (), [uq(p.next()[1])], line)
            c = p.tv()
            p.expect(','); p.expect('label')
            a = uq(p.next()[1])
            p.expect(','); p.expect('label')
            b = uq(p.next()[1])
            return Instr(op, None, None, (c,), [a, b], line)
        if op == 'switch':
            v = p.tv()
            p.expect(','); p.expect('label')
            d = uq(p.next()[1])
            p.expect('[')
            cases = []
            while not p.eat(']'):
                c = p.tv()
                p.expect(','); p.expect('label')
                cases.append((c, uq(p.next()[1])))
            return Instr(op, None, None, (v,), (d, cases), line)
        if op == 'ret':
            if p.eat('void'):
                return Instr(op, None, None, (), None, line)
            return Instr(op, None, None, (p.tv(),), None, line)
        if op in ('call', 'tail', 'musttail', 'notail'):
            return parse_call(p, res, line)
        if op == 'invoke':
            return parse_call(p, res, line, True)
        if op == 'unreachable':
            return Instr(op, text=line)
        if op == 'landingpad':
            t = p.type()
            return Instr(op, res, t, (), None, line)
        if op == 'resume':
            return Instr(op, None, None, (p.tv(),), None, line)
        if op == 'extractvalue':
            a = p.tv()
            idx = []
            while p.eat(','):
                if p.peek()[0] == 'meta':
                    break
                idx.append(int(p.next()[1]))
            return Instr(op, res, None, (a,), idx, line)
        if op == 'insertvalue':
            a = p.tv(); p.expect(',')
            b = p.tv()
            idx = []
            while p.eat(','):
                if p.peek()[0] == 'meta':
                    break
                idx.append(int(p.next()[1]))
            return Instr(op, res, a[1], (a, b), idx, line)
        if op == 'freeze':
            a = p.tv()
            return Instr(op, res, a[1], (a,), None, line)
    except SyntaxError:
        raise
    return Instr('unknown', res, None, (), None, line)


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []      # (name, type, byval?)
        self.ret = None
        self.blocks = {}      # label -> [Instr]
        self.order = []
        self.defined = False


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> (type, init value or None, const)
        self.functions = {}

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            n = (t[1] + 7) // 8
            a = 1
            while a < n and a < 16:
                a *= 2
            return a
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'array':
            return self.align(t[2])
        if k == 'struct':
            if t[2]:
                return 1
            return max([self.align(f) for f in t[1]] or [1])
        if k == 'vector':
            return max(1, self.size(t))
        raise ValueError(t)

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            return (t[1] + 7) // 8
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'array':
            return t[1] * self.alloc_size(t[2])
        if k == 'vector':
            return t[1] * self.size(t[2])
        if k == 'struct':
            off = 0
            for f in t[1]:
                if not t[2]:
                    a = self.align(f)
                    off = (off + a - 1) // a * a
                off += self.alloc_size(f)
            a = self.align(t)
            return (off + a - 1) // a * a
        raise ValueError(t)

    def alloc_size(self, t):
        s = self.size(t)
        a = self.align(t)
        return (s + a - 1) // a * a

    def field_offset(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, f in enumerate(t[1]):
            if not t[2]:
                a = self.align(f)
                off = (off + a - 1) // a * a
            if j == i:
                return off
            off += self.alloc_size(f)
        raise IndexError


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            name, rest = l.split(' = type ', 1)
            if rest.strip() == 'opaque':
                m.types[uq(name)] = ('struct', (), False)
            else:
                m.types[uq(name)] = P(tokenize(rest)).type()
        elif l.startswith('@'):
            try:
                parse_global(m, l)
            except SyntaxError:
                pass
        elif l.startswith('declare '):
            f = parse_header(l)
            m.functions.setdefault(f.name, f)
        elif l.startswith('define '):
            f = parse_header(l)
            f.defined = True
            i += 1
            cur = None
            nparams_unnamed = len(f.params)
            while lines[i] != '}':
                s = lines[i]
                st = s.strip()
                if not st or st.startswith(';'):
                    i += 1
                    continue
                mm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s)
                if mm:
                    cur = mm.group(1).strip('"')
                    f.blocks[cur] = []
                    f.order.append(cur)
                    i += 1
                    continue
                if cur is None:
                    cur = f.entry_name
                    f.blocks[cur] = []
                    f.order.append(cur)
                # continuation lines
                if st.startswith('switch') and not st.rstrip().endswith(']'):
                    while ']' not in lines[i + 1]:
                        i += 1
                        st += ' ' + lines[i].strip()
                    i += 1
                    st += ' ' + lines[i].strip()
                elif ' invoke ' in ' ' + st:
                    i += 1
                    st += ' ' + lines[i].strip()
                elif 'landingpad' in st:
                    while re.match(r'^\s+(catch|cleanup|filter)\b', lines[i + 1]):
                        i += 1
                        st += ' ' + lines[i].strip()
                f.blocks[cur].append(st)
                i += 1
            m.functions[f.name] = f
        i += 1
    for f in m.functions.values():
        f.parsed = False
    return m


def ensure_parsed(f):
    if not f.parsed:
        for b in f.order:
            f.blocks[b] = [parse_instr(s) for s in f.blocks[b]]
        f.parsed = True


def parse_header(l):
    m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
    name = m.group(1).strip('"')
    f = Function(name)
    # return type: token just before @name, parse from after linkage words is fiddly; find via trial
    pre = l[:m.start()]
    toks = tokenize(pre)
    # drop leading words until a type parses to the end
    for s in range(1, len(toks)):
        p = P(toks[s:])
        try:
            t = p.type()
            if p.done():
                f.ret = t
                break
        except (SyntaxError, IndexError, KeyError, ValueError):
            pass
    p = P(tokenize(l[m.end() - 1:]))
    p.expect('(')
    unnamed = 0
    if not p.eat(')'):
        while True:
            if p.eat('...'):
                p.expect(')')
                break
            t = p.type()
            start = p.i
            p.skip_attrs()
            seen = [x[1] for x in p.t[start:p.i]]
            nm = None
            if p.peek()[0] == 'local':
                nm = uq(p.next()[1])
            else:
                nm = str(unnamed)
            unnamed += 1
            f.params.append((nm, t, 'byval' in seen))
            if p.eat(')'):
                break
            p.expect(',')
    f.entry_name = str(len(f.params))
    f.attrs = l
    return f


def parse_global(m, l):
    mm = re.match(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = ', l)
    name = mm.group(1).strip('"')
    rest = l[mm.end():]
    w = re.search(r'\b(global|constant)\b', rest)
    if not w:
        return
    p = P(tokenize(rest[w.end():]))
    t = p.type()
    init = None
    if not p.done() and not p.at(','):
        try:
            init = p.value(t)
        except SyntaxError:
            init = None
    m.globals[name] = (t, init, w.group(1) == 'constant')
