"""Concrete interpreter of the extracted LLVM IR.

Used only to *guess*: it runs the very functions under contract on small random inputs and records, at every loop
head, the values from which invariant candidates are mined.  Nothing it computes is trusted: every candidate has to be
proved inductive by the solver before it is used.
"""
import struct
import random
from llparse import ensure_parsed


class Reject(Exception):
    pass


class Crash(Exception):
    pass


class Thrown(Exception):
    pass


class Budget(Exception):
    pass


class CUnsupported(Exception):
    pass


SH = 34
MASK = (1 << SH) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


class CBlock:
    __slots__ = ('id', 'key', 'size', 'mem', 'alive', 'init', 'base')

    def __init__(self, id, key, size, init):
        self.id = id
        self.key = key
        self.size = size
        self.mem = bytearray(size)
        self.alive = True
        self.base = id << SH


class Interp:
    def __init__(self, mod, rng, max_steps=400000):
        self.m = mod
        self.rng = rng
        self.max_steps = max_steps
        self.strs = {}
        self.reset()

    def reset(self):
        self.blocks = [None]
        self.ver = 0
        self.ghost = 0
        self.ghost_read = set()
        self.memo = {}
        self.memo_ver = 0
        self.bykey = {}
        self.globals = {}
        self.steps = 0
        self.inputs = {}
        self.in_blocks = {}
        self.asserts = []
        self.covers = set()
        self.preds = {}
        self.fns = {}
        self.fns2 = {}
        self.cells = {}
        self.vals = {}
        self.header_cb = None
        self.failures = []
        self.threw = None
        self.throw_ok = None
        self.files = None

    # ---- memory
    def new_block(self, key, size):
        if size > 1 << 24:
            raise Reject('huge allocation')
        b = CBlock(len(self.blocks), key, size, False)
        self.blocks.append(b)
        self.bykey[key] = b
        return b

    def block(self, addr, n):
        i = addr >> SH
        if i <= 0 or i >= len(self.blocks):
            raise Crash('wild pointer %x' % addr)
        b = self.blocks[i]
        o = addr & MASK
        if o + n > b.size:
            raise Crash('out of bounds %s[%d..%d) size %d' % (b.key, o, o + n, b.size))
        if not b.alive:
            raise Crash('use after free %s' % b.key)
        return b, o

    def load(self, addr, ty):
        if self.ghost:
            self.ghost_read.add(addr >> SH)
        ty = self.m.resolve(ty)
        k = ty[0]
        if k == 'int':
            n = (ty[1] + 7) // 8
            b, o = self.block(addr, n)
            v = int.from_bytes(b.mem[o:o + n], 'little')
            return v & ((1 << ty[1]) - 1)
        if k == 'ptr':
            b, o = self.block(addr, 8)
            return int.from_bytes(b.mem[o:o + 8], 'little')
        if k == 'double':
            b, o = self.block(addr, 8)
            return struct.unpack('<d', bytes(b.mem[o:o + 8]))[0]
        if k == 'float':
            b, o = self.block(addr, 4)
            return struct.unpack('<f', bytes(b.mem[o:o + 4]))[0]
        if k == 'struct':
            return [self.load(addr + self.m.field_offset(ty, i), f) for i, f in enumerate(ty[1])]
        if k == 'array':
            s = self.m.alloc_size(ty[2])
            return [self.load(addr + s * i, ty[2]) for i in range(ty[1])]
        raise CUnsupported('load ' + str(ty))

    def store(self, addr, ty, v):
        if not self.ghost and (addr >> SH) in self.ghost_read:
            self.ver += 1
        ty = self.m.resolve(ty)
        k = ty[0]
        if k == 'int':
            n = (ty[1] + 7) // 8
            b, o = self.block(addr, n)
            b.mem[o:o + n] = v.to_bytes(n, 'little')
        elif k == 'ptr':
            b, o = self.block(addr, 8)
            b.mem[o:o + 8] = v.to_bytes(8, 'little')
        elif k == 'double':
            b, o = self.block(addr, 8)
            b.mem[o:o + 8] = struct.pack('<d', v)
        elif k == 'float':
            b, o = self.block(addr, 4)
            b.mem[o:o + 4] = struct.pack('<f', v)
        elif k == 'struct':
            for i, f in enumerate(ty[1]):
                self.store(addr + self.m.field_offset(ty, i), f, v[i])
        elif k == 'array':
            s = self.m.alloc_size(ty[2])
            for i in range(ty[1]):
                self.store(addr + s * i, ty[2], v[i])
        else:
            raise CUnsupported('store ' + str(ty))

    def zero(self, ty):
        ty = self.m.resolve(ty)
        if ty[0] in ('double', 'float'):
            return 0.0
        if ty[0] == 'struct':
            return [self.zero(f) for f in ty[1]]
        if ty[0] == 'array':
            return [self.zero(ty[2]) for _ in range(ty[1])]
        return 0

    def cstr(self, addr):
        s = b''
        while True:
            b, o = self.block(addr, 1)
            if b.mem[o] == 0:
                return s.decode('latin1')
            s += bytes([b.mem[o]])
            addr += 1

    def glob(self, name):
        if name in self.globals:
            return self.globals[name]
        if name in self.m.functions:
            b = CBlock(len(self.blocks), 'fn:' + name, 0, True)
            self.blocks.append(b)
            self.globals[name] = b.base
            return b.base
        if name not in self.m.globals:
            raise CUnsupported('global ' + name)
        ty, init, const = self.m.globals[name]
        b = self.new_block('g:' + name, self.m.alloc_size(ty))
        self.globals[name] = b.base
        if init is not None:
            self.store(b.base, ty, self.constval(init))
        return b.base

    def constval(self, v):
        kind, ty, x = v
        if kind == 'global':
            return self.glob(x)
        if kind == 'const':
            if isinstance(x, int):
                rt = self.m.resolve(ty)
                return x & ((1 << rt[1]) - 1) if rt[0] == 'int' else x
            if x[0] == 'null':
                return 0
            if x[0] in ('undef', 'zero'):
                return self.zero(ty)
            if x[0] == 'bytes':
                return list(x[1])
            if x[0] == 'agg':
                return [self.constval(e) for e in x[1]]
            if x[0] == 'fp':
                return parse_fp(x[1])
        if kind == 'cexpr':
            if x[0] == 'gep':
                base = self.constval(x[2][0])
                return base + self.gep_off(x[1], [sgn(self.constval(o), o[1][1]) for o in x[2][1:]])
            if x[0] == 'cast':
                return self.constval(x[2])
        raise CUnsupported('const %r' % (v,))

    def gep_off(self, st, idx):
        off = idx[0] * self.m.alloc_size(st)
        t = st
        for i in idx[1:]:
            t = self.m.resolve(t)
            if t[0] == 'struct':
                off += self.m.field_offset(t, i)
                t = t[1][i]
            else:
                off += i * self.m.alloc_size(t[2])
                t = t[2]
        return off

    # ---- execution
    def call(self, fname, args, top=False):
        f = self.m.functions.get(fname)
        if f is None or not f.defined:
            return self.external(fname, args)
        if fname.startswith('vpspec'):
            # ghost functions are pure: remember their values until the program writes to memory
            if self.memo_ver != self.ver:
                self.memo = {}
                self.memo_ver = self.ver
            k = (fname, tuple(args))
            r = self.memo.get(k)
            if r is None:
                self.ghost += 1
                try:
                    r = self.memo[k] = self.call_(f, fname, args)
                finally:
                    self.ghost -= 1
            return r
        return self.call_(f, fname, args, top)

    def call_(self, f, fname, args, top=False):
        ensure_parsed(f)
        env = {}
        for (n, t, bv), a in zip(f.params, args):
            env[n] = a
        mystack = []
        label = f.order[0]
        prev = None
        hdrs = self.headers if top else None
        while True:
            blk = f.blocks[label]
            # phis
            i = 0
            vals = []
            while blk[i].op == 'phi':
                ins = blk[i]
                for v, b in ins.ops:
                    if b == prev:
                        vals.append((ins.res, self.val(v, env)))
                        break
                else:
                    raise CUnsupported('phi without edge')
                i += 1
            for r, v in vals:
                env[r] = v
            if hdrs is not None and label in hdrs:
                self.on_header(label, prev, env)
            while True:
                ins = blk[i]
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget()
                op = ins.op
                if op == 'br':
                    prev = label
                    if len(ins.x) == 1:
                        label = ins.x[0]
                    else:
                        label = ins.x[0] if self.val(ins.ops[0], env) else ins.x[1]
                    break
                if op == 'ret':
                    for b in mystack:
                        b.alive = False
                    return self.val(ins.ops[0], env) if ins.ops else None
                if op == 'switch':
                    v = self.val(ins.ops[0], env)
                    prev = label
                    label = ins.x[0]
                    for c, l in ins.x[1]:
                        if self.val(c, env) == v:
                            label = l
                            break
                    break
                if op == 'unreachable':
                    raise Crash('unreachable')
                r = self.instr(ins, env, mystack, fname if not top else '')
                if ins.res is not None:
                    env[ins.res] = r
                i += 1

    def val(self, v, env):
        if v[0] == 'local':
            return env[v[2]]
        return self.constval(v)

    def instr(self, ins, env, mystack, pre):
        op = ins.op
        V = self.val
        if op == 'alloca':
            n = V(ins.ops[0], env)
            b = self.new_block(pre + '%' + ins.res, n * self.m.alloc_size(ins.x))
            mystack.append(b)
            return b.base
        if op == 'load':
            return self.load(V(ins.ops[0], env), ins.ty)
        if op == 'store':
            self.store(V(ins.ops[1], env), ins.ops[0][1], V(ins.ops[0], env))
            return None
        if op == 'getelementptr':
            base = V(ins.ops[0], env)
            idx = []
            for o in ins.ops[1:]:
                idx.append(sgn(V(o, env), self.m.resolve(o[1])[1]))
            return base + self.gep_off(ins.x, idx)
        if op == 'icmp':
            a, b = V(ins.ops[0], env), V(ins.ops[1], env)
            p = ins.x
            if p == 'eq':
                return int(a == b)
            if p == 'ne':
                return int(a != b)
            if p[0] == 's':
                w = self.m.resolve(ins.ops[0][1])[1]
                a, b = sgn(a, w), sgn(b, w)
            p = p[1:]
            return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = V(ins.ops[0], env), V(ins.ops[1], env)
            rt = self.m.resolve(ins.ty)
            if rt[0] != 'int':
                raise CUnsupported('vector op')
            w = rt[1]
            mk = (1 << w) - 1
            if op == 'add':
                return (a + b) & mk
            if op == 'sub':
                return (a - b) & mk
            if op == 'mul':
                return (a * b) & mk
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & mk if b < w else 0
            if op == 'lshr':
                return a >> b
            if op == 'ashr':
                return (sgn(a, w) >> b) & mk
            if b == 0:
                raise Crash('division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            a, b = sgn(a, w), sgn(b, w)
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            if op == 'sdiv':
                return q & mk
            return (a - q * b) & mk
        if op in ('zext', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            return V(ins.ops[0], env)
        if op == 'sext':
            o = ins.ops[0]
            return sgn(V(o, env), self.m.resolve(o[1])[1]) & ((1 << ins.ty[1]) - 1)
        if op == 'trunc':
            return V(ins.ops[0], env) & ((1 << ins.ty[1]) - 1)
        if op == 'select':
            return V(ins.ops[1], env) if V(ins.ops[0], env) else V(ins.ops[2], env)
        if op == 'call':
            c = ins.x['callee']
            if c[0] == 'global':
                name = c[2]
                args = [None if a[0] == 'meta' else V(a, env) for a in ins.ops]
                f = self.m.functions.get(name)
                if f is not None and f.defined:
                    for j, bv in enumerate(ins.x['byval']):
                        if bv:
                            raise CUnsupported('byval')
                    return self.call(name, args)
                self.cur = pre + '%' + str(ins.res)
                return self.external(name, args, ins, env)
            addr = V(c, env)
            b = self.blocks[addr >> SH]
            if b is None or not b.key.startswith('fn:'):
                raise CUnsupported('indirect call')
            return self.call(b.key[3:], [V(a, env) for a in ins.ops])
        if op == 'extractvalue':
            a = V(ins.ops[0], env)
            for i in ins.x:
                a = a[i]
            return a
        if op == 'insertvalue':
            import copy
            a = copy.deepcopy(V(ins.ops[0], env))
            t = a
            for i in ins.x[:-1]:
                t = t[i]
            t[ins.x[-1]] = V(ins.ops[1], env)
            return a
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = V(ins.ops[0], env), V(ins.ops[1], env)
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            return a / b if b else float('nan')
        if op == 'fneg':
            return -V(ins.ops[0], env)
        if op == 'fcmp':
            a, b = V(ins.ops[0], env), V(ins.ops[1], env)
            nan = a != a or b != b
            p = ins.x
            if p == 'ord':
                return int(not nan)
            if p == 'uno':
                return int(nan)
            r = {'eq': a == b, 'ne': a != b and not nan, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p[1:]]
            return int(r or (p[0] == 'u' and nan))
        if op == 'uitofp':
            return float(V(ins.ops[0], env))
        if op == 'sitofp':
            return float(sgn(V(ins.ops[0], env), self.m.resolve(ins.ops[0][1])[1]))
        if op in ('fptoui', 'fptosi'):
            return int(V(ins.ops[0], env)) & ((1 << ins.ty[1]) - 1)
        if op in ('fpext', 'fptrunc'):
            return V(ins.ops[0], env)
        raise CUnsupported('instr ' + ins.text[:120])

    # ---- externals
    def draw(self, lo, hi, name):
        r = self.rng
        lo, hi = sgn(lo, 64), sgn(hi, 64)
        if lo < 0 < hi:
            return max(lo, min(hi, r.randint(-6, 6)))
        k = r.random()
        if k < 0.75:
            v = lo + r.randint(0, self.small)
        elif k < 0.97:
            v = lo + r.randint(0, self.small * 2)
        else:
            v = r.choice([lo, lo + 1, hi if hi - lo < 100 else lo + 3])
        return max(lo, min(hi, v))

    small = 5

    def external(self, name, args, ins=None, env=None):
        if name in ('vp_input', 'vp_any'):
            s = self.cstr(args[0])
            if s in self.forced:
                v = self.forced[s]
            else:
                v = self.draw(args[1], args[2], s)
            self.inputs[s] = v
            if name == 'vp_any':
                self.anys.append(s)
            return v & ((1 << 64) - 1)
        if name == 'vp_block':
            s = self.cstr(args[0])
            n, esz = args[1], args[2]
            if n * esz > 1 << 16:
                raise Reject()
            b = self.new_block('in:' + s, n * esz)
            cs = self.cstr(args[3])
            r = self.rng
            p = r.choice([0.15, 0.5, 0.85])
            lim = [int(t) for t in cs[1:].split(',')] if cs.startswith('#') else None
            for i in range(n):
                if cs.startswith('@'):
                    v = r.getrandbits(8 * esz) & int(cs[1:], 16)
                    if r.random() < 0.8:
                        v &= 0x100000001 if r.random() < 0.8 else 0x0303030303030303
                    b.mem[i * esz:(i + 1) * esz] = v.to_bytes(esz, 'little')
                elif lim:
                    v = r.randint(lim[0], min(lim[1], lim[0] + 9)) if r.random() < 0.8 else r.randint(*lim)
                    b.mem[i * esz:(i + 1) * esz] = v.to_bytes(esz, 'little')
                elif esz == 1:
                    b.mem[i] = ord(cs[0]) if r.random() < p else ord(r.choice(cs))
                else:
                    v = r.randint(0, 9)
                    b.mem[i * esz:(i + 1) * esz] = v.to_bytes(esz, 'little')
            return b.base
        if name == 'vp_alloc':
            b = self.new_block('vpalloc:' + self.cstr(args[0]) + self.cur, 1 << 14)
            return b.base
        if name == 'vp_assume':
            if not args[0]:
                raise Reject()
            return None
        if name == 'vp_assert':
            s = self.cstr(args[1])
            self.asserts.append(s)
            if not args[0]:
                self.failures.append(s)
            return None
        if name == 'vp_readable':
            return None
        if name == 'vp_cover':
            self.covers.add(self.cstr(args[0]))
            return None
        if name == 'vp_on_throw':
            self.throw_ok = (args[0], self.cstr(args[1]))
            return None
        if name == 'vp_pred_':
            self.preds[self.cstr(args[0])] = (self.blocks[args[1] >> SH].key[3:], args[2])
            return None
        if name == 'vp_fn2_':
            self.fns2[self.cstr(args[0])] = (self.blocks[args[1] >> SH].key[3:], args[2])
            return None
        if name == 'vp_fn_':
            self.fns[self.cstr(args[0])] = (self.blocks[args[1] >> SH].key[3:], args[2])
            return None
        if name in ('vp_lemma_', 'vp_forall_'):
            return None
        if name == 'vp_setup_':
            self.call(self.blocks[args[0] >> SH].key[3:], [args[1]])
            return None
        if name == 'vp_rand':
            return self.rng.randint(sgn(args[0], 64), sgn(args[1], 64)) & ((1 << 64) - 1)
        if name == 'vp_each_':
            b = next(b for b in self.blocks.values() if b.key == 'in:' + self.cstr(args[0])) if isinstance(self.blocks, dict) else next(b for b in self.blocks if b and b.key == 'in:' + self.cstr(args[0]))
            fn = self.blocks[args[2] >> SH].key[3:]
            for k in range(min(sgn(args[4], 64), 64)):
                for t in range(60):
                    if self.call(fn, [args[3], k]) & 1:
                        break
                    rs = args[1]
                    for j in range(0, rs, 4 if rs % 4 == 0 else 1):
                        w = 4 if rs % 4 == 0 else 1
                        b.mem[k * rs + j:k * rs + j + w] = self.rng.randint(0, 9).to_bytes(w, 'little')
                else:
                    raise Reject()
            return None
        if name == 'vp_cell':
            self.cells[self.cstr(args[0])] = (sgn(args[1], 64), args[2])
            return None
        if name == 'vp_val':
            self.vals[self.cstr(args[0])] = sgn(args[1], 64)
            return args[1]
        if name in ('_Znwm', '_Znam', 'malloc'):
            return self.new_block('heap' + self.cur, args[0]).base
        if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
            if args[0] == 0:
                return None
            b, o = self.block(args[0], 0)
            if o:
                raise Crash('bad free')
            b.alive = False
            return None
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memmove', 'memcpy'):
            n = args[2]
            if n:
                sb, so = self.block(args[1], n)
                db, do = self.block(args[0], n)
                self.ver += 1
                db.mem[do:do + n] = bytes(sb.mem[so:so + n])
            return args[0]
        if name.startswith('llvm.memset') or name == 'memset':
            n = args[2]
            if n:
                db, do = self.block(args[0], n)
                self.ver += 1
                db.mem[do:do + n] = bytes([args[1] & 255]) * n
            return args[0]
        if name.startswith(('llvm.lifetime', 'llvm.experimental', 'llvm.assume', 'llvm.dbg')):
            return None
        if name.startswith('llvm.umax'):
            return max(args)
        if name.startswith('llvm.umin'):
            return min(args)
        if name.startswith('llvm.smax') or name.startswith('llvm.smin'):
            w = ins.ty[1]
            a = [sgn(x, w) for x in args]
            return (max(a) if 'smax' in name else min(a)) & ((1 << w) - 1)
        if name.startswith('llvm.is.constant'):
            return 0
        if name.startswith(('llvm.umul.with.overflow', 'llvm.uadd.with.overflow', 'llvm.usub.with.overflow')):
            w = self.m.resolve(ins.ops[0][1])[1]
            r = args[0] * args[1] if 'umul' in name else args[0] + args[1] if 'uadd' in name else args[0] - args[1]
            return [r & ((1 << w) - 1), int(r < 0 or r >> w > 0)]
        if name.startswith('llvm.abs'):
            w = ins.ty[1]
            return abs(sgn(args[0], w)) & ((1 << w) - 1)
        if name.startswith('llvm.expect'):
            return args[0]
        if name == 'memcmp' or name == 'bcmp':
            n = args[2]
            if n == 0:
                return 0
            a, ao = self.block(args[0], n)
            b, bo = self.block(args[1], n)
            x, y = bytes(a.mem[ao:ao + n]), bytes(b.mem[bo:bo + n])
            return 0 if x == y else 1 if x > y else (1 << 32) - 1
        if name == 'strlen':
            return len(self.cstr(args[0]))
        if name == 'memchr':
            n = args[2]
            if n == 0:
                return 0
            a, ao = self.block(args[0], n)
            i = bytes(a.mem[ao:ao + n]).find(bytes([args[1] & 255]))
            return 0 if i < 0 else args[0] + i
        if name == '__cxa_allocate_exception':
            return self.new_block('exc' + self.cur, max(args[0], 64)).base
        if name in ('__cxa_throw', '_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv') or '__throw_' in name:
            self.threw = name
            raise Thrown(name)
        if name in ('__assert_fail', 'abort', '_ZSt9terminatev', '__clang_call_terminate'):
            raise Crash(name)
        if name in ('__cxa_atexit', '__cxa_free_exception'):
            return 0
        raise CUnsupported('external ' + name)

    # ---- loop heads
    headers = {}     # label -> set of back-edge predecessors

    def on_header(self, label, prev, env):
        if prev in self.headers[label]:
            self.its[label] = self.its.get(label, 0) + 1
        else:
            self.its[label] = 0
        if self.header_cb:
            self.header_cb(self, label, env)

    def eval_pred(self, name):
        fn, ctx = self.preds[name]
        return self.call(fn, [ctx])

    def eval_fn2(self, name, a, b):
        fn, ctx = self.fns2[name]
        self.ghost += 1
        try:
            return sgn(self.call(fn, [ctx, a & ((1 << 64) - 1), b & ((1 << 64) - 1)]), 64)
        finally:
            self.ghost -= 1

    def eval_fn(self, name, e):
        fn, ctx = self.fns[name]
        self.ghost += 1
        try:
            return sgn(self.call(fn, [ctx, e & ((1 << 64) - 1)]), 64)
        finally:
            self.ghost -= 1

    def run(self, entry, forced=None):
        self.reset()
        self.forced = forced or {}
        self.anys = []
        self.its = {}
        try:
            self.call(entry, [], top=True)
            return 'ok'
        except Thrown:
            return 'throw'


def parse_fp(s):
    if s.startswith('0x'):
        h = s[2:]
        if h[0] in 'KLMHR':
            raise CUnsupported('fp ' + s)
        return struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
    return float(s)
