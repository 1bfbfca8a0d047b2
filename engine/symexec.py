"""Symbolic executor (verification-condition generator) over the extracted LLVM IR.

Loops are cut at their head by invariants; joins are merged under guards; every memory access, division, signed
arithmetic step and contract clause yields an obligation.  No loop is unrolled.
"""
import re
import z3
import sym
from sym import (Poly, K, C, And, Or, Not, Implies, Ite, IteB, b2p, Lt, Le, Eq, Ne, divmod_poly, divmod_sym, bz)
from llparse import ensure_parsed
from interp import sgn, parse_fp

PTRLIM = 1 << 48
D = z3.DeclareSort('Double')


class Unsupported(Exception):
    pass


class IV:
    """w-bit integer; p is congruent to it; u / s: p is known to be its unsigned / signed value"""
    __slots__ = ('w', 'p', 'u', 's', 'zw')

    def __init__(self, w, p, u=False, s=False, zw=None):
        self.zw = w if zw is None else zw    # the unsigned value is below 2**zw (where the value is defined)
        self.w = w
        self.p = p
        lo, hi = p.iv
        self.u = u or (lo is not None and hi is not None and lo >= 0 and hi < (1 << w))
        self.s = s or (lo is not None and hi is not None and lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)))


class PV:
    """pointer: alternatives (cond, Block or None, offset poly); the conditions are exclusive and cover the guard"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class FnPtr:
    def __init__(self, name):
        self.name = name


class FV:
    __slots__ = ('z',)

    def __init__(self, z_):
        self.z = z_


class UNDEF:
    pass


UNDEF = UNDEF()
NULLP = PV([(True, None, K(0))])


class Block:
    def __init__(self, key, size, kind):
        self.key = key
        self.size = size
        self.kind = kind
        self.addr = None

    def __repr__(self):
        return 'Block(%s)' % self.key


_nid = [0]


class Node:
    __slots__ = ('id', 'kind', 'prev', 'off', 'size', 'val', 'ty', 'len', 'src', 'srcoff', 'cond', 'other', 'name', 'cache', 'data', 'range')

    def __init__(self, kind, **kw):
        _nid[0] += 1
        self.id = _nid[0]
        self.kind = kind
        self.cache = {}
        for k, v in kw.items():
            setattr(self, k, v)


class State:
    __slots__ = ('mem', 'freed')

    def __init__(self, mem=None, freed=None):
        self.mem = mem if mem is not None else {}
        self.freed = freed if freed is not None else {}

    def copy(self):
        return State(dict(self.mem), dict(self.freed))


class Obl:
    def __init__(self, kind, label, guard, cond, site=None, soft=False):
        self.kind = kind
        self.label = label
        self.guard = guard
        self.cond = cond
        self.site = site
        self.soft = soft
        self.status = None


class Point:
    """a place where loop invariants are assumed or have to hold"""

    def __init__(self, kind, label, guard, phis, state, it, outer):
        self.kind = kind
        self.label = label
        self.guard = guard
        self.phis = phis
        self.state = state
        self.it = it
        self.outer = outer     # label -> Point of enclosing loops (header points)


class LoopInfo:
    pass


def packed_phis(f):
    """64-bit loop variables that hold two 32-bit fields (clang's coercion of small structs): inferred from how they
    are taken apart; only used to choose a representation"""
    ensure_parsed(f)
    if hasattr(f, 'packedphis'):
        return f.packedphis
    i64 = ('int', 64)
    mark = set()
    phis = {}
    for b in f.blocks:
        for ins in f.blocks[b]:
            if ins.op == 'phi' and ins.ty == i64:
                phis[ins.res] = [v[2] for v, _ in ins.ops if v[0] == 'local']
    for b in f.blocks:
        for ins in f.blocks[b]:
            if ins.op in ('lshr', 'and') and ins.ty == i64 and ins.ops[0][0] == 'local' and ins.ops[1][0] == 'const' and isinstance(ins.ops[1][2], int):
                c = ins.ops[1][2] & ((1 << 64) - 1)
                if (ins.op == 'lshr' and c == 32) or (ins.op == 'and' and c in (0xffffffff, 0xffffffff00000000)):
                    mark.add(ins.ops[0][2])
            if ins.op == 'or' and ins.ty == i64 and ins.res and '.insert' in ins.res:
                mark.add(ins.res)
    ch = True
    while ch:
        ch = False
        for r, vs in phis.items():
            if r in mark or any(v in mark for v in vs):
                for v in vs + [r]:
                    if v not in mark and (v in phis):
                        mark.add(v)
                        ch = True
    f.packedphis = {r for r in phis if r in mark}
    return f.packedphis


def analyse_loops(f):
    """dominators, natural loops, topological order ignoring back edges"""
    ensure_parsed(f)
    if hasattr(f, 'loopinfo'):
        return f.loopinfo
    succ = {}
    for b in f.order:
        t = f.blocks[b][-1]
        if t.op == 'br':
            succ[b] = list(dict.fromkeys(t.x))
        elif t.op == 'switch':
            succ[b] = list(dict.fromkeys([t.x[0]] + [l for _, l in t.x[1]]))
        elif t.op == 'invoke':
            succ[b] = [t.x['normal']]
        else:
            succ[b] = []
    entry = f.order[0]
    order = []
    seen = set()
    st = [(entry, iter(succ[entry]))]
    seen.add(entry)
    while st:
        b, itr = st[-1]
        for s in itr:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    idx = {b: i for i, b in enumerate(rpo)}
    dom = {b: None for b in rpo}
    dom[entry] = {entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            ds = [dom[p] for p in pred[b] if dom[p] is not None]
            nd = set.intersection(*ds) | {b}
            if nd != dom[b]:
                dom[b] = nd
                changed = True
    back = {}
    for b in rpo:
        for s in succ[b]:
            if s in dom[b]:
                back.setdefault(s, set()).add(b)
            elif idx[s] <= idx[b]:
                raise Unsupported('irreducible control flow in ' + f.name)
    body = {}
    for h, ts in back.items():
        s = {h}
        work = list(ts)
        while work:
            x = work.pop()
            if x not in s:
                s.add(x)
                work.extend(pred[x])
        body[h] = s
    info = LoopInfo()
    info.succ, info.pred, info.rpo, info.back, info.body = succ, pred, rpo, back, body
    info.loops_of = {b: sorted([h for h in body if b in body[h]], key=lambda h: idx[h]) for b in rpo}
    f.loopinfo = info
    return info


class Exec:
    def __init__(self, mod, facts):
        """facts: persistent knowledge across reruns: wrapsites, modsets, ptrsets, phi repr"""
        self.m = mod
        self.K = facts
        self.items = []          # ordered: ('fact', z) ('obl', Obl) ('assume_inv', Point) ('check_inv', Point)
        self.changed = False
        self.globals = {}
        self.preds = {}
        self.fns = {}
        self.fns2 = {}
        self.cells = {}
        self.foralls = []
        self.each = {}
        self.each_depth = 0
        self.vals = {}
        self.inputs = {}
        self.in_blocks = {}
        self.anys = []
        self.throws = []
        self.throw_ok = None
        self.covers = []
        self.spec = 0            # >0: ghost evaluation
        self.loopstack = []
        self.spec_cache = {}
        self.spec_apps = {}
        self.spec_used = set()
        self.spec_fn = {}
        self.spec_depth = 0
        self.max_spec_depth = facts.depth
        self.spec_cur = None
        self.spec_lawing = False
        self.site_prefix = ''
        self.trivial = 0
        self.used = set()
        self.points = {}
        self.assumed_contracts = set()
        self.allocs = {}

    # ---- bookkeeping
    def fact(self, g, c):
        x = Implies(g, c)
        if x is not True:
            self.items.append(('fact', bz(x)))

    def oblige(self, kind, label, guard, cond):
        if self.spec:
            return
        if guard is False:
            return
        if cond is True:
            self.trivial += 1
            return
        o = Obl(kind, label, guard, cond)
        self.items.append(('obl', o))

    def soft(self, site, guard, cond):
        if guard is False or cond is True:
            return
        self.items.append(('obl', Obl('nowrap', site, guard, cond, site, True)))

    # ---- canonical values
    def canon(self, v, signed, g, site):
        if not isinstance(v, IV):
            if v is UNDEF:
                return C.var('undef', 0, 1)
            raise Unsupported('integer expected, got %r at %s' % (v, site))
        if (v.s if signed else v.u):
            return v.p
        w = v.w
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        l, h = v.p.iv
        if l is not None and h is not None and l >= lo and h <= hi:
            return v.p
        key = (site, signed)
        if w > 8 and key not in self.K.wrap and not self.spec and not self.K.wrapall:
            a = Le(K(lo), v.p)
            b = Le(v.p, K(hi))
            if a is not False and b is not False:
                kk = ('nowrap', v.p.key, w, signed)
                self.soft(key, g, And(a, b))
                return v.p
        # wrap explicitly
        q, r = divmod_poly(v.p, 1 << w)
        if signed:
            return r - Ite(Lt(K(hi), r), K(1 << w), K(0))
        return r

    def uc(self, v, g, site):
        return self.canon(v, False, g, site)

    def sc(self, v, g, site):
        return self.canon(v, True, g, site)

    # ---- memory
    def new_block(self, key, size, kind, node=None):
        b = Block(key, size, kind)
        return b

    def fresh_base(self, name):
        return Node('base', name=C.fresh_name(name))

    def havoc_val(self, ty, name, blockset=None):
        ty = self.m.resolve(ty)
        if ty[0] == 'int':
            w = ty[1]
            if w == 1:
                return C.bvar(name)
            return IV(w, C.var(name, 0, (1 << w) - 1), u=True)
        if ty[0] == 'double':
            return FV(z3.Const(C.fresh_name(name), D))
        if ty[0] == 'ptr':
            raise Unsupported('unknown pointer ' + name)
        raise Unsupported('havoc ' + str(ty))

    def read(self, node, off, size, ty):
        """value of type ty (size bytes) at off in memory node"""
        kk = (off.key, size, ty)
        r = node.cache.get(kk)
        if r is None:
            r = self.read_(node, off, size, ty)
            node.cache[kk] = r
        if node.id in self.each and self.each_depth == 0:
            self.each_at(node.id, off)
        return r

    def each_at(self, nid, off):
        """preconditions on every record of an input block, instantiated at the record being read"""
        for e in self.each[nid]:
            k = divmod_poly(off, e['size'])[0]
            if k.key in e['done']:
                continue
            e['done'].add(k.key)
            s0, self.spec_depth = self.spec_depth, max(self.spec_depth, 1)
            self.each_depth += 1
            try:
                v = self.boolval(self.ghost(e['fn'], [e['ctx'], IV(64, k, s=True)], e['st']))
            finally:
                self.spec_depth = s0
                self.each_depth -= 1
            self.items.append(('fact', bz(Implies(And(Le(K(0), k), Lt(k, e['n'])), v))))

    def merge_vals(self, c, a, b, ty=None):
        if isinstance(c, bool):
            return a if c else b
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, IV) and isinstance(b, IV):
            return IV(a.w, Ite(c, a.p, b.p), u=a.u and b.u, s=a.s and b.s)
        if isinstance(a, PV) and isinstance(b, PV):
            alts = []
            acc = {}
            for cc, x in ((c, a), (Not(c), b)):
                for c0, blk, off in x.alts:
                    cond = And(cc, c0)
                    if cond is False:
                        continue
                    acc.setdefault(id(blk), []).append((cond, blk, off))
            for lst in acc.values():
                cond, blk, off = lst[-1]
                for c2, _, o2 in lst[:-1][::-1]:
                    off = Ite(c2, o2, off)
                    cond = Or(cond, c2)
                alts.append((cond, blk, off))
            if len(alts) == 1:
                alts = [(True, alts[0][1], alts[0][2])]
            return PV(alts)
        if isinstance(a, FV) and isinstance(b, FV):
            if a.z.eq(b.z):
                return a
            return FV(z3.If(c, a.z, b.z))
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return IteB(c, a, b)
        if isinstance(a, list) and isinstance(b, list):
            return [self.merge_vals(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
            return a
        # integer <-> pointer mixes
        if isinstance(a, IV) and isinstance(b, PV):
            return self.merge_vals(c, a, self.ptr2int(b))
        if isinstance(a, PV) and isinstance(b, IV):
            return self.merge_vals(c, self.ptr2int(a), b)
        raise Unsupported('cannot merge %r and %r' % (a, b))

    def coerce(self, v, ty):
        """reinterpret a stored value of the same byte size"""
        k = ty[0]
        if k == 'int':
            if isinstance(v, IV):
                return v if v.w == ty[1] else IV(ty[1], v.p)
            if isinstance(v, PV):
                return self.ptr2int(v)
            if isinstance(v, (bool, z3.BoolRef)):
                return IV(ty[1], b2p(v))
            if isinstance(v, FV):
                f = z3.Function('bits', D, z3.IntSort())
                return IV(64, C.atom(f(v.z), 0, (1 << 64) - 1, 'bits'))
        if k == 'ptr':
            if isinstance(v, (PV, FnPtr)):
                return v
            if isinstance(v, IV):
                return self.int2ptr(v)
        if k == 'double':
            if isinstance(v, FV):
                return v
            if isinstance(v, IV):
                f = z3.Function('frombits', z3.IntSort(), D)
                return FV(f(v.p.z))
        if v is UNDEF:
            return v
        raise Unsupported('coerce %r to %s' % (v, ty))

    def split_agg_read(self, node, off, ty):
        ty = self.m.resolve(ty)
        if ty[0] == 'struct':
            return [self.split_agg_read(node, off + self.m.field_offset(ty, i), f) for i, f in enumerate(ty[1])]
        if ty[0] == 'array':
            s = self.m.alloc_size(ty[2])
            return [self.split_agg_read(node, off + s * i, ty[2]) for i in range(ty[1])]
        return self.read(node, off, self.m.size(ty), ty)

    def read_(self, node, off, size, ty):
        # iterative walk along constant-difference-decided nodes
        conds = []       # pending (cond, value) with value taken when cond holds
        while True:
            k = node.kind
            if k == 'store':
                d = off - node.off
                if d.is_const():
                    dc = d.const()
                    if dc >= node.size or dc <= -size:
                        node = node.prev
                        continue
                    if dc == 0 and node.size == size:
                        res = self.coerce(node.val, ty)
                    elif 0 <= dc and dc + size <= node.size and isinstance(node.val, IV) and ty[0] == 'int':
                        u = self.canon(node.val, False, True, ('subread', node.id, dc, size))
                        q, _ = divmod_poly(u, 1 << (8 * dc))
                        _, r = divmod_poly(q, 1 << (8 * size))
                        res = IV(ty[1], r)
                    else:
                        res = self.combine_read(node, off, size, ty)
                    break
                lo, hi = d.iv
                if (lo is not None and lo >= node.size) or (hi is not None and hi <= -size):
                    node = node.prev
                    continue
                g = d.gcd(False)
                if size == node.size and g % size == 0 and d.const() % size == 0:
                    c = Eq(d, K(0))
                    if c is False:
                        node = node.prev
                        continue
                    conds.append((c, self.coerce(node.val, ty)))
                    node = node.prev
                    continue
                if g > 1:
                    # aligned records: the offset inside the record decides
                    r = d.const() % g
                    # d = g*t + const; overlap possible only for values of d in (-size, node.size)
                    cand = [x for x in range(-size + 1, node.size) if (x - d.const()) % g == 0]
                    if not cand:
                        node = node.prev
                        continue
                    if cand == [0] and size == node.size:
                        conds.append((Eq(d, K(0)), self.coerce(node.val, ty)))
                        node = node.prev
                        continue
                over = And(Lt(K(-size), d), Lt(d, K(node.size)))
                exact = Eq(d, K(0)) if size == node.size else False
                if over is False:
                    node = node.prev
                    continue
                hv = self.havoc_val(ty, 'partial') if ty[0] != 'ptr' else None
                if exact is not False:
                    conds.append((exact, self.coerce(node.val, ty)))
                if hv is None:
                    raise Unsupported('pointer read may overlap a store')
                conds.append((And(over, Not(exact)), hv))
                node = node.prev
                continue
            if k == 'fill':
                a = Le(node.off, off)
                b = Le(off + size, node.off + node.len)
                inside = And(a, b)
                if inside is False:
                    out = Or(Le(off + size, node.off), Le(node.off + node.len, off))
                    if out is True:
                        node = node.prev
                        continue
                if ty[0] == 'int':
                    if node.val.is_const():
                        v = node.val.const() & 255
                        pat = int.from_bytes(bytes([v]) * size, 'little')
                        val = IV(ty[1], K(pat & ((1 << ty[1]) - 1)))
                    else:
                        u = self.canon(IV(8, node.val), False, True, ('fill', node.id))
                        val = IV(ty[1], u * sum(1 << (8 * i) for i in range(size)))
                elif ty[0] == 'ptr':
                    val = NULLP
                else:
                    val = self.havoc_val(ty, 'fill')
                if inside is True:
                    res = val
                    break
                conds.append((inside, val))
                if size > 1:
                    out = Or(Le(off + size, node.off), Le(node.off + node.len, off))
                    part = And(Not(inside), Not(out))
                    g = (off - node.off).gcd(True)
                    g2 = node.len.gcd(True)
                    if not (g % size == 0 and g2 % size == 0) and part is not False:
                        if ty[0] != 'ptr':
                            conds.append((part, self.havoc_val(ty, 'partial')))
                node = node.prev
                continue
            if k == 'copy':
                inside = And(Le(node.off, off), Le(off + size, node.off + node.len))
                out = Or(Le(off + size, node.off), Le(node.off + node.len, off))
                if out is True:
                    node = node.prev
                    continue
                if inside is False and out is not False:
                    pass
                sv = self.read(node.src, off - node.off + node.srcoff, size, ty) if inside is not False else None
                if inside is True:
                    res = sv
                    break
                if inside is not False:
                    conds.append((inside, sv))
                if size > 1 and ty[0] != 'ptr':
                    g = (off - node.off).gcd(True)
                    g2 = node.len.gcd(True)
                    if not (g % size == 0 and g2 % size == 0):
                        part = And(Not(inside), Not(out))
                        if part is not False:
                            conds.append((part, self.havoc_val(ty, 'partial')))
                node = node.prev
                continue
            if k == 'merge':
                a = self.read(node.prev, off, size, ty)
                b = self.read(node.other, off, size, ty)
                res = self.merge_vals(node.cond, a, b)
                break
            if k == 'base':
                if ty[0] == 'ptr':
                    # an unknown pointer: stay sound by refusing
                    res = self.unknown_ptr(node, off)
                    break
                if ty[0] == 'double':
                    f = z3.Function('%s_d' % node.name, z3.IntSort(), D)
                    res = FV(f(off.z))
                    break
                f = z3.Function('%s_%d' % (node.name, size), z3.IntSort(), z3.IntSort())
                w = ty[1]
                lo, hi = 0, (1 << w) - 1
                rg = getattr(node, 'range', None)
                if rg and rg[0] == 'mask':
                    k = off.m.get((), 0)
                    if off.gcd(False) % rg[1] == 0:
                        sl = (rg[2] >> (8 * (k % rg[1]))) & hi
                        if k % rg[1] + size <= rg[1] and sl & (sl + 1) == 0:
                            hi = sl
                elif rg and rg[0] == size and off.gcd(True) % size == 0:
                    lo, hi = rg[1], rg[2]
                res = IV(w, C.atom(f(off.z), lo, hi, '%s[%s]' % (node.name, off), kind=('read', node, off, size)), u=True)
                break
            if k == 'zero':
                res = IV(ty[1], K(0)) if ty[0] == 'int' else NULLP if ty[0] == 'ptr' else FV(self.fconst(0.0))
                break
            if k == 'const':
                res = self.read_const(node, off, size, ty)
                break
            raise Unsupported('memory node ' + k)
        for c, v in reversed(conds):
            res = self.merge_vals(c, v, res)
        return res

    def combine_read(self, node, off, size, ty):
        """a read covering several narrower stores (little endian)"""
        if ty[0] == 'int' and size > 1:
            tot = K(0)
            # byte-wise, only when every byte resolves to constants or clean sub-reads
            h = size // 2
            a = self.read(node, off, h, ('int', 8 * h))
            b = self.read(node, off + h, size - h, ('int', 8 * (size - h)))
            pa = self.canon(a, False, True, ('comb', node.id, size))
            pb = self.canon(b, False, True, ('comb2', node.id, size))
            return IV(ty[1], pa + pb * (1 << (8 * h)))
        if ty[0] == 'int':
            return self.havoc_val(ty, 'partial')
        raise Unsupported('partial read')

    def unknown_ptr(self, node, off):
        raise Unsupported('read of an unknown pointer from %s' % node.name)

    def read_const(self, node, off, size, ty):
        data = node.data       # dict offset -> (size, value, ty)
        if off.is_const():
            o = off.const()
            e = data.get(o)
            if e and e[0] == size:
                return self.coerce(e[1], ty)
            if e and e[0] > size and ty[0] == 'int' and isinstance(e[1], IV) and e[1].p.is_const():
                return IV(ty[1], K(e[1].p.const() & ((1 << ty[1]) - 1)))
            raise Unsupported('constant read')
        g = off.gcd(False)
        ents = [(o, v) for o, (s, v, t) in sorted(data.items()) if s == size]
        if len(ents) > 300:
            raise Unsupported('large constant table')
        if ty[0] != 'int':
            raise Unsupported('constant table of non integers')
        vals = [v.p.const() for o, v in ents]
        f = z3.Function('%s_%d' % (node.name, size), z3.IntSort(), z3.IntSort())
        r = C.atom(f(off.z), min(vals), max(vals), 'tbl')
        for o, v in ents:
            self.items.append(('fact', z3.Implies(off.z == o, r.z == v.p.const())))
        return IV(ty[1], r, u=True)

    def access(self, pv, size, g, st, what):
        """obligation: the access is inside a live object"""
        if not isinstance(pv, PV):
            raise Unsupported('access through %r' % (pv,))
        if self.spec:
            return
        for c, b, off in pv.alts:
            gg = And(g, c)
            if gg is False:
                continue
            if b is None:
                self.oblige('memory', 'null dereference: ' + what, gg, False)
                continue
            self.oblige('memory', 'in bounds: ' + what, gg, And(Le(K(0), off), Le(off + size, b.size)))
            fr = st.freed.get(b, False)
            if fr is not False:
                self.oblige('memory', 'use after free: ' + what, gg, Not(fr))

    def load(self, pv, ty, g, st, what):
        ty = self.m.resolve(ty)
        size = self.m.size(ty)
        self.access(pv, size, g, st, what)
        res = None
        first = True
        for c, b, off in reversed(pv.alts):
            if b is None or And(g, c) is False:
                continue
            if ty[0] in ('struct', 'array'):
                v = self.split_agg_read(st.mem[b], off, ty)
            elif ty == ('int', 1):
                v = self.read(st.mem[b], off, 1, ('int', 8))
                v = Ne(divmod_poly(v.p, 2)[1], K(0)) if isinstance(v, IV) else v
            else:
                v = self.read(st.mem[b], off, size, ty)
                if isinstance(v, IV) and v.w != ty[1] if ty[0] == 'int' else False:
                    v = IV(ty[1], v.p)
            res = v if first else self.merge_vals(c, v, res)
            first = False
        if res is None:
            return UNDEF
        return res

    def note_mod(self, b, off, size, ty):
        for (hdr_key, blocks) in self.loopstack:
            if b in blocks:
                ms = self.K.mods.setdefault(hdr_key, {})
                cells = ms.setdefault(b.key, set())
                e = (off.const(), size, ty) if off is not None and off.is_const() else '*'
                if e not in cells:
                    if '*' in cells and e != '*':
                        pass
                    cells.add(e)
                    self.changed = True
                if e == '*':
                    ss = self.K.elem.setdefault((hdr_key, b.key), set())
                    if size and ty and ty[0] == 'int':
                        ss.add(size)

    def store(self, pv, v, ty, g, st, what):
        ty = self.m.resolve(ty)
        if ty[0] == 'struct':
            for i, f in enumerate(ty[1]):
                self.store(self.ptradd(pv, K(self.m.field_offset(ty, i))), v[i] if isinstance(v, list) else UNDEF, f, g, st, what)
            return
        if ty[0] == 'array':
            s = self.m.alloc_size(ty[2])
            for i in range(ty[1]):
                self.store(self.ptradd(pv, K(s * i)), v[i] if isinstance(v, list) else UNDEF, ty[2], g, st, what)
            return
        size = self.m.size(ty)
        self.access(pv, size, g, st, what)
        if ty == ('int', 1):
            v = IV(8, b2p(v)) if v is not UNDEF else v
            ty = ('int', 8)
        n = len([1 for c, b, o in pv.alts if b is not None])
        for c, b, off in pv.alts:
            if b is None or And(g, c) is False:
                continue
            self.note_mod(b, off, size, ty)
            old = st.mem[b]
            if v is UNDEF:
                if ty[0] == 'int':
                    vv = self.havoc_val(ty, 'undef')
                else:
                    vv = UNDEF
            else:
                vv = v
            new = Node('store', prev=old, off=off, size=size, val=vv, ty=ty)
            if n > 1 and c is not True:
                new = Node('merge', cond=c, prev=new, other=old)
            st.mem[b] = new

    def ptradd(self, pv, off):
        if isinstance(pv, PV):
            if off.is_const() and off.const() == 0:
                return pv
            return PV([(c, b, o + off) for c, b, o in pv.alts])
        raise Unsupported('pointer arithmetic on %r' % (pv,))

    def block_addr(self, b):
        if b.addr is None:
            b.addr = C.var('addr_' + b.key, 1 << 20, (1 << 62), kind=('addr', b))
        return b.addr

    def ptr2int(self, pv):
        if pv is UNDEF:
            return IV(64, K(0))
        r = None
        for c, b, off in reversed(pv.alts):
            p = off if b is None else self.block_addr(b) + off
            r = p if r is None else Ite(c, p, r)
        return IV(64, r, u=True)

    def int2ptr(self, v):
        p = v.p
        if p.is_const():
            return PV([(True, None, p)])
        for mono, c in p.m.items():
            if len(mono) == 1:
                a = C.atoms[mono[0]]
                if a.kind and a.kind[0] == 'addr' and c == 1:
                    return PV([(True, a.kind[1], p - Poly({mono: 1}))])
                if a.ite is not None and c == 1 and len(p.m) == 1:
                    return self.merge_vals(a.ite[0], self.int2ptr(IV(64, a.ite[1])), self.int2ptr(IV(64, a.ite[2])))
        raise Unsupported('inttoptr')

    def ptr_eq(self, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                return a.name == b.name
            return False
        r = []
        for c1, b1, o1 in a.alts:
            for c2, b2, o2 in b.alts:
                if b1 is b2:
                    r.append(And(c1, c2, Eq(o1, o2)))
        return Or(*r)

    def ptr_cmp(self, a, b, pred, g, site):
        r = []
        for c1, b1, o1 in a.alts:
            for c2, b2, o2 in b.alts:
                c = And(c1, c2)
                if c is False:
                    continue
                if b1 is b2:
                    d1, d2 = o1, o2
                else:
                    d1 = o1 if b1 is None else self.block_addr(b1) + o1
                    d2 = o2 if b2 is None else self.block_addr(b2) + o2
                x = {'ult': Lt(d1, d2), 'ule': Le(d1, d2), 'ugt': Lt(d2, d1), 'uge': Le(d2, d1),
                     'slt': Lt(d1, d2), 'sle': Le(d1, d2), 'sgt': Lt(d2, d1), 'sge': Le(d2, d1)}[pred]
                r.append(And(c, x))
        return Or(*r)

    # ---- globals / constants
    def glob(self, name, st):
        if name in self.m.functions:
            return FnPtr(name)
        b = self.globals.get(name)
        if b is None:
            if name not in self.m.globals:
                raise Unsupported('global ' + name)
            ty, init, const = self.m.globals[name]
            b = Block('g:' + name, K(self.m.alloc_size(ty)), 'global')
            self.globals[name] = b
            b.init_node = None
            if const and init is not None:
                data = {}
                self.flat(ty, init, 0, data, st)
                b.init_node = Node('const', data=data, name=C.fresh_name('tbl'))
            else:
                b.init_node = self.fresh_base('glob_' + name)
        if b not in st.mem:
            st.mem[b] = b.init_node
        return PV([(True, b, K(0))])

    def flat(self, ty, init, off, data, st):
        ty = self.m.resolve(ty)
        kind, _, x = init
        if ty[0] == 'array':
            s = self.m.alloc_size(ty[2])
            if isinstance(x, tuple) and x[0] == 'bytes':
                for i, c in enumerate(x[1]):
                    data[off + i] = (1, IV(8, K(c)), ('int', 8))
                return
            for i in range(ty[1]):
                e = x[1][i] if isinstance(x, tuple) and x[0] == 'agg' else ('const', ty[2], ('zero',))
                self.flat(ty[2], e, off + i * s, data, st)
            return
        if ty[0] == 'struct':
            for i, f in enumerate(ty[1]):
                e = x[1][i] if isinstance(x, tuple) and x[0] == 'agg' else ('const', f, ('zero',))
                self.flat(f, e, off + self.m.field_offset(ty, i), data, st)
            return
        data[off] = (self.m.size(ty), self.constval(init, st, ty), ty)

    def fconst(self, x):
        k = ('fconst', x)
        r = C.cache.get(k)
        if r is None:
            r = z3.Const('dbl_%r' % x, D)
            C.cache[k] = r
        return r

    def constval(self, v, st, ty=None):
        kind, t, x = v
        t = self.m.resolve(ty or t)
        if kind == 'global':
            return self.glob(x, st)
        if kind == 'const':
            if isinstance(x, int):
                if t[0] == 'int':
                    if t[1] == 1:
                        return bool(x & 1)
                    return IV(t[1], K(x & ((1 << t[1]) - 1)) if x >= 0 else K(x))
                if t[0] == 'double':
                    return FV(self.fconst(float(x)))
            elif x[0] == 'null':
                return NULLP
            elif x[0] == 'undef':
                return UNDEF
            elif x[0] == 'zero':
                return self.zero(t)
            elif x[0] == 'agg':
                return [self.constval(e, st) for e in x[1]]
            elif x[0] == 'bytes':
                return [IV(8, K(c)) for c in x[1]]
            elif x[0] == 'fp':
                return FV(self.fconst(parse_fp(x[1])))
        if kind == 'cexpr':
            if x[0] == 'gep':
                base = self.constval(x[2][0], st)
                return self.ptradd(base, K(self.gep_const(x[1], [sgn(o[2], 64) if isinstance(o[2], int) else 0 for o in x[2][1:]])))
            if x[0] == 'cast':
                a = self.constval(x[2], st)
                if x[1] == 'ptrtoint':
                    return self.ptr2int(a)
                if x[1] == 'inttoptr':
                    return self.int2ptr(a)
                return a
        raise Unsupported('constant %r' % (v,))

    def zero(self, t):
        t = self.m.resolve(t)
        if t[0] == 'int':
            return False if t[1] == 1 else IV(t[1], K(0))
        if t[0] == 'ptr':
            return NULLP
        if t[0] == 'double':
            return FV(self.fconst(0.0))
        if t[0] == 'struct':
            return [self.zero(f) for f in t[1]]
        if t[0] == 'array':
            return [self.zero(t[2]) for _ in range(t[1])]
        raise Unsupported('zero ' + str(t))

    def gep_const(self, stt, idx):
        off = idx[0] * self.m.alloc_size(stt)
        t = stt
        for i in idx[1:]:
            t = self.m.resolve(t)
            if t[0] == 'struct':
                off += self.m.field_offset(t, i)
                t = t[1][i]
            else:
                off += i * self.m.alloc_size(t[2])
                t = t[2]
        return off

    # ---- state merging
    def merge_states(self, edges):
        """edges: [(cond, state)]"""
        if len(edges) == 1:
            return edges[0][1].copy()
        out = State()
        blocks = {}
        for c, s in edges:
            for b in s.mem:
                blocks[b] = True
        for b in blocks:
            cur = None
            for c, s in reversed(edges):
                n = s.mem.get(b)
                if n is None:
                    continue
                if cur is None or cur is n:
                    cur = n
                else:
                    cur = Node('merge', cond=c, prev=n, other=cur)
            out.mem[b] = cur
        for b in blocks:
            cur = None
            for c, s in reversed(edges):
                if b not in s.mem:
                    continue
                fr = s.freed.get(b, False)
                cur = fr if cur is None else IteB(c, fr, cur)
            if cur is not False:
                out.freed[b] = cur
        return out

    # ---- function execution
    def run_function(self, fname, args, guard, st, path, top=False):
        f = self.m.functions[fname]
        info = analyse_loops(f)
        if info.body and self.spec:
            raise Unsupported('loop in ghost code ' + fname)
        if top:
            self.packed = packed_phis(f)
        env = {}
        for (n, t, bv), a in zip(f.params, args):
            env[n] = a
        edges = {b: [] for b in info.rpo}    # label -> [(pred, guard, state)]
        edges[info.rpo[0]].append((None, guard, st))
        rets = []
        hpoints = {}
        for lab in info.rpo:
            inc = edges[lab]
            inc = [e for e in inc if e[1] is not False]
            if not inc:
                continue
            blk = f.blocks[lab]
            hkey = (path, lab)
            my_loops = info.loops_of[lab]
            if lab in info.body:
                g_e = Or(*[e[1] for e in inc])
                s_e = self.merge_states([(e[1], e[2]) for e in inc])
                g_e = self.name_guard(g_e, 'ge_' + lab)
                phis = [i for i in blk if i.op == 'phi']
                ent = {}
                for ins in phis:
                    ent[ins.res] = self.phi_value(ins, inc, env, s_e)
                outer = {h: hpoints[h] for h in my_loops if h != lab and h in hpoints}
                pe = Point('entry', hkey, g_e, ent, s_e, K(0), outer)
                pe.env = env
                pe.entry = pe
                self.instantiate(pe)
                self.items.append(('check_inv', pe))
                # havoc
                hs = s_e.copy()
                self.K.types.setdefault(hkey, {})
                hv = {}
                for ins in phis:
                    hv[ins.res] = self.havoc_phi(hkey, ins, ent[ins.res], s_e)
                self.havoc_state(hkey, hs)
                it = C.var('it_' + lab, 0, None)
                g_h = C.bvar('gh_' + lab)
                self.fact(g_h, g_e)
                ph = Point('head', hkey, g_h, hv, hs, it, outer)
                ph.entry = pe
                hpoints[lab] = ph
                self.points[hkey] = ph
                ph.env = env
                self.instantiate(ph)
                self.items.append(('assume_inv', ph))
                for n_, at in self.foralls:
                    self.fact(And(g_h, Lt(it, n_)), at(it, hs))
                for r, v in hv.items():
                    env[r] = v
                ph.blocks = set(hs.mem)
                g, s = g_h, hs.copy()
                start = len(phis)
            else:
                g = Or(*[e[1] for e in inc])
                if len(inc) > 1:
                    g = self.name_guard(g, 'g_' + lab)
                s = self.merge_states([(e[1], e[2]) for e in inc])
                start = 0
                newv = {}
                while blk[start].op == 'phi':
                    newv[blk[start].res] = self.phi_value(blk[start], inc, env, s)
                    start += 1
                env.update(newv)
            saved = self.loopstack
            self.loopstack = saved + [((path, h), hpoints[h].blocks) for h in my_loops if h in hpoints]
            dead = False
            for n in range(start, len(blk) - 1):
                ins = blk[n]
                r = self.instr(ins, env, g, s, path + lab + ':%d' % n, path)
                if r is StopPath:
                    dead = True
                    break
                if isinstance(r, tuple) and len(r) == 2 and r[0] is NewGuard:
                    g = r[1]
                    r = r[2] if len(r) > 2 else None
                if ins.res is not None:
                    env[ins.res] = r
                if self.pending_guard is not None:
                    g = self.pending_guard
                    self.pending_guard = None
                    if g is False:
                        dead = True
                        break
            self.loopstack = saved
            if dead:
                continue
            t = blk[-1]
            site = path + lab + ':t'
            if t.op == 'ret':
                rets.append((g, self.val(t.ops[0], env, s) if t.ops else None, s))
                continue
            if t.op == 'unreachable':
                self.oblige('unreachable', 'unreachable code reached at %s' % lab, g, False)
                continue
            outs = []
            if t.op == 'br':
                if len(t.x) == 1 or t.x[0] == t.x[1]:
                    outs.append((t.x[0], g))
                else:
                    c = self.boolval(self.val(t.ops[0], env, s))
                    outs.append((t.x[0], And(g, c)))
                    outs.append((t.x[1], And(g, Not(c))))
            elif t.op == 'switch':
                v = self.val(t.ops[0], env, s)
                w = self.m.resolve(t.ops[0][1])[1]
                p = self.uc(v, g, site)
                used = []
                bylab = {}
                for cst, l in t.x[1]:
                    c = Eq(p, K(cst[2] & ((1 << w) - 1)))
                    bylab.setdefault(l, []).append(c)
                    used.append(c)
                bylab.setdefault(t.x[0], []).append(And(*[Not(c) for c in used]))
                for l, cs in bylab.items():
                    outs.append((l, And(g, Or(*cs))))
            else:
                raise Unsupported('terminator ' + t.text[:80])
            for l, ge in outs:
                if ge is False:
                    continue
                if l in info.back and lab in info.back[l]:
                    # back edge
                    vals = {}
                    for ins in f.blocks[l]:
                        if ins.op != 'phi':
                            break
                        for v, b in ins.ops:
                            if b == lab:
                                vals[ins.res] = self.val(v, env, s)
                    hp = hpoints[l]
                    self.note_ptrs((path, l), vals, hp)
                    pb = Point('back', (path, l), ge, vals, s, hp.it + 1, hp.outer)
                    pb.head = hp
                    pb.entry = hp.entry
                    pb.env = env
                    self.instantiate(pb)
                    self.items.append(('check_inv', pb))
                else:
                    edges[l].append((lab, ge, s))
        if not rets:
            return None, False, State()
        if len(rets) == 1:
            return rets[0][1], rets[0][0], rets[0][2]
        st2 = self.merge_states([(g, s) for g, v, s in rets])
        v = rets[-1][1]
        for g, x, s in reversed(rets[:-1]):
            if x is not None:
                v = self.merge_vals(g, x, v)
        return v, Or(*[r[0] for r in rets]), st2

    pending_guard = None
    cands = {}

    def instantiate(self, point):
        point.inst = []
        for c in self.cands.get(point.label, ()):
            try:
                e = c.at(self, point)
            except Unsupported:
                e = None
            if e is None:
                c.dead = True
                continue
            point.inst.append((c, e))

    def name_guard(self, g, nm):
        if isinstance(g, bool) or z3.is_const(g):
            return g
        b = C.bvar(nm)
        C.defs.append(b == g)
        return b

    def phi_value(self, ins, inc, env, st):
        res = None
        for (p, g, s) in reversed(inc):
            for v, b in ins.ops:
                if b == p:
                    x = self.val(v, env, st)
                    res = x if res is None else self.merge_vals(g, x, res)
                    break
            else:
                raise Unsupported('phi edge')
        return res

    def note_ptrs(self, hkey, vals, hp):
        for r, v in vals.items():
            if isinstance(v, PV):
                ks = self.K.ptrs.setdefault((hkey, r), {})
                for c, b, o in v.alts:
                    k = None if b is None else b.key
                    if k is not None and b not in hp.blocks:
                        raise Unsupported('loop-carried pointer to an object allocated in the loop (%s)' % b.key)
                    if k not in ks:
                        ks[k] = True
                        self.changed = True

    def find_block(self, st, key):
        for b in st.mem:
            if b.key == key:
                return b
        return None

    def havoc_ptr(self, name, keys, st, ent):
        alts = []
        blocks = []
        for k in keys:
            if k is None:
                blocks.append(None)
            else:
                b = self.find_block(st, k)
                if b is None:
                    raise Unsupported('pointer target %s not available at loop head' % k)
                blocks.append(b)
        if len(blocks) == 1:
            b = blocks[0]
            return PV([(True, b, K(0) if b is None else C.var(name + '.off', -PTRLIM, PTRLIM))])
        sel = C.var(name + '.sel', 0, len(blocks) - 1)
        for i, b in enumerate(blocks):
            alts.append((Eq(sel, K(i)), b, K(0) if b is None else C.var(name + '.off%d' % i, -PTRLIM, PTRLIM)))
        return PV(alts)

    def havoc_phi(self, hkey, ins, ent, st):
        t = self.m.resolve(ins.ty)
        if t[0] == 'int':
            w = t[1]
            if w == 1:
                return C.bvar('lp_' + ins.res)
            if ins.res in self.packed:
                return IV(w, C.var('lp_' + ins.res + '_lo', 0, (1 << 32) - 1) + C.var('lp_' + ins.res + '_hi', 0, (1 << 32) - 1) * (1 << 32), u=True)
            if self.K.signed.get((hkey, ins.res)):
                p = C.var('lp_' + ins.res, -(1 << (w - 1)), (1 << (w - 1)) - 1)
                return IV(w, p, s=True)
            return IV(w, C.var('lp_' + ins.res, 0, (1 << w) - 1), u=True)
        if t[0] == 'ptr':
            ks = self.K.ptrs.setdefault((hkey, ins.res), {})
            if isinstance(ent, PV):
                for c, b, o in ent.alts:
                    k = None if b is None else b.key
                    if k not in ks:
                        ks[k] = True
            return self.havoc_ptr('lp_' + ins.res, list(ks), st, ent)
        if t[0] == 'double':
            return FV(z3.Const(C.fresh_name('lpd'), D))
        raise Unsupported('phi of type %s' % (t,))

    def havoc_state(self, hkey, st):
        ms = self.K.mods.get(hkey, {})
        for b in list(st.mem):
            cells = ms.get(b.key)
            if not cells:
                continue
            if 'free' in cells:
                st.freed[b] = C.bvar('freed_' + b.key)
            cs = [c for c in cells if c not in ('*', 'free')]
            if '*' in cells:
                st.mem[b] = self.fresh_base('lm_' + b.key)
            else:
                for (o, size, ty) in sorted(cs, key=str):
                    node = st.mem[b]
                    if ty[0] == 'ptr':
                        ks = self.K.ptrs.setdefault((hkey, (b.key, o)), {})
                        old = self.read(node, K(o), 8, ('ptr',))
                        if isinstance(old, PV):
                            for c, bb, oo in old.alts:
                                ks.setdefault(None if bb is None else bb.key, True)
                        v = self.havoc_ptr('cell_%s_%d' % (b.key, o), list(ks), st, old)
                    elif ty[0] == 'int':
                        if self.K.signed.get((hkey, (b.key, o))):
                            v = IV(ty[1], C.var('cell_%s_%d' % (b.key, o), -(1 << (ty[1] - 1)), (1 << (ty[1] - 1)) - 1), s=True)
                        else:
                            v = IV(ty[1], C.var('cell_%s_%d' % (b.key, o), 0, (1 << ty[1]) - 1), u=True)
                    else:
                        v = self.havoc_val(ty, 'cell')
                    st.mem[b] = Node('store', prev=st.mem[b], off=K(o), size=size, val=v, ty=ty)

    # ---- values
    def val(self, v, env, st):
        if v[0] == 'local':
            try:
                return env[v[2]]
            except KeyError:
                raise Unsupported('use of undefined value %' + v[2])
        return self.constval(v, st)

    def boolval(self, v):
        if v is UNDEF:
            return C.bvar('undef')
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        raise Unsupported('bool expected: %r' % (v,))

    # ---- instructions
    def instr(self, ins, env, g, st, site, path):
        op = ins.op
        V = lambda i: self.val(ins.ops[i], env, st)
        if op == 'alloca':
            n = V(0)
            b = Block(path + '%' + ins.res, n.p * self.m.alloc_size(ins.x), 'stack')
            st.mem[b] = self.fresh_base('stk_' + ins.res)
            return PV([(True, b, K(0))])
        if op == 'load':
            return self.load(V(0), ins.ty, g, st, self.desc(ins, site))
        if op == 'store':
            self.store(V(1), V(0), ins.ops[0][1], g, st, self.desc(ins, site))
            return None
        if op == 'getelementptr':
            base = V(0)
            if base is UNDEF:
                return UNDEF
            if isinstance(base, IV):
                raise Unsupported('gep on integer')
            off = K(0)
            t = None
            for j, o in enumerate(ins.ops[1:]):
                x = self.val(o, env, st)
                if j == 0:
                    t = ins.x
                    off = off + self.sc(x, g, site + '/i%d' % j) * self.m.alloc_size(t)
                else:
                    t = self.m.resolve(t)
                    if t[0] == 'struct':
                        i = x.p.const()
                        off = off + self.m.field_offset(t, i)
                        t = t[1][i]
                    else:
                        t = t[2]
                        off = off + self.sc(x, g, site + '/i%d' % j) * self.m.alloc_size(t)
            return self.ptradd(base, off)
        if op == 'icmp':
            return self.icmp(ins, V(0), V(1), g, site)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            return self.binop(ins, V(0), V(1), g, site)
        if op == 'zext':
            a = V(0)
            w = ins.ty[1]
            if isinstance(a, (bool, z3.BoolRef)):
                return IV(w, b2p(a), u=True)
            if a is UNDEF:
                return a
            p = self.uc(a, g, site)
            return IV(w, p, u=True, s=a.w < w, zw=a.zw)
        if op == 'sext':
            a = V(0)
            w = ins.ty[1]
            if isinstance(a, (bool, z3.BoolRef)):
                return IV(w, -b2p(a), s=True)
            if a is UNDEF:
                return a
            p = self.sc(a, g, site)
            return IV(w, p, s=True)
        if op == 'trunc':
            a = V(0)
            w = ins.ty[1]
            if a is UNDEF:
                return a
            if w == 1:
                if isinstance(a, (bool, z3.BoolRef)):
                    return a
                return Ne(divmod_poly(a.p, 2)[1], K(0))
            m = 1 << w
            if any(c % m == 0 or abs(c) > m for c in a.p.m.values()):
                return IV(w, Poly({k: c for k, c in ((k, (c + m // 2) % m - m // 2) for k, c in a.p.m.items()) if c}))
            return IV(w, a.p)
        if op == 'ptrtoint':
            return self.ptr2int(V(0))
        if op == 'inttoptr':
            return self.int2ptr(V(0))
        if op in ('bitcast', 'freeze'):
            v = V(0)
            if op == 'bitcast' and ins.ty != ins.ops[0][1]:
                return self.coerce(v, self.m.resolve(ins.ty))
            return v
        if op == 'select':
            c = self.boolval(V(0))
            a, b = V(1), V(2)
            if self.m.resolve(ins.ty) == ('int', 1):
                return IteB(c, self.boolval(a), self.boolval(b))
            return self.merge_vals(c, a, b)
        if op == 'extractvalue':
            a = V(0)
            for i in ins.x:
                if a is UNDEF:
                    return UNDEF
                a = a[i]
            return a
        if op == 'insertvalue':
            a = V(0)
            return self.insert(a, ins.ty, ins.x, V(1))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            f = z3.Function('d_' + op, D, D, D)
            return FV(f(V(0).z, V(1).z))
        if op == 'fneg':
            f = z3.Function('d_fneg', D, D)
            return FV(f(V(0).z))
        if op == 'fcmp':
            p = ins.x
            a, b = V(0), V(1)
            f = z3.Function('d_cmp_' + p, D, D, z3.BoolSort())
            return f(a.z, b.z)
        if op == 'uitofp':
            f = z3.Function('d_ofint', z3.IntSort(), D)
            p = self.uc(V(0), g, site)
            if p.is_const():
                return FV(self.fconst(float(p.const())))
            return FV(f(p.z))
        if op == 'sitofp':
            f = z3.Function('d_ofint', z3.IntSort(), D)
            p = self.sc(V(0), g, site)
            if p.is_const():
                return FV(self.fconst(float(p.const())))
            return FV(f(p.z))
        if op in ('fpext', 'fptrunc'):
            f = z3.Function('d_' + op, D, D)
            return FV(f(V(0).z))
        if op in ('fptoui', 'fptosi'):
            f = z3.Function('d_%s%d' % (op, ins.ty[1]), D, z3.IntSort())
            return IV(ins.ty[1], C.atom(f(V(0).z), 0, (1 << ins.ty[1]) - 1, 'fptoi'), u=True)
        if op == 'call':
            return self.do_call(ins, env, g, st, site, path)
        raise Unsupported('instruction: ' + ins.text[:100])

    def desc(self, ins, site):
        import re
        t = ins.text.split(', !')[0]
        return t

    def insert(self, a, ty, idx, v):
        ty = self.m.resolve(ty)
        n = len(ty[1]) if ty[0] == 'struct' else ty[1]
        a = list(a) if isinstance(a, list) else [UNDEF] * n
        i = idx[0]
        if len(idx) == 1:
            a[i] = v
        else:
            t2 = ty[1][i] if ty[0] == 'struct' else ty[2]
            a[i] = self.insert(a[i], t2, idx[1:], v)
        return a

    def icmp(self, ins, a, b, g, site):
        pred = ins.x
        t = self.m.resolve(ins.ops[0][1])
        if a is UNDEF or b is UNDEF:
            return C.bvar('undef')
        if t[0] == 'ptr':
            if pred == 'eq':
                return self.ptr_eq(a, b)
            if pred == 'ne':
                return Not(self.ptr_eq(a, b))
            return self.ptr_cmp(a, b, pred, g, site)
        if t == ('int', 1):
            a, b = self.boolval(a), self.boolval(b)
            if pred == 'eq':
                return IteB(a, b, Not(b))
            if pred == 'ne':
                return IteB(a, Not(b), b)
            pa, pb = b2p(a), b2p(b)
            if pred[0] == 's':
                pa, pb = -pa, -pb
        elif pred in ('eq', 'ne'):
            w = t[1]
            # congruence: equal iff the canonical forms are equal
            d = a.p - b.p
            lo, hi = d.iv
            if lo is not None and hi is not None and lo > -(1 << w) and hi < (1 << w):
                r = Eq(a.p, b.p)
            elif a.s and b.s and not (a.u and b.u):
                r = Eq(a.p, b.p)
            elif a.s and b.p.is_const() and -(1 << (w - 1)) <= b.p.const() < (1 << (w - 1)):
                r = Eq(a.p, b.p)
            elif a.s and b.p.is_const():
                r = Eq(a.p, K(sgn(b.p.const() & ((1 << w) - 1), w)))
            elif not (a.u and b.u) and lo is not None and hi is not None and lo > -(2 << w) and hi < (2 << w):
                r = Or(Eq(a.p, b.p), Eq(a.p, b.p + K(1 << w)), Eq(a.p, b.p - K(1 << w)))
            else:
                r = Eq(self.uc(a, g, site + '/a'), self.uc(b, g, site + '/b'))
            return r if pred == 'eq' else Not(r)
        elif pred[0] == 's':
            pa, pb = self.sc(a, g, site + '/a'), self.sc(b, g, site + '/b')
        else:
            pa, pb = self.uc(a, g, site + '/a'), self.uc(b, g, site + '/b')
        p = pred[1:]
        return Lt(pa, pb) if p == 'lt' else Le(pa, pb) if p == 'le' else Lt(pb, pa) if p == 'gt' else Le(pb, pa)

    def binop(self, ins, a, b, g, site):
        op = ins.op
        t = self.m.resolve(ins.ty)
        if t[0] != 'int':
            raise Unsupported('vector op ' + ins.text[:80])
        w = t[1]
        if a is UNDEF or b is UNDEF:
            return C.bvar('undef') if w == 1 else self.havoc_val(t, 'undef')
        if w == 1:
            a, b = self.boolval(a), self.boolval(b)
            if op == 'and' or op == 'mul':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                return IteB(a, Not(b), b)
            raise Unsupported('i1 ' + op)
        nsw = 'nsw' in ins.x
        if op in ('add', 'sub', 'mul'):
            if nsw:
                pa, pb = self.sc(a, g, site + '/a'), self.sc(b, g, site + '/b')
            else:
                pa, pb = a.p, b.p
                if op == 'mul' and not (a.u and b.u) and not pa.is_const() and not pb.is_const():
                    pa, pb = self.uc(a, g, site + '/a'), self.uc(b, g, site + '/b')
            r = pa + pb if op == 'add' else pa - pb if op == 'sub' else pa * pb
            if nsw:
                lim = 1 << (w - 1)
                self.oblige('overflow', 'signed %s does not overflow: %s' % (op, ins.text.split(', !')[0]), g,
                            And(Le(K(-lim), r), Lt(r, K(lim))))
                return IV(w, r, s=True)
            return IV(w, r)
        if op == 'shl':
            if b.p.is_const():
                return IV(w, a.p * (1 << b.p.const()))
            pb = self.uc(b, g, site + '/b')
            lo, hi = pb.iv
            return IV(w, a.p * self.pow2(pb, min(w - 1, hi if hi is not None else w - 1)))
        if op in ('udiv', 'urem'):
            pa, pb = self.uc(a, g, site + '/a'), self.uc(b, g, site + '/b')
            if pb.is_const():
                if pb.const() == 0:
                    self.oblige('division', 'division by zero', g, False)
                    return self.havoc_val(t, 'div0')
                q, r = divmod_poly(pa, pb.const())
            else:
                self.oblige('division', 'divisor is not zero: ' + ins.text.split(', !')[0], g, Ne(pb, K(0)))
                q, r = divmod_sym(pa, pb)
            return IV(w, q if op == 'udiv' else r, u=True)
        if op in ('sdiv', 'srem'):
            pa, pb = self.sc(a, g, site + '/a'), self.sc(b, g, site + '/b')
            if pb.is_const() and pb.const() > 0:
                d = pb.const()
                if (pa.iv[0] is not None and pa.iv[0] >= 0):
                    q, r = divmod_poly(pa, d)
                    return IV(w, q if op == 'sdiv' else r, s=True)
                key = (site, 'sdivneg')
                if w > 8 and key not in self.K.wrap and not self.spec and not self.K.wrapall:
                    self.soft(key, g, Le(K(0), pa))
                    q, r = divmod_poly(pa, d)
                    return IV(w, q if op == 'sdiv' else r, s=True)
                neg = Lt(pa, K(0))
                q1, r1 = divmod_poly(pa, d)
                q2, r2 = divmod_poly(-pa, d)
                q = Ite(neg, -q2, q1)
                return IV(w, q if op == 'sdiv' else pa - q * d, s=True)
            self.oblige('division', 'divisor is not zero: ' + ins.text.split(', !')[0], g, Ne(pb, K(0)))
            key = (site, 'sdivneg')
            if w > 8 and key not in self.K.wrap and not self.spec and not self.K.wrapall:
                self.soft(key, g, And(Le(K(0), pa), Lt(K(0), pb)))
                q, r = divmod_sym(pa, pb)
                return IV(w, q if op == 'sdiv' else r, s=True)
            na, nb = Lt(pa, K(0)), Lt(pb, K(0))
            A = Ite(na, -pa, pa)
            B = Ite(nb, -pb, pb)
            q, r = divmod_sym(A, B)
            q = Ite(IteB(na, Not(nb), nb), -q, q)
            return IV(w, q if op == 'sdiv' else pa - q * pb, s=True)
        if op == 'lshr':
            pa = self.uc(a, g, site + '/a')
            if b.p.is_const():
                return IV(w, divmod_poly(pa, 1 << b.p.const())[0], u=True)
            pb = self.uc(b, g, site + '/b')
            return IV(w, self.shr(pa, pb, w), u=True)
        if op == 'ashr':
            pa = self.sc(a, g, site + '/a')
            if b.p.is_const():
                return IV(w, divmod_poly(pa, 1 << b.p.const())[0], s=True)
            raise Unsupported('ashr')
        if op in ('and', 'or', 'xor'):
            for x, y in ((a, b), (b, a)):
                if y.p.is_const():
                    c = y.p.const() & ((1 << w) - 1)
                    r = self.bitconst(op, x, c, w, g, site)
                    if r is not None:
                        return r
            pa, pb = self.uc(a, g, site + '/a'), self.uc(b, g, site + '/b')
            if op == 'or' and 'disjoint' in ins.x:
                return IV(w, pa + pb, u=True)
            if op in ('or', 'xor'):
                for x, y, yv in ((pa, pb, b), (pb, pa, a)):
                    gx = x.gcd()
                    if gx and (1 << yv.zw <= (gx & -gx) or (y.iv[1] is not None and y.iv[1] < (gx & -gx))):
                        return IV(w, pa + pb, u=True)
            # 0/1 valued operands
            if pa.iv[1] is not None and pb.iv[1] is not None and pa.iv[1] <= 1 and pb.iv[1] <= 1:
                ca, cb = Ne(pa, K(0)), Ne(pb, K(0))
                c = And(ca, cb) if op == 'and' else Or(ca, cb) if op == 'or' else IteB(ca, Not(cb), cb)
                return IV(w, b2p(c), u=True)
            f = z3.Function('bit_%s_%d' % (op, w), z3.IntSort(), z3.IntSort(), z3.IntSort())
            zz = f(pa.z, pb.z)
            r = C.atom(zz, 0, (1 << w) - 1, 'bit' + op)
            if op == 'and':
                C.defs.append(z3.And(r.z <= pa.z, r.z <= pb.z) if True else None)
                C.defs.append(z3.Implies(pb.z == 0, r.z == 0))
                C.defs.append(z3.Implies(pa.z == 0, r.z == 0))
                # single-bit masks: the other operand is a power of two not larger than 128
                for k in range(0, 8):
                    q, m = divmod_poly(pa, 1 << (k + 1))
                    C.defs.append(z3.Implies(pb.z == (1 << k), r.z == z3.If(m.z >= (1 << k), z3.IntVal(1 << k), z3.IntVal(0))))
            elif op == 'or':
                C.defs.append(z3.And(r.z >= pa.z, r.z >= pb.z, r.z <= pa.z + pb.z))
                C.defs.append(z3.Implies(pb.z == 0, r.z == pa.z))
                C.defs.append(z3.Implies(pa.z == 0, r.z == pb.z))
            else:
                C.defs.append(r.z <= pa.z + pb.z)
                C.defs.append(z3.Implies(pb.z == 0, r.z == pa.z))
                C.defs.append(z3.Implies(pa.z == 0, r.z == pb.z))
                C.defs.append(z3.Implies(pa.z == pb.z, r.z == 0))
            return IV(w, r, u=True)
        raise Unsupported('binop ' + op)

    def pow2(self, p, hi):
        if p.is_const():
            return K(1 << p.const())
        r = K(1)
        for k in range(1, hi + 1):
            r = Ite(Eq(p, K(k)), K(1 << k), r)
        return r

    def shr(self, pa, pb, w):
        lo, hi = pb.iv
        hi = min(w - 1, hi if hi is not None else w - 1)
        ha = pa.iv[1]
        if ha is not None:
            hi = min(hi, ha.bit_length())
        r = K(0)
        for k in range(hi, -1, -1):
            r = Ite(Eq(pb, K(k)), divmod_poly(pa, 1 << k)[0], r)
        return r

    def bitconst(self, op, x, c, w, g, site):
        full = (1 << w) - 1
        if op == 'and':
            if c == 0:
                return IV(w, K(0))
            if c == full:
                return x
            if (c & (c + 1)) == 0:
                return IV(w, divmod_poly(x.p, c + 1)[1], u=True)
            # contiguous mask
            low = (c & -c).bit_length() - 1
            hic = c >> low
            if (hic & (hic + 1)) == 0:
                p = self.uc(x, g, site + '/x')
                q, _ = divmod_poly(p, 1 << low)
                _, r = divmod_poly(q, hic + 1)
                return IV(w, r * (1 << low), u=True)
            # general: sum of bits
            if bin(c).count('1') <= 8:
                p = self.uc(x, g, site + '/x')
                tot = K(0)
                for k in range(w):
                    if c >> k & 1:
                        q, _ = divmod_poly(p, 1 << k)
                        _, r = divmod_poly(q, 2)
                        tot = tot + r * (1 << k)
                return IV(w, tot, u=True)
            return None
        if op == 'or':
            if c == 0:
                return x
            if c == full:
                return IV(w, K(full))
            y = self.bitconst('and', x, c, w, g, site)
            if y is None:
                return None
            return IV(w, x.p + c - y.p)
        if c == 0:
            return x
        if c == full:
            return IV(w, K(-1) - x.p)
        y = self.bitconst('and', x, c, w, g, site)
        if y is None:
            return None
        return IV(w, x.p + c - y.p * 2)

    # ---- calls
    def cstr(self, pv, st):
        c, b, off = pv.alts[0]
        data = b.init_node.data
        o = off.const()
        s = ''
        while data[o][1].p.const():
            s += chr(data[o][1].p.const())
            o += 1
        return s

    def do_call(self, ins, env, g, st, site, path):
        c = ins.x['callee']
        if c[0] == 'global':
            name = c[2]
        else:
            v = self.val(c, env, st)
            if not isinstance(v, FnPtr):
                raise Unsupported('indirect call')
            name = v.name
        args = [None if a[0] == 'meta' else self.val(a, env, st) for a in ins.ops]
        if name.startswith('vpspec'):
            return self.call_spec(name, args, g, st, site)
        f = self.m.functions.get(name)
        if f is not None and f.defined:
            return self.call_real(name, f, ins, args, g, st, site, path)
        import models
        return models.external(self, name, args, ins, g, st, site, path)

    def call_real(self, name, f, ins, args, g, st, site, path):
        if path.count('/') > 12 or ('/' + name + '@') in path:
            raise Unsupported('recursive call of ' + name)
        v, g2, st2 = self.run_function(name, args, g, st, path + '/' + name + '@' + site.split('/')[-1] + '/')
        if g2 is False:
            self.pending_guard = False
            return None
        st.mem = st2.mem
        st.freed = st2.freed
        if g2 is not g:
            self.pending_guard = self.name_guard(g2, 'gret')
        return v

    # ---- ghost functions
    def call_spec(self, name, args, g, st, site):
        alts = [(True, [])]
        for j, a in enumerate(args):
            if isinstance(a, PV):
                new = []
                for c0, l in alts:
                    for c, b, off in a.alts:
                        cc = And(c0, c)
                        if cc is not False and b is not None:
                            new.append((cc, l + [('p', b, off)]))
                alts = new
            elif isinstance(a, IV):
                p = self.sc(a, g, site + '/s%d' % j)
                alts = [(c, l + [('i', a.w, p)]) for c, l in alts]
            elif isinstance(a, (bool, z3.BoolRef)):
                alts = [(c, l + [('b', a)]) for c, l in alts]
            else:
                raise Unsupported('ghost argument %r' % (a,))
        res = None
        for c, l in reversed(alts):
            v = self.spec_term(name, l, st)
            res = v if res is None else Ite(c, v, res)
        if res is None:
            return IV(64, K(0))
        return IV(64, res, s=True)

    def spec_term(self, name, l, st):
        ukey = [name]
        zargs = []
        for x in l:
            if x[0] == 'p':
                # memory identity: the block, its version
                ukey.append((x[1].key, st.mem[x[1]].id))
                zargs.append(x[2])
            elif x[0] == 'i':
                zargs.append(x[2])
            else:
                zargs.append(b2p(x[1]))
        ukey = tuple(ukey)
        key = (ukey, tuple(p.key for p in zargs))
        ent = self.spec_cache.get(key)
        if ent is None:
            fn = self.spec_fn.get(ukey)
            if fn is None:
                fn = z3.Function(C.fresh_name(name), *([z3.IntSort()] * len(zargs) + [z3.IntSort()]))
                self.spec_fn[ukey] = fn
            lo = hi = None
            fl = spec_flags(name)
            if 'b' in fl:
                lo, hi = 0, 1
            elif 'n' in fl:
                lo = 0
            app = C.atom(fn(*[p.z for p in zargs]) if zargs else z3.Int(C.fresh_name(name)), lo, hi, name)
            ent = [app, 99, zargs]
            self.spec_cache[key] = ent
            if fl:
                self.spec_used.add(name)
                if zargs and set(fl) & {'u', 'd', 'c', 'm', 's'}:
                    self.spec_apps.setdefault((name,) + ukey, []).append((app, zargs))
                    if not (zargs[-1].is_const() and zargs[-1].const() == 0) and not self.spec_lawing:
                        zero = l[:-1] + [('i', l[-1][1], K(0))]
                        d0, self.spec_depth = self.spec_depth, 0
                        self.spec_term(name, zero, st)
                        self.spec_depth = d0
        d = self.spec_depth + (1 if self.spec_cur not in (None, name) else 0)
        base = bool(zargs) and zargs[-1].is_const() and zargs[-1].const() <= 0
        if (d < self.max_spec_depth or (base and ent[1] == 99)) and d < ent[1]:
            ent[1] = d
            self.unfold(name, l, st, ent[0], d)
        return ent[0]

    def unfold(self, name, l, st, app, d):
        args = []
        for x in l:
            if x[0] == 'p':
                args.append(PV([(True, x[1], x[2])]))
            elif x[0] == 'i':
                args.append(IV(x[1], x[2], s=True))
            else:
                args.append(x[1])
        self.spec += 1
        olddepth = self.spec_depth
        self.spec_depth = d + 1
        caller, self.spec_cur = self.spec_cur, name
        saved = self.loopstack, self.pending_guard
        self.loopstack = []
        try:
            s2 = st.copy()
            v, g2, _ = self.run_function(name, args, True, s2, 'spec:')
            self.items.append(('fact', bz(Eq(app, self.sc(v, True, 'spec:' + name)))))
        finally:
            self.spec -= 1
            self.spec_depth = olddepth
            self.spec_cur = caller
            self.loopstack, self.pending_guard = saved

    def spec_laws(self):
        self.spec_lawing = True
        """obligations: the laws announced in the name of a ghost function, by induction on its last argument"""
        for name in sorted(self.spec_used):
            f = self.m.functions[name]
            st = State()
            l = []
            l1 = []
            for i, p in enumerate(f.params):
                t = self.m.resolve(p[1])
                if t[0] == 'ptr':
                    b = Block('law:%s:%d' % (name, i), C.var('lawsz', 0, None), 'heap')
                    st.mem[b] = self.fresh_base('law')
                    o = C.var('lawoff', 0, None)
                    l.append(('p', b, o))
                    l1.append(('p', b, o))
                else:
                    v = C.var('lawarg', -(1 << 40), 1 << 40)
                    l.append(('i', t[1], v))
                    l1.append(('i', t[1], v))
            l1[-1] = ('i', l1[-1][1], l1[-1][2] - 1)
            n = len(self.items)
            fl = spec_flags(name)
            args = [PV([(True, x[1], x[2])]) if x[0] == 'p' else IV(x[1], x[2], s=True) for x in l]
            self.spec += 1
            self.spec_depth = 1
            saved = self.loopstack, self.pending_guard
            self.loopstack = []
            try:
                v, g2, _ = self.run_function(name, args, True, st.copy(), 'spec:')
                v = self.sc(v, True, 'law')
                self.spec_depth = 0
                prev = self.spec_term(name, l1, st) if set(fl) & {'u', 'd', 'c', 'm', 's'} else None
            finally:
                self.spec -= 1
                self.spec_depth = 0
                self.loopstack, self.pending_guard = saved
            for c in fl:
                cond = {'b': lambda: And(Le(K(0), v), Le(v, K(1))), 'n': lambda: Le(K(0), v), 'u': lambda: Le(prev, v),
                        'd': lambda: Le(v, prev), 'c': lambda: Le(v, prev + (1 << fl[c])),
                        's': lambda: Or(Eq(prev, K(0)), Eq(v, prev)),
                        'm': lambda: Le(v, prev + Ite(Le(K(0), l[-2][2]), l[-2][2], K(0)))}[c]()
                self.items.append(('obl', Obl('lemma', 'law %s of ghost function %s' % (c, name), True, cond)))

    def ghost(self, fname, args, st):
        """evaluate a ghost closure in a state"""
        self.spec += 1
        saved = self.loopstack, self.pending_guard
        self.loopstack = []
        try:
            v, g, _ = self.run_function(fname, args, True, st.copy(), 'ghost:')
            return v
        finally:
            self.spec -= 1
            self.loopstack, self.pending_guard = saved

    def eval_pred(self, name, st):
        fn, ctx = self.preds[name]
        return self.boolval(self.ghost(fn, [ctx], st))

    def eval_fn2(self, name, st, a, b):
        fn, ctx = self.fns2[name]
        return self.sc(self.ghost(fn, [ctx, IV(64, a, s=True), IV(64, b, s=True)], st), True, 'ghostfn:' + name)

    def eval_fn(self, name, st, e):
        fn, ctx = self.fns[name]
        return self.sc(self.ghost(fn, [ctx, IV(64, e, s=True)], st), True, 'ghostfn:' + name)


class StopPath_:
    pass


class NewGuard:
    pass


StopPath = StopPath_()


def spec_flags(name):
    """laws of a ghost function: {letter: number}"""
    return {a: int(b or 0) for a, b in re.findall(r'([a-z])(\d*)', name[6:].split('_', 1)[0])}


class Knowledge:
    """what successive symbolic runs have to agree on; only ever grows"""

    def __init__(self):
        self.depth = 4
        self.wrapall = False
        self.wrap = set()
        self.mods = {}
        self.ptrs = {}
        self.elem = {}
        self.signed = {}
        self.types = {}
