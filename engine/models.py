"""Assumed contracts of the external functions the extracted code calls (C++ runtime, libc, ghost primitives)."""
import z3
import sym
import symexec as S
from sym import Poly, K, C, And, Or, Not, Implies, Ite, IteB, b2p, Lt, Le, Eq, Ne, bz


def external(x, name, args, ins, g, st, site, path):
    from symexec import IV, PV, FV, Node, Block, Unsupported, StopPath, NULLP, UNDEF
    if name in ('vp_input', 'vp_any'):
        s = x.cstr(args[0], st)
        lo = x.sc(args[1], g, site + '/lo').const()
        hi = x.sc(args[2], g, site + '/hi').const()
        p = C.var(('in_' if name == 'vp_input' else 'any_') + s, lo, hi)
        x.inputs[s] = p
        if name == 'vp_any':
            x.anys.append(s)
        return IV(64, p, s=True)
    if name == 'vp_block':
        s = x.cstr(args[0], st)
        n = x.uc(args[1], g, site + '/n')
        esz = x.uc(args[2], g, site + '/e').const()
        b = Block('in:' + s, n * esz, 'heap')
        st.mem[b] = Node('base', name='blk_' + s)
        cs = x.cstr(args[3], st)
        if cs.startswith('#'):     # precondition on every element
            lo, hi = (int(t) for t in cs[1:].split(','))
            st.mem[b].range = (esz, lo, hi)
        if cs.startswith('@'):     # precondition: only the bits of the mask are set
            st.mem[b].range = ('mask', esz, int(cs[1:], 16))
        x.in_blocks[s] = (b, st.mem[b], n, esz)
        return PV([(True, b, K(0))])
    if name == 'vp_alloc':
        s = x.cstr(args[0], st)
        b = Block('vpalloc:' + s + path + '%' + str(ins.res), K(1 << 40), 'heap')
        st.mem[b] = x.fresh_base('vpalloc')
        return PV([(True, b, K(0))])
    if name == 'vp_assume':
        x.fact(g, x.boolval(args[0]))
        return None
    if name == 'vp_assert':
        x.oblige('assert', x.cstr(args[1], st), g, x.boolval(args[0]))
        x.assert_labels = getattr(x, 'assert_labels', [])
        x.assert_labels.append(x.cstr(args[1], st))
        return None
    if name == 'vp_readable':      # part of a callee's precondition: n bytes at p may be read
        n = x.uc(args[1], g, site + '/n')
        gz = And(g, Lt(K(0), n))
        for c, b, off in args[0].alts:
            gg = And(gz, c)
            if gg is False:
                continue
            if b is None:
                x.oblige('memory', 'callee precondition: readable', gg, False)
                continue
            x.oblige('memory', 'callee precondition: readable', gg, And(Le(K(0), off), Le(off + n, b.size)))
            x.oblige('memory', 'callee precondition: not freed', gg, Not(st.freed.get(b, False)))
        return None
    if name == 'vp_cover':
        x.covers.append((x.cstr(args[0], st), g))
        return None
    if name == 'vp_on_throw':
        x.throw_ok = (x.boolval(args[0]), x.cstr(args[1], st))
        return None
    if name == 'vp_pred_':
        x.preds[x.cstr(args[0], st)] = (args[1].name, args[2])
        return None
    if name == 'vp_fn2_':
        x.fns2[x.cstr(args[0], st)] = (args[1].name, args[2])
        return None
    if name == 'vp_fn_':
        x.fns[x.cstr(args[0], st)] = (args[1].name, args[2])
        return None
    if name == 'vp_lemma_':
        # induction on the argument of the closure: base, step for a fresh k, then the instance asked for
        s = x.cstr(args[0], st)
        n = x.sc(args[3], g, site + '/n')
        k = C.var('lemma_k', 1, 1 << 40)
        at = lambda p: x.boolval(x.ghost(args[1].name, [args[2], IV(64, p, s=True)], st))
        x.oblige('lemma', 'base case of ' + s, g, at(K(0)))
        x.oblige('lemma', 'induction step of ' + s, And(g, Le(k, n)), Implies(at(k - 1), at(k)))
        x.fact(And(g, Le(K(0), n)), at(n))
        return None
    if name == 'vp_forall_':
        # the closure holds for every k in [0, n): proved for a fresh k, then used for the counter of every loop
        s = x.cstr(args[0], st)
        n = x.sc(args[3], g, site + '/n')
        k = C.var('all_k', 0, 1 << 40)
        at = lambda p, st=st: x.boolval(x.ghost(args[1].name, [args[2], IV(64, p, s=True)], st))
        x.oblige('lemma', 'for all: ' + s, And(g, Lt(k, n)), at(k))
        x.foralls.append((n, at))
        return None
    if name == 'vp_each_':       # precondition: the closure holds for every record of an input block
        b, node, _, _ = x.in_blocks[x.cstr(args[0], st)]
        e = {'size': x.uc(args[1], g, site + '/e').const(), 'fn': args[2].name, 'ctx': args[3], 'n': x.sc(args[4], g, site + '/n'),
             'st': st.copy(), 'done': set()}
        x.each.setdefault(node.id, []).append(e)
        return None
    if name == 'vp_setup_':      # concrete runs only: helps to draw inputs that satisfy the preconditions
        return None
    if name == 'vp_cell':
        x.cells[x.cstr(args[0], st)] = (x.sc(args[1], g, site + '/i'), args[2])
        return None
    if name == 'vp_val':
        x.vals[x.cstr(args[0], st)] = x.sc(args[1], g, site + '/v')
        return args[1]
    if name.startswith(('llvm.lifetime', 'llvm.experimental', 'llvm.dbg', 'llvm.invariant')):
        return None
    if name.startswith('llvm.assume'):
        return None
    if name.startswith('llvm.expect'):
        return args[0]
    if name in ('_Znwm', '_Znam', 'malloc'):
        n = x.uc(args[0], g, site + '/n')
        b = Block('heap' + path + '%' + str(ins.res), n, 'heap')
        st.mem[b] = x.fresh_base('heap')
        x.allocs.setdefault(b.key, b)
        return PV([(True, b, K(0))])
    if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
        p = args[0]
        for c, b, off in p.alts:
            gg = And(g, c)
            if b is None or gg is False:
                continue
            x.oblige('memory', 'free of a valid block', gg, And(Eq(off, K(0)), b.kind == 'heap', Not(st.freed.get(b, False))))
            for (hk, blocks) in x.loopstack:
                if b in blocks:
                    cells = x.K.mods.setdefault(hk, {}).setdefault(b.key, set())
                    if 'free' not in cells:
                        cells.add('free')
                        x.changed = True
            st.freed[b] = Or(st.freed.get(b, False), c)
        return None
    if name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove'):
        n = x.uc(args[2], g, site + '/n')
        return memcopy(x, args[0], args[1], n, g, st, site)
    if name.startswith('llvm.memset') or name == 'memset':
        n = x.uc(args[2], g, site + '/n')
        v = args[1].p
        if n.is_const() and n.const() == 0:
            return args[0]
        gz = And(g, Lt(K(0), n))
        for c, b, off in args[0].alts:
            gg = And(gz, c)
            if gg is False:
                continue
            if b is None:
                x.oblige('memory', 'memset of null', gg, False)
                continue
            x.oblige('memory', 'in bounds: memset', gg, And(Le(K(0), off), Le(off + n, b.size)))
            x.oblige('memory', 'use after free: memset', gg, Not(st.freed.get(b, False)))
            x.note_mod(b, None, 0, None)
            old = st.mem[b]
            new = Node('fill', prev=old, off=off, len=n, val=v)
            if c is not True:
                new = Node('merge', cond=c, prev=new, other=old)
            st.mem[b] = new
        return args[0]
    if name.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
        signed = name[5] == 's'
        w = ins.ty[1]
        a = x.canon(args[0], signed, g, site + '/a')
        b = x.canon(args[1], signed, g, site + '/b')
        r = Ite(Lt(a, b), b, a) if 'max' in name else Ite(Lt(a, b), a, b)
        return IV(w, r, u=not signed, s=signed)
    if name.startswith('llvm.is.constant'):
        return False
    if name.startswith(('llvm.umul.with.overflow', 'llvm.uadd.with.overflow', 'llvm.usub.with.overflow')):
        w = x.m.resolve(ins.ops[0][1])[1]
        a, b = x.uc(args[0], g, site + '/a'), x.uc(args[1], g, site + '/b')
        r = a * b if 'umul' in name else a + b if 'uadd' in name else a - b
        o = Or(Lt(r, K(0)), Lt(K((1 << w) - 1), r))
        return [IV(w, r, u=o is False), o]
    if name.startswith('llvm.abs'):
        w = ins.ty[1]
        a = x.sc(args[0], g, site + '/a')
        return IV(w, Ite(Lt(a, K(0)), -a, a))
    if name in ('memcmp', 'bcmp'):
        return memcmp(x, name, args, ins, g, st, site)
    if name == 'strlen':
        pv = args[0]
        try:
            s = x.cstr(pv, st)
            return IV(64, K(len(s)))
        except Exception:
            raise Unsupported('strlen of a symbolic string')
    if name == '__cxa_allocate_exception':
        b = Block('exc' + path + '%' + str(ins.res), K(4096), 'heap')
        st.mem[b] = x.fresh_base('exc')
        return PV([(True, b, K(0))])
    if name == '__cxa_throw' or '__throw_' in name or name.startswith('vp_throw'):
        ok, label = x.throw_ok if x.throw_ok else (False, 'no exception escapes')
        x.oblige('throw', label + ' (%s)' % name, g, ok)
        x.throws.append((name, g))
        x.pending_guard = False
        return None
    if name in ('__assert_fail', 'abort', '_ZSt9terminatev', '__clang_call_terminate', 'llvm.trap'):
        x.oblige('abort', name + ' not reached', g, False)
        x.pending_guard = False
        return None
    if name in ('__cxa_atexit', '__cxa_free_exception', '__cxa_guard_release', '__cxa_guard_abort'):
        return None
    raise Unsupported('external function ' + name)


def memcopy(x, dst, src, n, g, st, site):
    from symexec import IV, PV, Node, Block, Unsupported
    if n.is_const() and n.const() == 0:
        return dst
    gz = And(g, Lt(K(0), n))
    srcs = []
    for c, b, off in src.alts:
        gg = And(gz, c)
        if gg is False:
            continue
        if b is None:
            x.oblige('memory', 'copy from null', gg, False)
            continue
        x.oblige('memory', 'in bounds: copy source', gg, And(Le(K(0), off), Le(off + n, b.size)))
        x.oblige('memory', 'use after free: copy source', gg, Not(st.freed.get(b, False)))
        srcs.append((c, st.mem[b], off))
    if not srcs:
        return dst
    news = []
    for c, b, off in dst.alts:
        gg = And(gz, c)
        if gg is False:
            continue
        if b is None:
            x.oblige('memory', 'copy to null', gg, False)
            continue
        x.oblige('memory', 'in bounds: copy target', gg, And(Le(K(0), off), Le(off + n, b.size)))
        x.oblige('memory', 'use after free: copy target', gg, Not(st.freed.get(b, False)))
        if n.is_const() and off.is_const() and n.const() <= 64:
            note_cells(x, b, off.const(), n.const(), srcs)
        else:
            x.note_mod(b, None, 0, None)
            for (hk, blocks) in x.loopstack:
                if b in blocks:
                    ss = x.K.elem.setdefault((hk, b.key), set())
                    ss.add(1)
        old = st.mem[b]
        new = None
        for c2, node, so in reversed(srcs):
            nn = Node('copy', prev=old, off=off, len=n, src=node, srcoff=so)
            new = nn if new is None else Node('merge', cond=c2, prev=nn, other=new)
        if c is not True:
            new = Node('merge', cond=c, prev=new, other=old)
        news.append((b, new))
    for b, new in news:
        st.mem[b] = new
    return dst


def note_cells(x, b, off, n, srcs):
    """small fixed-size copies into a loop-modified block: note the cells by the layout of the source"""
    if not any(b in blocks for _, blocks in x.loopstack):
        return
    o = 0
    while o < n:
        for (sz, ty) in ((8, ('ptr',)), (4, ('int', 32)), (8, ('int', 64)), (2, ('int', 16)), (1, ('int', 8))):
            pass
        x.note_mod(b, None, 0, None)
        break


def memcmp(x, name, args, ins, g, st, site):
    from symexec import IV, PV, Node, Block, Unsupported
    n = x.uc(args[2], g, site + '/n')
    for k, pv in enumerate(args[:2]):
        for c, b, off in pv.alts:
            gg = And(g, c, Lt(K(0), n))
            if gg is False:
                continue
            if b is None:
                x.oblige('memory', 'compare with null', gg, False)
                continue
            x.oblige('memory', 'in bounds: compare operand %d' % k, gg, And(Le(K(0), off), Le(off + n, b.size)))
    if n.is_const() and n.const() <= 16:
        conds = []
        lt = None
        eq = True
        r = K(0)
        items = []
        for i in range(n.const()):
            a = x.load(x.ptradd(args[0], K(i)), ('int', 8), False, st, 'memcmp')
            b = x.load(x.ptradd(args[1], K(i)), ('int', 8), False, st, 'memcmp')
            pa, pb = x.uc(a, g, site), x.uc(b, g, site)
            items.append((pa, pb))
        for pa, pb in reversed(items):
            r = Ite(Eq(pa, pb), r, Ite(Lt(pa, pb), K(-1), K(1)))
        return IV(32, r, s=True)
    # general case: result determined by the first difference d (a ghost index), universally instantiated at witnesses
    if len(args[0].alts) == 1 and len(args[1].alts) == 1:
        _, b1, o1 = args[0].alts[0]
        _, b2, o2 = args[1].alts[0]
        if b1 is None or b2 is None:
            return IV(32, K(0))
        n1, n2 = st.mem[b1], st.mem[b2]
        key = ('memcmp', n1.id, o1.key, n2.id, o2.key, n.key)
        if key in C.cache:
            return IV(32, C.cache[key], s=True)
        # one result per memory version: a function of the operands
        I3 = [z3.IntSort()] * 4
        r = C.atom(z3.Function('memcmp_%d_%d' % (n1.id, n2.id), *I3)(o1.z, o2.z, n.z), -1, 1, 'memcmp')
        d = C.atom(z3.Function('memcmpd_%d_%d' % (n1.id, n2.id), *I3)(o1.z, o2.z, n.z), 0, None, 'memcmp_d')
        C.cache[key] = r
        only = getattr(x, 'opts', {}).get('memcmp')   # opts memcmp=<witness>: only the consequence of equality, at that witness

        def at(e):
            a = x.read(n1, o1 + e, 1, ('int', 8))
            b = x.read(n2, o2 + e, 1, ('int', 8))
            return x.uc(a, True, site + '/ma'), x.uc(b, True, site + '/mb')
        if only:
            if only in x.inputs:
                e = x.inputs[only]
                qa, qb = at(e)
                x.items.append(('fact', bz(Or(Not(And(Le(K(0), e), Lt(e, n), Eq(r, K(0)))), Eq(qa, qb)))))
            return IV(32, r, s=True)
        pa, pb = at(d)
        diff = And(Lt(d, n), Ne(pa, pb))
        x.items.append(('fact', bz(IteB(Eq(r, K(0)), True, And(diff, IteB(Lt(pa, pb), Eq(r, K(-1)), Eq(r, K(1))))))))
        insts = getattr(x, 'forall', None)
        if insts is None:
            insts = x.forall = []

        def inst(e):
            qa, qb = at(e)
            # below the first difference (or below n when equal) the bytes agree
            return Or(Not(And(Le(K(0), e), Lt(e, n), Or(Eq(r, K(0)), Lt(e, d)))), Eq(qa, qb))
        insts.append(inst)
        # instantiate at the witnesses known now
        for s in x.anys:
            x.items.append(('fact', bz(inst(x.inputs[s]))))
        for s, (i, v) in x.cells.items():
            x.items.append(('fact', bz(inst(i - o1))))
        for s, v in x.vals.items():
            x.items.append(('fact', bz(inst(v))))
        return IV(32, r, s=True)
    raise Unsupported('memcmp')
