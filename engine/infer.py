"""Guessing of loop invariants from concrete runs of the extracted code.  Everything guessed here is an untrusted
candidate: it enters a proof only after the solver has shown it to be inductive."""
import random
import z3
from sym import Poly, K, C, And, Or, Not, Implies, Ite, Lt, Le, Eq, Ne, b2p
import symexec
from symexec import IV, PV, Unsupported, packed_phis
from sym import divmod_poly
import interp as I
from interp import sgn

P = (1 << 61) - 1


class Var:
    """an observable integer at a loop head"""
    __slots__ = ('name', 'mod', 'sym', 'col', 'cost', 'elem')

    def __init__(self, name, mod, sym, cost=1):
        self.name = name
        self.mod = mod       # changes while the loop runs
        self.sym = sym       # (exec, point) -> Poly
        self.cost = cost
        self.elem = None


class Cand:
    __slots__ = ('name', 'fn', 'dead', 'kind', 'bound', 'loop')

    def __init__(self, name, fn, kind, bound=False):
        self.name = name
        self.fn = fn
        self.kind = kind
        self.bound = bound
        self.dead = False

    def at(self, x, pt):
        return self.fn(x, pt)


def ival(x, v, pt, site, signed):
    if isinstance(v, IV):
        return x.sc(v, pt.guard, site) if signed else x.uc(v, pt.guard, site)
    if isinstance(v, PV):
        if len(v.alts) == 1 and v.alts[0][1] is not None:
            return v.alts[0][2]
        blocks = [a for a in v.alts if a[1] is not None]
        if blocks:
            r = blocks[-1][2]
            for c, b, o in reversed(v.alts[:-1]):
                r = Ite(c, o if b is not None else K(0), r)
            return r
        return None
    if isinstance(v, (bool, z3.BoolRef)):
        return b2p(v)
    return None


class PackedPart:
    ty = ('int', 32)


class Miner:
    def __init__(self, mod, entry, know, ex, seed=1, nruns=60, small=5, time_limit=40, opts=None):
        self.opts = opts or {}
        """ex: a finished symbolic run, used for the structure (loops, modified cells, live-ins)"""
        self.m = mod
        self.entry = entry
        self.know = know
        self.ex = ex
        self.f = mod.functions[entry]
        self.info = symexec.analyse_loops(self.f)
        self.rows = {h: [] for h in self.info.body}
        self.nruns = nruns
        self.rng = random.Random(seed)
        self.small = small
        self.time_limit = time_limit
        self.ok = 0
        self.prepare()

    def prepare(self):
        f, info = self.f, self.info
        defs = {}
        for b in info.rpo:
            for ins in f.blocks[b]:
                if ins.res is not None:
                    defs[ins.res] = (b, ins)
        self.defs = defs
        self.packed = packed_phis(f)
        for n in self.packed:
            for e in ('#lo', '#hi'):
                defs[n + e] = (defs[n][0], PackedPart())
        self.loopvars = {}
        for h in info.body:
            phis = [i for i in f.blocks[h] if i.op == 'phi']
            live = []
            seen = set()
            for b in info.body[h]:
                for ins in f.blocks[b]:
                    ops = []
                    for o in ins.ops:
                        if ins.op == 'phi':
                            o = o[0]
                        ops.append(o)
                    if ins.op == 'switch':
                        pass
                    for o in ops:
                        if o and o[0] == 'local' and o[2] not in seen:
                            seen.add(o[2])
                            d = defs.get(o[2])
                            if d and d[0] not in info.body[h]:
                                t = self.m.resolve(o[1])
                                if t[0] in ('int', 'ptr') and d[1].op != 'alloca':
                                    live.append((o[2], t))
            outer = [x for x in info.loops_of[h] if x != h]
            self.loopvars[h] = (phis, live, outer)

    # ---- concrete collection
    def collect(self):
        import time, sys
        sys.setrecursionlimit(20000)
        t0 = time.time()
        it = I.Interp(self.m, self.rng)
        it.headers = self.info.back
        self.it_ = it
        tries = 0
        self.statuses = {}
        self.conc_fail = []
        while self.ok < self.nruns and tries < self.nruns * 40 and time.time() - t0 < self.time_limit:
            tries += 1
            it.small = self.rng.choice([1, 2, self.small, self.small, self.small + 2])
            it.header_cb = None
            self.tmp = {h: [] for h in self.info.body}
            it.visits = {}
            forced = {}
            try:
                it.reset()
                it.forced = forced
                it.anys = []
                it.its = {}
                it.entryvals = {}
                it.header_cb = self.on_header
                it.call(self.entry, [], top=True)
                st = 'ok'
            except I.Reject:
                st = 'reject'
            except I.Thrown:
                st = 'throw'
            except I.Budget:
                st = 'budget'
            except I.Crash as e:
                st = 'crash'
                self.conc_fail.append((str(e), dict(it.inputs)))
            except RecursionError:
                st = 'budget'
            self.statuses[st] = self.statuses.get(st, 0) + 1
            if st in ('ok', 'throw'):
                self.ok += 1
                for l in it.failures:
                    self.conc_fail.append((l, dict(it.inputs)))
            if st in ('ok', 'throw', 'budget') or (st == 'crash'):
                for h, rs in self.tmp.items():
                    self.rows[h].extend(rs)
        return self.statuses

    def on_header(self, it, label, env):
        n = it.visits.get(label, 0) + 1
        it.visits[label] = n
        if n > 12 and self.rng.random() > 8.0 / n:
            return
        if len(self.rows[label]) + len(self.tmp[label]) > 700:
            return
        row = {}
        phis, live, outer = self.loopvars[label]
        for ins in phis:
            self.put(row, it, env, ins)
        for r, t in live:
            if r in env:
                row['l:' + r] = self.cv(it, env[r], t)
        row['it'] = it.its[label]
        if row['it'] == 0:
            it.entryvals[label] = {'e:' + n: row['p:' + n] for ins in phis if ins.ty != ('int', 1) for n in self.parts(ins)}
        row.update(it.entryvals[label])
        for o in outer:
            row['it:' + o] = it.its.get(o, 0)
            for ins in self.loopvars[o][0]:
                self.put(row, it, env, ins)
        for s, v in it.inputs.items():
            row['in:' + s] = v
        for s, v in it.vals.items():
            row['v:' + s] = v
        for s, (i, v) in it.cells.items():
            row['ci:' + s] = i
        hk = ('', label)
        for bkey, cells in self.know.mods.get(hk, {}).items():
            b = it.bykey.get(bkey)
            if b is None or not b.alive:
                continue
            for c in cells:
                if c in ('*', 'free'):
                    continue
                o, size, ty = c
                if o + size > b.size:
                    continue
                v = int.from_bytes(b.mem[o:o + size], 'little')
                row['c:%s:%d' % (bkey, o)] = self.cv(it, v, ty)
            if '*' in cells:
                row['bs:' + bkey] = b.size
                for esz in self.know.elem.get((hk, bkey), ()):
                    for s, (i, v) in it.cells.items():
                        if 0 <= i * esz and i * esz + esz <= b.size:
                            got = int.from_bytes(b.mem[i * esz:i * esz + esz], 'little')
                            row['?cell:%s:%s:%d' % (s, bkey, esz)] = int(got == v & ((1 << 8 * esz) - 1))
        # ghost observations
        steps = it.steps
        for nme in it.preds:
            try:
                row['?' + nme] = it.eval_pred(nme)
            except I.Crash:
                pass
        lin = []
        if not any(i.ty == ('ptr',) for i in phis):
            for X in it.inputs:
                if X not in it.anys:
                    for o in outer[-1:]:
                        lin.append('lin:%s:%s' % (o, X))
                        row[lin[-1]] = row['it:' + o] * it.inputs[X] + row['it']
                    if not outer:
                        lin.append('lin::%s' % X)
                        row[lin[-1]] = row['it'] * it.inputs[X]
        for nme in it.fns:
            for a in self.fn_args(label) + sorted(it.entryvals[label]) + lin:
                if not self.kindok(nme.partition(':')[2][:1], a, label):
                    continue
                e = row.get(a)
                if e is None or abs(e) > 100000:
                    continue
                try:
                    row['f:%s(%s)' % (nme, a)] = it.eval_fn(nme, e)
                except I.Crash:
                    pass
        for nme in it.fns2:
            for a, b in self.fn2_args(label) + [(l, b) for l in lin for b in ['it:' + o for o in outer[-1:]]]:
                if not (self.kindok(nme.partition(':')[2][:1], a, label) and self.kindok(nme.partition(':')[2][1:], b, label)):
                    continue
                p, q = row.get(a), row.get(b)
                if p is None or q is None or abs(p) > 100000 or abs(q) > 100000:
                    continue
                try:
                    row['f:%s(%s,%s)' % (nme, a, b)] = it.eval_fn2(nme, p, q)
                except I.Crash:
                    pass
        it.steps = steps
        self.tmp[label].append(row)

    def junk(self, rows, a):
        return all((r.get(a) or 0) <= 1 for r in rows)

    def kindok(self, kind, a, label):
        """is a an argument of the declared kind: p position, n count of iterations, i integer"""
        if not kind:
            return not a.startswith('lin:')
        t = self.tyclass(a)
        if kind == 'p':
            return t == 2 or t == 3 or (t == 0 and a == 'it' and not any(i.ty == ('ptr',) for i in self.loopvars[label][0]))
        if kind == 'n' or kind == 'c':
            return t == 0 or t == 1
        return t <= 1

    def tyc(self, a):
        if a.startswith(('p:', 'e:', 'l:')):
            d = self.defs.get(a[2:])
            return 0 if d is None else 2 if d[1].ty and self.m.resolve(d[1].ty)[0] == 'ptr' else 1
        return 1 if a.startswith('c:') else 0

    def induction(self, rows, a):
        """a steps by a constant in every iteration"""
        k = None
        for r in rows:
            v, e, i = r.get(a), r.get('e:' + a[2:]), r.get('it')
            if v is None or e is None or not i:
                continue
            if (v - e) % i:
                return False
            if k is None:
                k = (v - e) // i
            if k != (v - e) // i:
                return False
        return k is not None and k != 0

    def tyclass(self, a):
        """1 integer, 2 pointer, 0 iteration count, 3 linear position"""
        if a.startswith('lin:'):
            return 3
        if a.startswith('it'):
            return 0
        d = self.defs.get(a[2:])
        return 2 if d is not None and self.m.resolve(d[1].ty)[0] == 'ptr' else 1

    def fn2_args(self, label):
        phis, live, outer = self.loopvars[label]
        A = ['it'] + ['p:' + n for i in phis for n in self.parts(i) if i.ty != ('int', 1) and '__trip_count' not in i.res]
        B = ['it:' + o for o in outer]
        for o in outer:
            B += ['p:' + n for i in self.loopvars[o][0] for n in self.parts(i) if i.ty != ('int', 1)]
        return [(a, b) for a in A for b in B if not (a == 'it') ^ b.startswith('it:')][:16] + [(a, b) for a in A for b in B if (a == 'it') ^ b.startswith('it:')][:8]

    def fn_args(self, label):
        phis, live, outer = self.loopvars[label]
        r = ['it'] + ['p:' + n for i in phis for n in self.parts(i) if self.m.resolve(i.ty)[0] in ('int', 'ptr') and i.ty != ('int', 1)]
        r = [a for a in r if '__trip_count' not in a]
        r += ['it:' + o for o in outer]
        for o in outer:
            r += ['p:' + n for i in self.loopvars[o][0] for n in self.parts(i) if i.ty != ('int', 1)]
        hk = ('', label)
        for bkey, cells in self.know.mods.get(hk, {}).items():
            for c in cells:
                if c not in ('*', 'free') and c[2][0] in ('int', 'ptr') and c[2] != ('int', 8):
                    r.append('c:%s:%d' % (bkey, c[0]))
        return r[:10]

    def parts(self, ins):
        return [ins.res + '#lo', ins.res + '#hi'] if ins.res in self.packed else [ins.res]

    def put(self, row, it, env, ins):
        v = self.cv(it, env[ins.res], ins.ty)
        if ins.res in self.packed:
            row['p:' + ins.res + '#lo'] = v & 0xffffffff
            row['p:' + ins.res + '#hi'] = v >> 32
        else:
            row['p:' + ins.res] = v

    def part(self, name, p):
        if p is None or '#' not in name:
            return p
        q, r = divmod_poly(p, 1 << 32)
        return r if name.endswith('#lo') else q

    def cv(self, it, v, ty):
        ty = self.m.resolve(ty)
        if ty[0] == 'ptr':
            i = v >> I.SH
            return v & I.MASK if i else 0
        if ty[0] == 'int':
            return v
        return None

    # ---- columns
    def build(self):
        cands = {}
        for h in self.info.body:
            rows = self.rows[h]
            hk = ('', h)
            if len(rows) < 2:
                cands[hk] = []
                continue
            # decide representations
            phis, live, outer = self.loopvars[h]
            for ins in phis:
                if ins.ty[0] == 'int' and ins.ty[1] > 1 and ins.res not in self.packed:
                    w = ins.ty[1]
                    if any(r.get('p:' + ins.res, 0) >> (w - 1) for r in rows):
                        if not self.know.signed.get((hk, ins.res)):
                            self.know.signed[(hk, ins.res)] = True
        for h in self.info.body:
            rows = self.rows[h]
            hk = ('', h)
            if len(rows) >= 2:
                cands[hk] = self.cands_for(h, rows)
        return cands

    def is_signed(self, name, h):
        """phi of loop h or outer"""
        for hh in self.info.loops_of[h]:
            if self.know.signed.get((('', hh), name)):
                return True
        return False

    def fix_sign(self, rows, name, w):
        for r in rows:
            if r.get(name) is not None:
                r[name] = sgn(r[name], w) if r[name] >= 0 else r[name]

    def cands_for(self, h, rows):
        hk = ('', h)
        phis, live, outer = self.loopvars[h]
        V = []
        know = self.know

        def add(name, mod, symf, cost=1):
            if not any(r.get(name) is not None for r in rows):
                return None
            v = Var(name, mod, symf, cost)
            V.append(v)
            return v

        for ins in phis:
            t = self.m.resolve(ins.ty)
            if t[0] not in ('int', 'ptr'):
                continue
            sg = bool(know.signed.get((hk, ins.res)))
            if sg:
                self.fix_sign(rows, 'p:' + ins.res, t[1])
            for n in self.parts(ins):
                add('p:' + n, True, lambda x, pt, r=ins.res, sg=sg, n=n: self.part(n, ival(x, pt.phis[r], pt, ('cand', hk, r), sg)))
        for bkey, cells in know.mods.get(hk, {}).items():
            if '*' in cells:
                continue
            for c in sorted(cells, key=str):
                if c in ('*', 'free'):
                    continue
                o, size, ty = c
                if ty[0] not in ('int', 'ptr'):
                    continue

                def cellf(x, pt, bkey=bkey, o=o, size=size, ty=ty):
                    b = x.find_block(pt.state, bkey)
                    if b is None:
                        return None
                    return ival(x, x.read(pt.state.mem[b], K(o), size, ty), pt, ('candc', hk, bkey, o),
                                bool(know.signed.get((hk, (bkey, o)))))
                nm = 'c:%s:%d' % (bkey, o)
                if ty[0] == 'int' and any((r.get(nm) or 0) >> (ty[1] - 1) for r in rows):
                    if not know.signed.get((hk, (bkey, o))):
                        know.signed[(hk, (bkey, o))] = True
                if know.signed.get((hk, (bkey, o))):
                    self.fix_sign(rows, nm, ty[1])
                add(nm, True, cellf)
        add('it', True, lambda x, pt: pt.it)
        # entry values of the loop variables, where they are not already known otherwise
        entryv = []
        entrybn = {}
        for ins, n in [(i, n) for i in phis for n in self.parts(i)]:
            t = self.m.resolve(ins.ty)
            nm = 'e:' + n
            vals = [r[nm] for r in rows if r.get(nm) is not None]
            if t[0] not in ('int', 'ptr') or t == ('int', 1) or '__trip_count' in n or not vals or (min(vals) == max(vals) and abs(vals[0]) <= 2):
                continue
            if any(all(r.get(o) is not None and r.get(o) == r.get(nm) for r in rows) for o in rows[0] if o.startswith('e:') and o < nm):
                continue
            dup = any(all(r.get(o) is not None and r.get(o) == r.get(nm) for r in rows) for o in rows[0] if o.startswith(('in:', 'v:', 'l:')))
            sg = bool(know.signed.get((hk, ins.res)))
            if sg:
                self.fix_sign(rows, nm, t[1])
            entryv.append(nm)
            ev = add(nm, False, lambda x, pt, r=ins.res, sg=sg, n=n: self.part(n, ival(x, pt.entry.phis[r], pt, ('cande', hk, r), sg)))
            if dup:
                V.remove(ev)
            entrybn[nm] = ev
        for o in outer:
            add('it:' + o, False, lambda x, pt, o=o: pt.outer[o].it if o in pt.outer else None)
            for ins in self.loopvars[o][0]:
                t = self.m.resolve(ins.ty)
                if t[0] not in ('int', 'ptr'):
                    continue
                sg = bool(know.signed.get((('', o), ins.res)))
                if sg:
                    self.fix_sign(rows, 'p:' + ins.res, t[1])
                for n in self.parts(ins):
                    add('p:' + n, False, lambda x, pt, r=ins.res, o=o, sg=sg, n=n: self.part(n, ival(x, pt.outer[o].phis[r], pt, ('cand', hk, r), sg)))
        names = {v.name for v in V}
        for r, t in live:
            if 'p:' + r in names:
                continue
            if t == ('int', 1):
                continue
            nm = 'l:' + r
            sg = False
            if t[0] == 'int' and any((rw.get(nm) or 0) >> (t[1] - 1) for rw in rows):
                sg = True
                self.fix_sign(rows, nm, t[1])
            add(nm, False, lambda x, pt, r=r, sg=sg: ival(x, pt.env.get(r), pt, ('candl', hk, r), sg))
        inputs = []
        for s in self.ex.inputs:
            v = add('in:' + s, False, lambda x, pt, s=s: x.inputs.get(s))
            if v:
                inputs.append(v)
        for s in self.ex.vals:
            v = add('v:' + s, False, lambda x, pt, s=s: x.vals.get(s))
            if v:
                inputs.append(v)
        ks = [v for v in inputs if v.name[3:] in self.ex.anys or v.name.startswith('v:')]
        for s in self.ex.cells:
            v = add('ci:' + s, False, lambda x, pt, s=s: x.cells[s][0] if s in x.cells else None)
            if v:
                ks.append(v)
        for bkey, cells in know.mods.get(hk, {}).items():
            if '*' in cells:
                def bsf(x, pt, bkey=bkey):
                    b = x.find_block(pt.state, bkey)
                    return b.size if b is not None else None
                add('bs:' + bkey, False, bsf)
        modv = [v for v in V if v.mod]
        inv = [v for v in V if not v.mod]
        # ghost functions at interesting arguments
        fnv = []
        byname = {v.name: v for v in V}
        byname.update(entrybn)
        fa = []
        cols = []
        # linear positions row*width+column, for loops over indices
        lin = sorted({k for r in rows for k in r if k.startswith('lin:')})
        for a in lin:
            _, o, X = a.split(':', 2)

            def linf(x, pt, o=o, X=X):
                w = x.inputs.get(X)
                if w is None:
                    return None
                if not o:
                    return pt.it * w
                return pt.outer[o].it * w + pt.it if o in pt.outer else None
            byname[a] = Var(a, True, linf, 3)
        for a in sorted(self.fn_args(h) + entryv + lin, key=lambda a: (self.tyclass(a) != 2, a.startswith('e:'), a.startswith('it'))):
            if a not in byname or self.junk(rows, a):
                continue
            col = [r.get(a) for r in rows]
            if a.startswith('lin:') and all(c == r.get('it') for c, r in zip(col, rows)):
                continue
            ck = (self.tyclass(a) == 2, col)
            if ck in cols:
                continue
            cols.append(ck)
            fa.append(a)
        for nme in self.ex.fns:
            for a in fa:
                kind = nme.partition(':')[2][:1]
                if not self.kindok(kind, a, h) or (kind == 'n' and self.tyclass(a) == 1 and not self.induction(rows, a)):
                    continue

                def ff(x, pt, nme=nme, a=a):
                    e = byname[a].sym(x, pt)
                    if e is None or nme not in x.fns:
                        return None
                    return x.eval_fn(nme, pt.state, e)
                v = add('f:%s(%s)' % (nme, a), byname[a].mod, ff, 2)
                if v:
                    fnv.append(v)
        # kind c: a counter of an enclosing loop, preferably the variable the code counts with
        counters = set()
        for o in outer:
            col = [r.get('it:' + o) for r in rows]
            same = ['p:' + n for i in self.loopvars[o][0] for n in self.parts(i) if i.ty[0] == 'int' and i.ty != ('int', 1) and [r.get('p:' + n) for r in rows] == col]
            counters.add(same[0] if same else 'it:' + o)
        for nme in self.ex.fns2:
            for a, b in self.fn2_args(h) + [(l, b) for l in lin for b in ['it:' + o for o in outer[-1:]]]:
                kind = nme.partition(':')[2]
                if not self.kindok(kind[:1], a, h) or not self.kindok(kind[1:], b, h) or (kind[1:] == 'n' and not b.startswith('it')) or (kind[1:] == 'c' and b not in counters) or \
                        (kind[:1] == 'n' and self.tyclass(a) == 1 and not self.induction(rows, a)):
                    continue
                if a not in byname or b not in byname or self.junk(rows, a) or self.junk(rows, b) or (self.tyclass(a) * self.tyclass(b) == 2 and kind[1:] != 'c'):
                    continue

                def ff2(x, pt, nme=nme, a=a, b=b):
                    e, q = byname[a].sym(x, pt), byname[b].sym(x, pt)
                    if e is None or q is None or nme not in x.fns2:
                        return None
                    return x.eval_fn2(nme, pt.state, e, q)
                if kind and any(o.mod and all(r.get(o.name) == r.get('f:%s(%s,%s)' % (nme, a, b)) for r in rows) for o in fnv):
                    continue
                v = add('f:%s(%s,%s)' % (nme, a, b), True, ff2, 2)
                if v:
                    fnv.append(v)
        # products of loop-invariant sizes with counters
        small_in = [v for v in inputs if v.name[3:] not in self.ex.anys and v.name.startswith('in:')][:4]
        prods = []

        def addprod(a, b):
            nm = '(%s*%s)' % (a.name, b.name)
            for r in rows:
                x, y = r.get(a.name), r.get(b.name)
                if x is not None and y is not None:
                    r[nm] = x * y
            v = Var(nm, a.mod or b.mod, lambda x, pt: mulp(a.sym(x, pt), b.sym(x, pt)), a.cost + b.cost + 1)
            if any(r.get(nm) is not None for r in rows):
                prods.append(v)
        for i, a in enumerate(small_in):
            for b in small_in[i + 1:]:
                addprod(a, b)
        its = [byname['it']] + [byname['it:' + o] for o in outer if 'it:' + o in byname]
        for a in its:
            for b in small_in:
                addprod(a, b)
        livei = [v for v in inv if v.name.startswith('l:')]
        for a in its:
            for b in livei[:6]:
                t = self.defs[b.name[2:]][1].ty
                if t and t[0] == 'int':
                    addprod(a, b)
        for v in modv:
            if v.name.startswith('p:') and self.defs[v.name[2:]][1].ty[0] == 'int' and self.defs[v.name[2:]][1].ty != ('int', 1):
                for b in small_in:
                    addprod(v, b)
        for a in its:
            for v in [byname[n] for n in byname if n.startswith('p:')][:6]:
                if self.defs[v.name[2:]][1].ty[0] == 'int' and self.defs[v.name[2:]][1].ty != ('int', 1):
                    addprod(a, v)
        out = []
        seen = set()

        def cand(name, fn, kind, bound=False):
            if name in seen:
                return
            seen.add(name)
            out.append(Cand(name, fn, kind, bound))

        # (a) linear equalities
        self.equalities(h, rows, inv, modv, fnv, prods, cand)
        # ghost applications that take part in no equality are of little use: leave them out of the inequalities
        used = {v for v in fnv if any(v.name in c.name for c in out)}
        usedn = {v.name.split('(')[0] for v in used}
        fnv = [v for v in fnv if v in used or v.name.split('(')[0] not in usedn]
        # (b) inequalities
        consts = [Var('0', False, lambda x, pt: K(0)), Var('1', False, lambda x, pt: K(1))]
        for r in rows:
            r['0'] = 0
            r['1'] = 1
        inprods = [p for p in prods if not p.mod]
        rhs = inv + consts + inprods
        const = {v.name for v in modv if len({r[v.name] for r in rows if r.get(v.name) is not None}) <= 1}
        for i, u in enumerate(modv + fnv):
            if u.name in const:
                continue
            isf = u.name.startswith('f:')
            for v in rhs + [w for w in (modv + fnv)[i + 1:] if w.name not in const]:
                if isf and (v.name.startswith(('(', 'l:', 'bs:', 'ci:', 'in:', 'e:', 'it')) or v.name.startswith('f:') and v.name.split('(')[0] != u.name.split('(')[0]):
                    continue
                if v.name.startswith('f:') and not isf and not (u.name == 'it' or self.tyc(u.name) == 1):
                    continue
                if (isf and v.name.startswith('p:')) or self.tyc(u.name) * self.tyc(v.name) == 2:
                    continue
                self.ineq(rows, u, v, cand)
        if self.opts.get('lin3'):
            self.lin3(rows, modv, rhs, const, cand)
        # constant upper bounds for termination / ranges
        for u in modv:
            mx = max((r[u.name] for r in rows if r.get(u.name) is not None), default=None)
            if mx is not None and mx <= 64:
                cand('%s <= %d' % (u.name, mx), lambda x, pt, u=u, mx=mx: wrapn(u.sym(x, pt), lambda p: Le(p, K(mx))), 'ineq',
                     bound=u.name == 'it')
        # (c) guarded ghost predicates
        preds = sorted({k for r in rows for k in r if k.startswith('?')})
        allv = [v for v in V if not v.name.startswith(('in:', 'v:', 'ci:', 'bs:'))]
        for p in preds:
            self.guarded(h, rows, p, ks, allv, cand)
        return out

    def predsym(self, p):
        if p.startswith('?cell:'):
            _, s, rest = p.split(':', 2)
            bkey, esz = rest.rsplit(':', 1)
            esz = int(esz)

            def f(x, pt):
                b = x.find_block(pt.state, bkey)
                if b is None or s not in x.cells:
                    return None
                i, v = x.cells[s]
                got = x.read(pt.state.mem[b], i * esz, esz, ('int', 8 * esz))
                x.spec += 1
                try:
                    a = x.uc(got, pt.guard, 'cell')
                    e = x.uc(IV(8 * esz, v.p), pt.guard, 'cell')
                finally:
                    x.spec -= 1
                return Eq(a, e)
            return f

        def f(x, pt):
            if p[1:] not in x.preds:
                return None
            return x.eval_pred(p[1:], pt.state)
        return f

    def guarded(self, h, rows, p, ks, allv, cand):
        rs = [r for r in rows if r.get(p) is not None]
        if len(rs) < 2:
            return
        pf = self.predsym(p)
        ntrue = sum(1 for r in rs if r[p])
        for want in (1, 0):
            neg = '' if want else '!'
            good = ntrue if want else len(rs) - ntrue

            def mk(gf, want=want):
                def f(x, pt):
                    gq = gf(x, pt)
                    pq = pf(x, pt)
                    if gq is None or pq is None:
                        return None
                    return Implies(gq, pq if want else Not(pq))
                return f
            if good == len(rs):
                cand(neg + p, mk(lambda x, pt: True), 'pred')
                continue
            if good == 0:
                continue
            singles = []
            for k in ks:
                for v in allv:
                    scales = [1]
                    e = self.stride(v, rs)
                    if e > 1:
                        scales.append(e)
                    for s in scales:
                        for op in ('<=', '<', '>=', '>', '=='):
                            sat = []
                            okk = True
                            for r in rs:
                                a, b = r.get(k.name), r.get(v.name)
                                if a is None or b is None:
                                    continue
                                if cmpop(op, a * s, b):
                                    if bool(r[p]) != bool(want):
                                        okk = False
                                        break
                                    sat.append(1)
                            singles.append((k, v, s, op))
                            if okk and len(sat) >= 3:
                                g = lambda x, pt, k=k, v=v, s=s, op=op: symcmp(op, mulk(k.sym(x, pt), s), v.sym(x, pt))
                                cand('%d*%s %s %s => %s%s' % (s, k.name, op, v.name, neg, p), mk(g), 'pred')
                                if op in ('<=', '>='):
                                    break_ = True
            # boolean / flag guards
            for v in allv:
                vals = {r.get(v.name) for r in rs}
                if vals <= {0, 1} and len(vals) == 2:
                    for b in (0, 1):
                        if all(bool(r[p]) == bool(want) for r in rs if r.get(v.name) == b):
                            g = lambda x, pt, v=v, b=b: wrapn(v.sym(x, pt), lambda q: Eq(q, K(b)))
                            cand('%s==%d => %s%s' % (v.name, b, neg, p), mk(g), 'pred')
            # two-level guards
            if len(ks) >= 2:
                n = 0
                for (k1, v1, s1, o1) in singles:
                    if o1 != '==':
                        continue
                    sel = [r for r in rs if r.get(k1.name) is not None and r.get(v1.name) is not None and r[k1.name] * s1 == r[v1.name]]
                    if len(sel) < 4:
                        continue
                    for (k2, v2, s2, o2) in singles:
                        if o2 == '==' or k2 is k1 or o2 in ('<=', '>='):
                            continue
                        s = [r for r in sel if r.get(k2.name) is not None and r.get(v2.name) is not None and cmpop(o2, r[k2.name] * s2, r[v2.name])]
                        if len(s) >= 3 and all(bool(r[p]) == bool(want) for r in s):
                            n += 1
                            if n > 30:
                                break
                            g = (lambda x, pt, k1=k1, v1=v1, s1=s1, k2=k2, v2=v2, s2=s2, o2=o2:
                                 and2(symcmp('==', mulk(k1.sym(x, pt), s1), v1.sym(x, pt)), symcmp(o2, mulk(k2.sym(x, pt), s2), v2.sym(x, pt))))
                            cand('%s==%s && %s %s %s => %s%s' % (k1.name, v1.name, k2.name, o2, v2.name, neg, p), mk(g), 'pred')

    def stride(self, v, rows):
        if v.elem is None:
            from math import gcd
            g = 0
            for r in rows:
                if r.get(v.name):
                    g = gcd(g, r[v.name])
            v.elem = g if 1 < g <= 64 else 1
        return v.elem

    def ineq(self, rows, u, v, cand):
        le = ge = lt = gt = True
        n = 0
        for r in rows:
            a, b = r.get(u.name), r.get(v.name)
            if a is None or b is None:
                continue
            n += 1
            if a > b:
                le = lt = False
            elif a == b:
                lt = gt = False
            else:
                ge = gt = False
            if not (le or ge):
                return
        if n < 2:
            return
        ub = u.name == 'it' and not v.mod
        if le:
            cand('%s <= %s' % (u.name, v.name), lambda x, pt: wrap2(u.sym(x, pt), v.sym(x, pt), Le), 'ineq', bound=ub)
        if lt:
            cand('%s < %s' % (u.name, v.name), lambda x, pt: wrap2(u.sym(x, pt), v.sym(x, pt), Lt), 'ineq', bound=ub)
        if ge:
            cand('%s >= %s' % (u.name, v.name), lambda x, pt: wrap2(v.sym(x, pt), u.sym(x, pt), Le), 'ineq')
        if gt:
            cand('%s > %s' % (u.name, v.name), lambda x, pt: wrap2(v.sym(x, pt), u.sym(x, pt), Lt), 'ineq')

    def lin3(self, rows, modv, rhs, const, cand):
        """congruences of loop variables, and bounds on sums and differences of two of them (indices scaled by the
        record size where a pointer takes part)"""
        vs = [v for v in modv if v.name not in const]
        ptr = {v.name: self.tyc(v.name) == 2 for v in vs + rhs}
        steps = {1}
        for v in vs:
            if ptr[v.name]:
                s = self.stride(v, rows)
                if s > 1:
                    steps.add(s)
                    cand('%s %% %d == 0' % (v.name, s), lambda x, pt, v=v, s=s: wrapn(v.sym(x, pt), lambda q: Eq(divmod_poly(q, s)[1], K(0))), 'mod')
        step = max(steps)
        sc = lambda v, p: step if p and not ptr.get(v.name) else 1
        pairs = [(v, None, 0) for v in vs] + [(v, u, sg) for i, v in enumerate(vs) for j, u in enumerate(vs) if i != j for sg in (1, -1) if sg < 0 or i < j]
        for v, u, sg in pairs:
            for w in rhs:
                if w.name.startswith(('l:', 'e:', 'ci:')) and any(all(r.get(w.name) == r.get(o.name) for r in rows) for o in rhs if o.name.startswith(('in:', '0', '1'))):
                    continue
                for k in (0, -1, 1):
                    p = any(ptr.get(z.name) for z in (v, u, w) if z is not None)
                    if u is None and not p and k == 0:
                        continue
                    a, b, c = sc(v, p), (sc(u, p) if u is not None else 0) * sg, sc(w, p)
                    kk = k * (step if p else 1)
                    vals = []
                    for r in rows:
                        x, y, z = r.get(v.name), (r.get(u.name) if u is not None else 0), r.get(w.name)
                        if x is not None and y is not None and z is not None:
                            vals.append(a * x + b * y - c * z - kk)
                    if len(vals) < 3:
                        continue

                    def term(x, pt, v=v, u=u, w=w, a=a, b=b, c=c, kk=kk):
                        ps = [v.sym(x, pt), u.sym(x, pt) if u is not None else K(0), w.sym(x, pt)]
                        return None if any(q is None for q in ps) else ps[0] * a + ps[1] * b - ps[2] * c - K(kk)
                    nm = '%d*%s + %d*%s - %d*%s - %d' % (a, v.name, b, u.name if u is not None else '', c, w.name, kk)
                    if max(vals) == 0 and min(vals) < 0:
                        cand(nm + ' <= 0', lambda x, pt, t=term: wrapn(t(x, pt), lambda q: Le(q, K(0))), 'ineq')
                    if min(vals) == 0 and max(vals) > 0:
                        cand(nm + ' >= 0', lambda x, pt, t=term: wrapn(t(x, pt), lambda q: Le(K(0), q)), 'ineq')

    def equalities(self, h, rows, inv, modv, fnv, prods, cand):
        one = Var('1c', False, lambda x, pt: K(1), 0)
        for r in rows:
            r['1c'] = 1
        itv = [v for v in modv if v.name == 'it']
        rest = [v for v in modv if v.name != 'it']
        base = [one] + [v for v in inv if not v.name.startswith('ci:')] + [p for p in prods if not p.mod] + itv
        mp = [p for p in prods if p.mod]
        orders = [base + mp + fnv + rest,
                  base + fnv + rest,
                  [one] + itv + fnv + rest,
                  [one] + rest[::-1] + itv]
        for cols in orders:
            rr = [r for r in rows if all(r.get(c.name) is not None for c in cols)]
            if len(rr) < 3:
                # drop columns that are missing too often
                cols = [c for c in cols if sum(1 for r in rows if r.get(c.name) is not None) * 2 > len(rows)]
                rr = [r for r in rows if all(r.get(c.name) is not None for c in cols)]
            if len(rr) < 3:
                continue
            uniq = {tuple(r[c.name] for c in cols) for r in rr}
            mat = list(uniq)
            self.rng.shuffle(mat)
            mat = mat[:6 * len(cols) + 40]
            for eq in nullspace(mat, len(cols)):
                if not any(cols[i].mod and c for i, c in eq.items()):
                    continue
                # check on all rows
                if any(sum(c * t[i] for i, c in eq.items()) for t in uniq):
                    continue
                terms = [(c, cols[i]) for i, c in eq.items()]
                name = ' + '.join('%d*%s' % (c, v.name) for c, v in terms) + ' == 0'

                def f(x, pt, terms=terms):
                    s = K(0)
                    for c, v in terms:
                        p = v.sym(x, pt)
                        if p is None:
                            return None
                        s = s + p * c
                    return Eq(s, K(0))
                cand(name, f, 'eq')


def nullspace(mat, n):
    """basis of integer linear relations among the n columns; later columns expressed by earlier ones"""
    rows = [[x % P for x in r] for r in mat]
    # row-reduce with pivots chosen left to right; free columns give relations
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        inv = pow(rows[r][c], P - 2, P)
        rows[r] = [x * inv % P for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                k = rows[i][c]
                a = rows[r]
                rows[i] = [(x - k * y) % P for x, y in zip(rows[i], a)]
        piv.append(c)
        r += 1
        if r == len(rows):
            break
    out = []
    pset = set(piv)
    for c in range(n):
        if c in pset:
            continue
        if len(mat) <= len(piv):
            pass
        rel = {c: (1, 1)}
        ok = True
        for i, pc in enumerate(piv):
            v = rows[i][c]
            if v:
                fr = ratrec(-v % P)
                if fr is None:
                    ok = False
                    break
                rel[pc] = fr
        if not ok or len(rel) > 8:
            continue
        from math import lcm
        L = 1
        for a, b in rel.values():
            L = lcm(L, b)
        if L > 64:
            continue
        out.append({i: a * (L // b) for i, (a, b) in rel.items()})
    return out


def ratrec(v):
    for d in (1, 2, 3, 4, 6, 8, 12, 16, 24):
        x = v * d % P
        if x < 5000:
            return (x, d)
        if P - x < 5000:
            return (-(P - x), d)
    return None


def mulp(a, b):
    return None if a is None or b is None else a * b


def mulk(a, s):
    return None if a is None else a * s


def wrapn(p, f):
    return None if p is None else f(p)


def wrap2(a, b, f):
    return None if a is None or b is None else f(a, b)


def and2(a, b):
    return None if a is None or b is None else And(a, b)


def cmpop(op, a, b):
    return a < b if op == '<' else a <= b if op == '<=' else a > b if op == '>' else a >= b if op == '>=' else a == b


def symcmp(op, a, b):
    if a is None or b is None:
        return None
    return Lt(a, b) if op == '<' else Le(a, b) if op == '<=' else Lt(b, a) if op == '>' else Le(b, a) if op == '>=' else Eq(a, b)
