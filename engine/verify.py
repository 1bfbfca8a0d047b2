"""Deductive verification of one contract function: symbolic execution, inference of inductive invariants (Houdini over
untrusted candidates) and discharge of every obligation, in program order, by z3."""
import os
import sys
import time
import z3
import sym
import symexec
from sym import C, bz, Poly
from llparse import parse_module
import infer

sys.setrecursionlimit(100000)


class Timeout(Exception):
    pass


def poly_eval(mdl, p):
    return mdl.eval(p.z, model_completion=True).as_long()


class Prover:
    """incremental solver with product refinement"""

    def __init__(self, owner, timeout_ms):
        self.o = owner
        self.s = z3.SimpleSolver() if owner.simple else z3.Solver()
        self.to = timeout_ms
        self.s.set('timeout', min(timeout_ms, max(2000, timeout_ms // 4)))
        self.s.set('random_seed', owner.seed % 1000)
        self.ndef = 0
        self.sync()

    def sync(self):
        d = C.defs
        while self.ndef < len(d):
            if d[self.ndef] is not None:
                self.s.add(d[self.ndef])
            self.ndef += 1

    def add(self, f):
        self.sync()
        self.s.add(f)

    def check(self, *assumptions, rounds=12):
        o = self.o
        for r in range(rounds):
            self.sync()
            t = time.time()
            res = self.s.check(*assumptions)
            m = self.s.model() if res == z3.sat else None
            if res == z3.unknown:
                # the incremental solver is sometimes stuck where a fresh one answers at once
                q = max(2000, self.to // 4)
                for cls, to, sd in ((z3.SimpleSolver, q, 0), (z3.Solver, q, 0), (z3.SimpleSolver, q * 2, 77), (z3.Solver, self.to, 77)):
                    f = cls()
                    f.set('timeout', to)
                    f.set('random_seed', (o.seed + sd) % 1000)
                    f.add(self.s.assertions())
                    f.add(*assumptions)
                    res = f.check()
                    if res != z3.unknown or time.time() > o.deadline:
                        break
                m = f.model() if res == z3.sat else None
            dt = time.time() - t
            o.solver_time += dt
            o.solver_calls += 1
            if dt > 5:
                o.log('slow query %.1fs %s' % (dt, res))
                if os.environ.get('VP_DUMP'):
                    open('%s/q%d_%s.smt2' % (os.environ['VP_DUMP'], o.solver_calls, res), 'w').write(self.s.sexpr() + '\n(check-sat-assuming (%s))\n' % ' '.join(map(str, assumptions)))
            if time.time() > o.deadline:
                raise Timeout()
            if res != z3.sat:
                return res
            self.m = m
            if not self.refine(m):
                return res
        return z3.unknown

    def refine_groups(self, m):
        """products sharing a factor c: c >= 0 and sum(s_i*x_i) >= v imply sum(s_i*(c*x_i)) >= v*c"""
        val = {}

        def ev(mono):
            r = val.get(mono)
            if r is None:
                r = m.eval(C.monoz(mono), model_completion=True)
                r = val[mono] = r.as_long() if z3.is_int_value(r) else None
            return r
        groups = {}
        viol = set()
        for mono, v, ra, rb in list(C.prod_list):
            a, b, mv = ev(ra), ev(rb), ev(mono)
            if None in (a, b, mv):
                continue
            if mv != a * b:
                viol.add(mono)
            groups.setdefault(ra, []).append((rb, mono))
            if ra != rb:
                groups.setdefault(rb, []).append((ra, mono))
        lem = []
        for c, mem in groups.items():
            if len(mem) < 2 or ev(c) is None or ev(c) < 0:
                continue
            if not any(mo in viol for _, mo in mem):
                continue
            cv = ev(c)
            mem = sorted(mem, key=lambda t: t[1] not in viol)[:8]
            todo = []
            for combo in combos(len(mem)):
                if not any(mem[i][1] in viol for i, _ in combo):
                    continue
                sv = sum(sg * ev(mem[i][0]) for i, sg in combo)
                mv = sum(sg * ev(mem[i][1]) for i, sg in combo)
                if mv == sv * cv:
                    continue
                if mv > sv * cv:
                    combo = [(i, -sg) for i, sg in combo]
                    sv, mv = -sv, -mv
                k = sv if abs(sv) <= 2 else 2 if (sv > 2 and mv < 2 * cv) else 0 if (sv > 0 and mv < 0) else None
                if k is None and len(combo) == 2 and abs(sv) <= 256 and self.o.opts.get('sums'):
                    k = sv
                if k is None:
                    continue
                key = (c, tuple(sorted((mem[i][0], sg) for i, sg in combo)), k)
                if key in C.cache:
                    continue
                todo.append((abs(sv) > 2, len(combo), abs(k), len(todo), combo, k, key))
            todo.sort()
            for big, _, _, _, combo, k, key in todo[:30]:
                C.cache[key] = True
                sx = z3.Sum([C.monoz(mem[i][0]) if sg > 0 else -C.monoz(mem[i][0]) for i, sg in combo])
                sm = z3.Sum([C.monoz(mem[i][1]) if sg > 0 else -C.monoz(mem[i][1]) for i, sg in combo])
                lem.append(z3.Implies(z3.And(C.monoz(c) >= 0, sx >= k), sm >= k * C.monoz(c)))
        return lem

    def refine(self, m):
        n = 0
        lem = self.refine_groups(m)
        for mono, v, ra, rb in list(C.prod_list):
            mv = m.eval(v, model_completion=True)
            a, b = C.monoz(ra), C.monoz(rb)
            va = m.eval(a, model_completion=True)
            vb = m.eval(b, model_completion=True)
            if not (z3.is_int_value(mv) and z3.is_int_value(va) and z3.is_int_value(vb)):
                continue
            mv, va, vb = mv.as_long(), va.as_long(), vb.as_long()
            if mv == va * vb:
                continue
            n += 1
            if abs(va) < 1 << 40 and abs(vb) < 1 << 40:
                lem.append(z3.Implies(a == va, v == va * b))
                lem.append(z3.Implies(b == vb, v == vb * a))
                if mv < va * vb:
                    lem.append(z3.Implies(z3.And(a >= 0, b >= vb), v >= vb * a))
                    lem.append(z3.Implies(z3.And(b >= 0, a >= va), v >= va * b))
                    lem.append(z3.Implies(z3.And(a >= va, b >= vb), v >= va * b + vb * a - va * vb))
                    lem.append(z3.Implies(z3.And(a <= va, b <= vb), v >= va * b + vb * a - va * vb))
                else:
                    lem.append(z3.Implies(z3.And(a >= 0, b <= vb), v <= vb * a))
                    lem.append(z3.Implies(z3.And(b >= 0, a <= va), v <= va * b))
                    lem.append(z3.Implies(z3.And(a >= va, b <= vb), v <= va * b + vb * a - va * vb))
                    lem.append(z3.Implies(z3.And(a <= va, b >= vb), v <= va * b + vb * a - va * vb))
            if n > 20:
                break
        lem += self.refine_laws(m)
        C.defs.extend(lem)
        self.o.lemmas += len(lem)
        return bool(lem)

    def refine_laws(self, m):
        """instances of the proved laws of ghost functions that the model violates"""
        lem = []
        for key, apps in self.o.cur.spec_apps.items():
            fl = {c: k for c, k in symexec.spec_flags(key[0]).items() if c not in self.o.opts.get('nolaws', '')}
            vals = []
            for app, za in apps:
                try:
                    vals.append((m.eval(app.z, model_completion=True).as_long(), [m.eval(p.z, model_completion=True).as_long() for p in za]))
                except Exception:
                    vals.append(None)
            for i in range(len(apps)):
                for j in range(len(apps)):
                    if i == j or vals[i] is None or vals[j] is None or vals[i][1][:-1] != vals[j][1][:-1]:
                        continue
                    (fa, aa), (fb, ab) = vals[i], vals[j]
                    if aa[-1] > ab[-1] or (aa[-1] == ab[-1] and i > j):
                        continue
                    (pa, za), (pb, zb) = apps[i], apps[j]
                    same = z3.And(*[x.z == y.z for x, y in zip(za[:-1], zb[:-1])], za[-1].z <= zb[-1].z)
                    for c in fl:
                        if c == 'u' and fa > fb:
                            f = pa.z <= pb.z
                        elif c == 'd' and fa < fb:
                            f = pa.z >= pb.z
                        elif c == 'c' and fb - fa > (ab[-1] - aa[-1]) << fl[c]:
                            f = pb.z - pa.z <= (zb[-1].z - za[-1].z) * (1 << fl[c])
                        elif c == 's' and fa != 0 and fa != fb:
                            f = z3.Or(pa.z == 0, pa.z == pb.z)
                        elif c == 'm' and aa[-2] >= 0 and fb - fa > (ab[-1] - aa[-1]) * aa[-2]:
                            f = sym.bz(sym.Or(sym.Lt(za[-2], sym.K(0)), sym.Le(pb - pa, (zb[-1] - za[-1]) * za[-2])))
                        else:
                            continue
                        k = ('law', pa.key, pb.key, c)
                        if k in C.cache:
                            continue
                        C.cache[k] = True
                        lem.append(z3.Implies(same, f))
                        if len(lem) > 40:
                            return lem
        return lem


_combos = {}


def combos(n):
    r = _combos.get(n)
    if r is None:
        import itertools
        r = []
        for k in (2, 3, 4):
            for idx in itertools.combinations(range(n), k):
                for sg in itertools.product((1, -1), repeat=k - 1):
                    r.append([(idx[0], 1)] + list(zip(idx[1:], sg)))
        _combos[n] = r
    return r


class Verifier:
    def __init__(self, text, entry, seed=1, budget=300, verbose=False, nruns=60, small=5, opts=None):
        self.mod = parse_module(text)
        self.entry = entry
        self.seed = seed
        self.budget = budget
        self.verbose = verbose
        self.opts = opts or {}
        self.nruns = self.opts.get('nruns', nruns)
        self.small = self.opts.get('small', small)
        self.simple = self.opts.get('simple', True)
        self.solver_time = 0.0
        self.solver_calls = 0
        self.lemmas = 0
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.dropped = []
        self.loglines = []

    def log(self, s):
        self.loglines.append('[%.1f] %s' % (time.time() - self.t0, s))
        if self.verbose:
            print(self.loglines[-1], flush=True)

    def execute(self, know, cands):
        """symbolic run, repeated until what it found out about loops is stable"""
        for n in range(40):
            sym.reset()
            x = symexec.Exec(self.mod, know)
            x.cands = cands
            x.opts = self.opts
            self.cur = x
            st = symexec.State()
            f = self.mod.functions[self.entry]
            v, g, s = x.run_function(self.entry, [], True, st, '', top=True)
            x.end_guard = g
            if not x.changed:
                x.spec_laws()
                self.log('symbolic run stable after %d rounds: %d items' % (n + 1, len(x.items)))
                return x
            if time.time() > self.deadline:
                raise Timeout()
        raise symexec.Unsupported('symbolic run does not stabilise')

    def run(self):
        for depth in ([self.opts['depth']] if 'depth' in self.opts else [1, 4]):
            fails = self.attempt(depth)
            if not fails or not self.x.spec_cache:
                break
            self.log('not all obligations proved with ghost functions unfolded to depth %d' % depth)
        return fails

    def attempt(self, depth):
        know = symexec.Knowledge()
        know.depth = depth
        sym.ABSDIV[0] = bool(self.opts.get('absdiv'))
        know.wrapall = bool(self.opts.get('wrapall'))    # every unsigned result is taken modulo 2^w, without an attempt to show that it does not wrap
        x = self.execute(know, {})
        mi = infer.Miner(self.mod, self.entry, know, x, seed=self.seed, nruns=self.nruns, small=self.small,
                         time_limit=self.opts.get('mine_time', 30), opts=self.opts)
        self.miner = mi
        if mi.info.body:
            st = mi.collect()
            self.log('concrete runs: %s; rows %s' % (st, {h: len(r) for h, r in mi.rows.items()}))
            cands = mi.build()
            self.log('candidates: %s' % {h[1]: len(c) for h, c in cands.items()})
        else:
            cands = {}
        self.ncand = sum(len(c) for c in cands.values())
        for rnd in range(12):
            x = self.execute(know, cands)
            self.x = x
            for h in cands:
                cands[h] = [c for c in cands[h] if not c.dead]
            self.houdini(x, cands)
            fails, softfails = self.final(x, cands)
            if softfails:
                before = len(know.wrap)
                for o in softfails:
                    know.wrap.add(o.site)
                self.log('exact modular arithmetic needed at %d sites: %s' % (len(know.wrap) - before, [str(o.site)[-60:] for o in softfails][:4]))
                if len(know.wrap) == before:
                    raise symexec.Unsupported('no progress on wrap-around sites')
                # re-mine from scratch: candidates were filtered under the wrong assumption
                if mi.info.body and rnd < 4:
                    cands = mi.build()
                continue
            break
        self.know = know
        self.survivors = cands
        return fails

    # ---- invariants
    def houdini(self, x, cands):
        lits = {}
        live = {}
        for h, cs in cands.items():
            for c in cs:
                lits[c] = z3.Bool('inv!%d' % len(lits))
                live[c] = True
        if not lits:
            return
        t0 = time.time()
        for pas in range(30):
            dropped = 0
            p = Prover(self, self.opts.get('hto', 4000))
            for it in x.items:
                k = it[0]
                if k == 'fact':
                    p.add(it[1])
                elif k == 'obl':
                    o = it[1]
                    p.add(z3.Implies(bz(o.guard), bz(o.cond)))
                elif k == 'assume_inv':
                    pt = it[1]
                    for c, e in pt.inst:
                        if live.get(c):
                            p.add(z3.Implies(lits[c], bz(sym.Implies(pt.guard, e))))
                else:
                    dropped += self.check_point(p, it[1], lits, live)
            self.log('houdini pass %d: dropped %d, live %d' % (pas, dropped, len([1 for v in live.values() if v])))
            if not dropped:
                break
        for h in cands:
            cands[h] = [c for c in cands[h] if live[c]]
        self.log('houdini %.1fs' % (time.time() - t0))

    def check_point(self, p, pt, lits, live):
        todo = [(c, e) for c, e in pt.inst if live.get(c)]
        dropped = 0
        if pt.guard is False:
            return 0

        def drop(c, why):
            nonlocal dropped
            if live[c]:
                live[c] = False
                dropped += 1
                self.dropped.append((pt.label[1], pt.kind, c.name, why))

        for c, e in todo:
            if e is False:
                # trivially false unless the point is unreachable
                pass
        small = True
        while True:
            todo = [(c, e) for c, e in todo if live.get(c) and e is not True]
            if not todo:
                break
            sel = z3.Or([z3.Not(bz(e)) for c, e in todo])
            p.sync()
            nd = p.ndef
            p.s.push()
            try:
                p.s.add(bz(pt.guard), sel)
                if small:
                    for f in self.small_facts():
                        p.s.add(f)
                r = p.check(*[l for c, l in lits.items() if live[c]], rounds=self.opts.get('hrounds', 40))
                if r == z3.sat:
                    m = p.m
                    bad = [c for c, e in todo if z3.is_false(m.eval(bz(e), model_completion=True))]
            finally:
                p.s.pop()
                p.ndef = nd      # definitions added inside the scope are lost: add them again
            if r == z3.sat and bad:
                if self.opts.get('dbg'):
                    for c in bad:
                        if self.opts['dbg'] in c.name:
                            print('DBG', pt.kind, pt.label, c.name)
                            print('  expr', dict(pt.inst)[c])
                            print('  mono', [(C.monoz(mo), m.eval(v), m.eval(C.monoz(a)), m.eval(C.monoz(b))) for mo, v, a, b in C.prod_list])
                            print('  atoms', [(a.name, m.eval(a.z)) for a in C.atoms if m.eval(a.z).decl().kind() == z3.Z3_OP_ANUM])
                for c in bad:
                    drop(c, 'model')
                continue
            if small:
                small = False
                continue
            if r == z3.unsat:
                break
            # unknown: one by one
            for c, e in todo:
                ne = z3.Not(bz(e))
                p.sync()
                nd = p.ndef
                p.s.push()
                try:
                    p.s.add(bz(pt.guard), ne)
                    r = p.check(*[l for cc, l in lits.items() if live[cc]], rounds=self.opts.get("hrounds", 25))
                finally:
                    p.s.pop()
                    p.ndef = nd
                if r != z3.unsat:
                    if self.opts.get('dbg') and self.opts['dbg'] in c.name:
                        m = p.m
                        print('DBG1', pt.kind, pt.label, c.name, r)
                        print('  mono', [(C.monoz(mo), m.eval(v), m.eval(C.monoz(a)), m.eval(C.monoz(b))) for mo, v, a, b in C.prod_list])
                        print('  atoms', [(a.name, m.eval(a.z)) for a in C.atoms if m.eval(a.z).decl().kind() == z3.Z3_OP_ANUM])
                    drop(c, str(r))
            break
        return dropped

    def small_facts(self):
        """restriction used only to look for small counterexamples to candidates first"""
        out = []
        for s, p in self.x.inputs.items():
            lo, hi = p.iv
            if lo is not None and lo >= 0 and lo <= 4 and hi is not None and hi > 5:
                out.append(p.z <= 5)
        return out

    # ---- obligations
    def final(self, x, cands):
        live = {c for cs in cands.values() for c in cs}
        p = Prover(self, self.opts.get('oto', 30000))
        fails = []
        soft = []
        self.obls = []
        t0 = time.time()
        for it in x.items:
            k = it[0]
            if k == 'fact':
                p.add(it[1])
            elif k == 'assume_inv':
                pt = it[1]
                for c, e in pt.inst:
                    if c in live:
                        p.add(bz(sym.Implies(pt.guard, e)))
            elif k == 'check_inv':
                pt = it[1]
                es = [e for c, e in pt.inst if c in live and e is not True]
                if es and pt.guard is not False:
                    o = symexec.Obl('invariant', '%s of the invariant of loop %s' % ('entry' if pt.kind == 'entry' else 'preservation', pt.label[1]),
                                    pt.guard, sym.And(*es))
                    o.count = len(es)
                    self.prove(p, o)
                    if o.status != 'proved':
                        fails.append(o)
            else:
                o = it[1]
                self.prove(p, o)
                if o.status != 'proved':
                    (soft if o.soft else fails).append(o)
                p.add(z3.Implies(bz(o.guard), bz(o.cond)))
        # termination
        for h, pt in x.points.items():
            if h[0].startswith(('spec', 'ghost')):
                continue
            b = [c for c in cands.get(h, ()) if c.bound]
            o = symexec.Obl('termination', 'loop %s: iteration count bounded by %s' % (h[1], b[0].name if b else '?'), True, True)
            o.status = 'proved' if b else 'failed'
            self.obls.append(o)
            if not b:
                # unreachable loop?
                if p.s.check(bz(pt.guard)) == z3.unsat:
                    o.status = 'proved'
                else:
                    fails.append(o)
        # the contract is not vacuous: the end of the contract is reachable (or a permitted throw)
        self.vacuous = None
        g = sym.Or(x.end_guard, *[g for _, g in x.throws])
        r = p.check(bz(g), rounds=30)
        self.vacuous = (r == z3.unsat)
        self.log('obligations: %d, failed %d, soft failed %d, %.1fs; vacuity check %s' % (len(self.obls), len(fails), len(soft), time.time() - t0, r))
        return fails, soft

    def prove(self, p, o):
        self.obls.append(o)
        t = time.time()
        p.sync()
        nd = p.ndef
        p.s.push()
        try:
            p.s.add(bz(o.guard), z3.Not(bz(o.cond)))
            r = p.check()
            if r == z3.sat:
                o.model = self.extract(p.m)
                if self.opts.get('dump'):
                    for a in C.atoms:
                        print('   atom', str(a.z)[:100], '=', p.m.eval(a.z, model_completion=True))
                    for mono, v, ra, rb in C.prod_list:
                        print('   prod', [str(C.atoms[i].z)[:40] for i in mono], '=', p.m.eval(v, model_completion=True))
                    print('  obl', o.label, str(o.cond)[:300])
            elif r == z3.unknown:
                # second solver configuration
                s2 = z3.Solver()
                s2.set('timeout', 20000)
                s2.add(p.s.assertions())
                t1 = time.time()
                r = s2.check()
                self.solver_time += time.time() - t1
        finally:
            p.s.pop()
            p.ndef = nd
        o.time = time.time() - t
        o.status = 'proved' if r == z3.unsat else 'failed'
        o.result = str(r)
        if o.status != 'proved':
            self.log('%s: %s %s (%s, %.1fs)' % (o.status, o.kind, o.label if not o.soft else str(o.site)[-80:], r, o.time))

    def extract(self, m):
        out = {}
        x = self.x
        try:
            for s, p in x.inputs.items():
                out[s] = poly_eval(m, p)
            for s, (b, node, n, esz) in x.in_blocks.items():
                nn = poly_eval(m, n)
                vals = []
                f = z3.Function('%s_%d' % (node.name, esz), z3.IntSort(), z3.IntSort())
                for i in range(min(nn, 4096)):
                    v = m.eval(f(z3.IntVal(i * esz)), model_completion=True)
                    vals.append(v.as_long() & ((1 << 8 * esz) - 1))
                out['#' + s] = vals
        except Exception as e:
            self.log('model extraction: %r' % e)
        return out
