#!/opt/veriftools/pyvenv/bin/python3
"""Decides one property by deductive verification of its contract functions (see DESIGN.md).

  check.py <property> [--tier quick|thorough] [--only <contract>] [-v]
exit 0: every obligation discharged; exit 1 + VIOLATION line: an obligation fails."""
import sys
import os
import re
import json
import time
import shutil
import tempfile
import subprocess
import hashlib
import multiprocessing as mp
VERIF = os.path.dirname(os.path.abspath(__file__))
_PY = '/opt/veriftools/pyvenv/bin/python3'
if __name__ == '__main__' and sys.prefix != '/opt/veriftools/pyvenv' and os.path.exists(_PY):
    os.environ.setdefault('PYTHONHASHSEED', '0')
    os.execv(_PY, [_PY] + sys.argv)
sys.path.insert(0, VERIF + '/engine')
os.environ.setdefault('PYTHONHASHSEED', '0')
import prep

REPO = prep.REPO
SRC = REPO + '/src/ppocr/'


def header(path):
    """directives in the leading comment: // sources: a.cpp b.cpp ; // assumes: ... ; // bounded: name ; // opts: name k=v"""
    d = {'sources': [], 'assumes': [], 'bounded': {}, 'opts': {}, 'flags': [], 'native_flags': [], 'proofonly': [], 'under': [], 'calls': {}}
    for l in open(path):
        m = re.match(r'//\s*(\w+):\s*(.*)$', l)
        if not m:
            continue
        k, v = m.groups()
        v = v.strip()
        if k == 'sources':
            d['sources'] += v.split()
        elif k == 'assumes':
            d['assumes'].append(v)
        elif k == 'under':
            d['under'] += [x.strip() for x in v.split(',')]
        elif k == 'flags':
            d['flags'] += v.split()
        elif k == 'bounded':
            a, _, b = v.partition(' ')
            d['bounded'][a] = b
        elif k == 'calls':
            p = v.split()
            d['calls'].setdefault(p[0], {}).update(dict(x.split('=') for x in p[1:]))
        elif k == 'opts':
            p = v.split()
            d['opts'].setdefault(p[0], {}).update({x.split('=')[0]: int(x.split('=')[1]) if x.split('=')[1].isdigit() else x.split('=')[1] for x in p[1:]})
    return d


def prove_one(args):
    text_path, entry, seed, budget, opts, verbose = args
    import verify
    import symexec
    import interp
    t0 = time.time()
    res = {'entry': entry, 'status': 'error', 'log': [], 'failed': [], 'obligations': 0, 'discharged': 0}
    v = None
    try:
        v = verify.Verifier(open(text_path).read(), entry, seed=seed, budget=budget, opts=opts, verbose=verbose)
        fails = v.run()
        res['obligations'] = len(v.obls)
        res['discharged'] = sum(1 for o in v.obls if o.status == 'proved')
        res['trivial'] = v.x.trivial
        kinds = {}
        for o in v.obls:
            kinds[o.kind] = kinds.get(o.kind, 0) + 1
        res['kinds'] = kinds
        res['invariants'] = {h[1]: len(c) for h, c in v.survivors.items()}
        res['assumed'] = sorted(v.x.assumed_contracts)
        res['labels'] = sorted(set(getattr(v.x, 'assert_labels', [])))
        res['concrete'] = v.miner.statuses if hasattr(v.miner, 'statuses') else {}
        res['concrete_failures'] = [(str(a), b) for a, b in getattr(v.miner, 'conc_fail', [])[:3]]
        if v.vacuous:
            res['status'] = 'vacuous'
        elif fails:
            res['status'] = 'failed'
            for o in fails:
                res['failed'].append({'kind': o.kind, 'label': o.label, 'result': getattr(o, 'result', ''), 'model': getattr(o, 'model', None)})
        elif res['obligations'] + res['trivial'] == 0:
            res['status'] = 'vacuous'
        else:
            res['status'] = 'proved'
    except symexec.Unsupported as e:
        res['status'] = 'unsupported'
        res['why'] = str(e)
    except interp.CUnsupported as e:
        res['status'] = 'unsupported'
        res['why'] = 'interpreter: ' + str(e)
    except verify.Timeout:
        res['status'] = 'timeout'
        res['why'] = 'time budget exhausted'
    except (MemoryError, RecursionError) as e:
        res['status'] = 'timeout'
        res['why'] = repr(e)
    except Exception as e:
        import traceback
        res['status'] = 'unsupported'
        res['why'] = 'internal: ' + traceback.format_exc()[-1500:]
    if v is not None:
        res['solver_time'] = round(v.solver_time, 2)
        res['solver_calls'] = v.solver_calls
        res['lemmas'] = v.lemmas
        res['log'] = v.loglines[-40:]
    res['time'] = round(time.time() - t0, 2)
    return res


def worker(args, q):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    q.put(prove_one(args))


class Native:
    def __init__(self, contract, hdr, entries, work):
        self.work = work
        self.bin = work + '/native'
        self.err = None
        inc = 'extern "C" {\n' + ''.join('void %s();\n' % e for e in entries) + '}\n'
        inc += 'static struct { char const * name; void (*f)(); } vp_entries[] = {' + ', '.join('{"%s", %s}' % (e, e) for e in entries) + '};\n'
        os.makedirs(work + '/n', exist_ok=True)
        open(work + '/n/entries.inc', 'w').write(inc)
        cmd = [prep.LLVM + 'clang++', '-std=c++17', '-O1', '-g', '-DVP_NATIVE', '-I' + VERIF + '/contracts', '-I' + work + '/n', '-I' + REPO + '/src',
               '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function', '-w', *[f for f in hdr['flags'] if f.startswith(('-D', '-f', '-I', '-s'))]]
        srcs = [contract, VERIF + '/engine/runtime.cpp'] + [SRC + s for s in hdr['sources']]
        procs = []
        for i, s in enumerate(srcs):
            procs.append(subprocess.Popen(cmd + ['-c', s, '-o', work + '/n/%d.o' % i], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for p in procs:
            o, _ = p.communicate()
            if p.returncode:
                self.err = o[-4000:]
        if not self.err:
            r = subprocess.run(cmd + [work + '/n/%d.o' % i for i in range(len(srcs))] + ['-o', self.bin], capture_output=True, text=True)
            if r.returncode:
                self.err = r.stderr[-4000:]

    def env(self, consts):
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=0:exitcode=76:detect_stack_use_after_return=0:max_allocation_size_mb=512'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=0:exitcode=76'
        e['VP_CONSTS'] = ','.join(map(str, consts))
        return e

    def search(self, entry, seconds, seed, hints, consts, jobs=8):
        outs = []
        procs = []
        for j in range(jobs):
            out = self.work + '/fail_%s_%d' % (entry, j)
            cmd = [self.bin, entry, 'search', str(seconds), str(seed * 100 + j), out]
            if hints:
                cmd.append(hints[j % len(hints)])
            procs.append((out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=self.env(consts))))
        found = None
        stats = []
        end = time.time() + seconds + 40
        pending = list(procs)
        while pending:
            for pr in list(pending):
                out, p = pr
                if p.poll() is not None:
                    pending.remove(pr)
                    o = p.stdout.read()
                    stats.append(o.strip())
                    if p.returncode == 1 and not found:
                        found = out
            if found or time.time() > end:
                for _, p in pending:
                    p.kill()
                break
            time.sleep(0.05)
        return found, stats


def ir_consts(path):
    cs = set()
    for l in open(path):
        if l.startswith('  ') and ('icmp' in l or ' = and ' in l or 'switch' in l or ' sub ' in l or ' add ' in l or ' = u' in l or ' = s' in l or 'i32 ' in l):
            for m in re.findall(r'(?<![\w.%@-])(\d{1,6})(?![\w.])', l.split(', !')[0]):
                v = int(m)
                if 2 <= v <= 5000:
                    cs.add(v)
    return sorted(cs)[:60]


def write_hint(path, model):
    with open(path, 'w') as f:
        for k, v in model.items():
            if k.startswith('#'):
                f.write('block %s %s\n' % (k[1:], ' '.join(map(str, v))))
            else:
                f.write('input %s %d\n' % (k, v))


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--search-only', type=float)
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = a.prop
    tier = a.tier
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try:
        rc = run(a, prop, tier, seed, work, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(a, prop, tier, seed, work, t0):
    cdir = VERIF + '/contracts/'
    files = sorted(f for f in os.listdir(cdir) if f.startswith(prop + '_') and f.endswith('.cpp'))
    known = load_known(prop)
    jobs = []
    hdrs = {}
    allent = []
    bounded = {}
    broken = []
    absent = []
    total_budget = 330 if tier == 'quick' else 1500
    for f in files:
        path = cdir + f
        h = header(path)
        hdrs[f] = h
        w = work + '/' + f[:-4]
        try:
            all_ll, ents = prep.build(path, [SRC + s for s in h['sources']], w, h['flags'])
        except prep.PrepError as ex:
            # the contracts of this file no longer fit the code: nothing it states can be discharged
            broken.append((f, str(ex)))
            continue
        for e in ents:
            if a.only and a.only not in e:
                continue
            short = e[4 + len(prop) + 1:]
            allent.append((f, e, short))
            if short in h['bounded']:
                bounded[e] = h['bounded'][short]
                continue
            ll = w + '/' + e + '.ll'
            if prep.extract(all_ll, e, ll, h['calls'].get(e[len('vpc_Pxx_'):])) is None:
                absent.append(e)          # the local function it specifies does not exist: its callers are verified with whatever replaces it inlined
                allent.pop()
                continue
            jobs.append((f, e, short, ll, w))
    results = {}
    if a.search_only is None:
        pend = []
        for (f, e, short, ll, w) in jobs:
            o = dict(hdrs[f]['opts'].get(short, {}))
            pend.append((e, (ll, e, seed, o.pop('budget', total_budget), o, a.v)))
        results = run_pool(pend)
    else:
        results = {e: {'entry': e, 'status': 'unsupported', 'why': 'search only', 'failed': [], 'obligations': 0, 'discharged': 0} for (f, e, s, ll, w) in jobs}
    # retry with another seed of the candidate guesser what failed without being refuted concretely
    if a.search_only is None:
        pend = []
        for (f, e, short, ll, w) in jobs:
            r = results[e]
            if r['status'] in ('failed', 'timeout') and time.time() - t0 < 300 and (tier != 'quick' or r['time'] < 150):
                o = dict(hdrs[f]['opts'].get(short, {}))
                o['nruns'] = o.get('nruns', 60) * 2
                pend.append((e, (ll, e, seed + 1, o.pop('budget', 200 if tier == 'quick' else 1500), o, a.v)))
        if pend:
            second = run_pool(pend)
            for e, r in second.items():
                if r['status'] == 'proved' or (r['status'] == 'failed' and results[e]['status'] == 'timeout'):
                    r['retried'] = True
                    results[e] = r
    violations = []
    natives = {}
    bstats = {}

    def native(f):
        if f not in natives:
            ents = [e for (ff, e, s) in allent if ff == f]
            natives[f] = Native(cdir + f, hdrs[f], ents, work + '/' + f[:-4])
        return natives[f]

    suspects = [(f, e, s) for (f, e, s) in allent if e in bounded or results[e]['status'] != 'proved']
    nsus = max(1, len(suspects))
    left = 240.0 if tier == 'quick' else 900.0
    undecided = []
    knownhits = []
    for (f, e, short) in suspects:
        if any(v[2] for v in violations) and tier == 'quick' and (e in bounded or results[e]['status'] == 'failed'):
            continue      # a failing input has been found already
        n = native(f)
        if n.err:
            if f not in [b[0] for b in broken]:
                broken.append((f, 'native build: ' + n.err))
            continue
        r = results.get(e, {'status': 'bounded', 'failed': [], 'why': bounded.get(e)})
        hints = []
        for k, o in enumerate(r.get('failed', [])):
            if o.get('model'):
                hp = work + '/hint_%s_%d' % (e, k)
                write_hint(hp, o['model'])
                hints.append(hp)
        ll = work + '/' + f[:-4] + '/' + e + '.ll'
        consts = ir_consts(ll) if os.path.exists(ll) else ir_consts(work + '/' + f[:-4] + '/all.ll')
        secs = a.search_only or max(5.0, min(60.0 if tier == 'quick' else 240.0, left / nsus))
        if e in bounded and r['status'] == 'bounded':
            secs = min(secs, 25.0 if tier == 'quick' else 120.0)
        found, stats = n.search(e, secs, seed, hints, consts)
        bstats[e] = stats
        rp = '%s/replay/%s_%s.txt' % (VERIF, prop, short)
        if found:
            os.makedirs(VERIF + '/replay', exist_ok=True)
            inp = open(found).read()
            lab = re.search(r'^failure (.*)$', inp, re.M).group(1)
            with open(rp, 'w') as o:
                o.write('property %s\ncontract %s\n' % (prop, f))
                o.write(inp)
                o.write('# replay: cd %s && ./replay.py %s\n' % (VERIF, rp))
                for x in r.get('failed', []):
                    o.write('# failed obligation: %s: %s\n' % (x['kind'], x['label']))
            k = match_known(known, prop, e, lab)
            if k:
                knownhits.append(k)
            else:
                violations.append((rp, '%s: %s' % (short, lab), True))
        elif r['status'] == 'failed':
            os.makedirs(VERIF + '/replay', exist_ok=True)
            with open(rp, 'w') as o:
                o.write('property %s\ncontract %s\nentry %s\n' % (prop, f, e))
                for x in r['failed']:
                    o.write('failed obligation: %s: %s (%s)\n  model: %s\n' % (x['kind'], x['label'], x['result'], json.dumps(x['model'])[:2000]))
                o.write('search for a failing input: %s\n' % '; '.join(stats))
                o.write('verifier output:\n' + '\n'.join(r['log']) + '\n')
            violations.append((rp, '%s: %s' % (short, '; '.join(x['kind'] + ' ' + x['label'] for x in r['failed'][:3])), False))
        elif r['status'] in ('unsupported', 'timeout', 'vacuous'):
            undecided.append((e, r['status'], r.get('why', ''), stats))
            os.makedirs(VERIF + '/replay', exist_ok=True)
            with open(rp, 'w') as o:
                o.write('property %s\ncontract %s\nentry %s\n' % (prop, f, e))
                o.write('the verifier does not accept the contract: %s: %s\n' % (r['status'], r.get('why', '')))
                o.write('search for a failing input: %s\n' % '; '.join(stats))
                o.write('verifier output:\n' + '\n'.join(r.get('log', [])) + '\n')
            violations.append((rp, '%s: not accepted by the verifier (%s: %s)' % (short, r['status'], r.get('why', '')[-200:]), False))
    for f, why in broken:
        os.makedirs(VERIF + '/replay', exist_ok=True)
        rp = '%s/replay/%s.txt' % (VERIF, f[:-4])
        with open(rp, 'w') as o:
            o.write('property %s\ncontract %s\nthe contract file does not compile against the current code:\n%s\n' % (prop, f, why[-6000:]))
        print('error: %s does not compile against the current code\n%s' % (f, why[-3000:]))
        violations.append((rp, '%s: the contracts do not fit the code any more' % f, False))
    if broken and not allent:
        return 2
    wall = time.time() - t0
    evidence(prop, tier, seed, allent, results, bounded, bstats, undecided, hdrs, wall, violations, work)
    for e, r in sorted(results.items()):
        print('%-40s %-11s obligations %d discharged %d solver %.1fs total %.1fs %s' % (e, r['status'], r['obligations'], r['discharged'], r.get('solver_time', 0), r.get('time', 0), r.get('why', '')[-600:]))
        if r['status'] == 'failed':
            for x in r['failed'][:8]:
                print('    failed obligation: %s: %s (%s)' % (x['kind'], x['label'], x['result']))
    for e in bounded:
        print('%-40s bounded stand-in: %s' % (e, '; '.join(bstats.get(e, []))[:200]))
    for k in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for e, s, why, st in undecided:
        print('UNDECIDED %s (%s: %s); bounded execution stands in: %s' % (e, s, why[-300:], '; '.join(st)[:200]))
    if violations:
        violations.sort(key=lambda v: not v[2])
        for rp, what, ok in violations:
            print('violated: %s' % what)
        for rp, what, ok in violations[:1]:
            print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if ok else ' no-failing-input-found'))
        return 1
    return 0


def run_pool(pend, width=8):
    results = {}
    active = []
    pend = list(pend)
    while pend or active:
        while pend and len(active) < width:
            e, args = pend.pop(0)
            q = mp.Queue()
            p = mp.Process(target=worker, args=(args, q))
            p.start()
            active.append((e, p, q, time.time(), args[3]))
        for ent in list(active):
            e, p, q, ts, bud = ent
            if not q.empty() or not p.is_alive():
                try:
                    results[e] = q.get(timeout=5)
                except Exception:
                    results[e] = {'entry': e, 'status': 'timeout', 'why': 'prover process died', 'failed': [], 'obligations': 0, 'discharged': 0, 'log': [], 'time': time.time() - ts}
                p.join(2)
                if p.is_alive():
                    p.kill()
                active.remove(ent)
            elif time.time() - ts > bud * 1.3 + 20:
                p.kill()
                results[e] = {'entry': e, 'status': 'timeout', 'why': 'killed after %.0fs' % (time.time() - ts), 'failed': [], 'obligations': 0, 'discharged': 0, 'log': [], 'time': time.time() - ts}
                active.remove(ent)
        time.sleep(0.02)
    return results


def load_known(prop):
    out = []
    p = VERIF + '/known_findings.json'
    if os.path.exists(p):
        for k in json.load(open(p)).get('findings', []):
            if k['property'] == prop:
                out.append(k)
    return out


def match_known(known, prop, entry, lab):
    for k in known:
        if k['entry'] == entry and re.search(k['failure'], lab):
            return k['what']
    return None


TRUSTED = [
    'clang++ 18 front end and the LLVM 18 passes used by the extraction (SROA, early-CSE, inlining, CFG clean-up, LCSSA)',
    'engine/symexec.py, engine/sym.py, engine/models.py (verification-condition generator, semantics of the IR subset)',
    'z3 5.3.2 (linear integer arithmetic with uninterpreted functions; products through instantiated lemmas)',
    'the contract text in contracts/ (what is stated and required)',
]


def evidence(prop, tier, seed, allent, results, bounded, bstats, undecided, hdrs, wall, violations, work):
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    ob = sum(r['obligations'] for r in results.values())
    di = sum(r['discharged'] for r in results.values())
    assumptions = []
    for h in hdrs.values():
        assumptions += h['assumes']
    assumptions += [
        'operator new does not fail and heap blocks do not overlap; exceptions thrown by the allocator are not modelled',
        'memory is byte-addressed little endian; pointers of different objects are not compared by address except as unknown integers',
        'preconditions stated in the contracts (input ranges) bound the sizes only to exclude 32-bit overflow',
    ]
    for r in results.values():
        for s in r.get('assumed', []):
            if s not in assumptions:
                assumptions.append(s)
    undisch = [{'contract': e, 'status': r['status'], 'why': r.get('why', '')[-300:], 'failed': [x['kind'] + ': ' + x['label'] for x in r['failed']]}
               for e, r in results.items() if r['status'] != 'proved']
    cov = {
        'obligations': ob,
        'discharged': di,
        'checker_cmd': './check.py %s --tier %s' % (prop, tier),
        'trusted_base': TRUSTED,
        'functions_under_contract': sorted({u for h in hdrs.values() for u in h['under']}),
        'back_end': 'z3 5.3.2 (python API)',
        'contracts': {e: {k: r.get(k) for k in ('status', 'obligations', 'discharged', 'trivial', 'kinds', 'invariants', 'labels', 'solver_time', 'solver_calls', 'lemmas', 'time', 'concrete')} for e, r in results.items()},
        'solver_time_s': round(sum(r.get('solver_time', 0) for r in results.values()), 2),
        'not_discharged': undisch,
        'bounded_stand_ins': {e: {'bound': b, 'runs': bstats.get(e, [])} for e, b in bounded.items()},
        'undecided_bounded_only': [{'contract': e, 'reason': s + ': ' + w[-200:], 'runs': st} for e, s, w, st in undecided],
    }
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': len(violations)}
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)


if __name__ == '__main__':
    try:
        main()
    except prep.PrepError as e:
        print('error: extraction failed\n' + str(e)[-6000:])
        sys.exit(2)
