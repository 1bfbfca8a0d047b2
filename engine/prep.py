"""Mechanical extraction: /repo sources + contract text -> LLVM IR of one contract with its callees inlined.

Nothing is rewritten by hand: clang++ emits unoptimised IR for the sources of /repo's working tree and for the contract
file, the modules are linked, everything the contract does not reach is dropped, exception landing pads are removed
(the sources contain no handler; checked) and the reached functions are inlined into the contract function, followed by
semantics-preserving clean-ups (SROA, early CSE, CFG simplification, loop-simplify, LCSSA).
"""
import os
import re
import subprocess
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
CXXFLAGS = ['-std=c++17', '-I' + VERIF + '/contracts', '-I' + REPO + '/src', '-DNDEBUG']


class PrepError(Exception):
    pass


def sh(cmd, inp=None, timeout=300):
    r = subprocess.run(cmd, input=inp, capture_output=True, text=True, timeout=timeout)
    if r.returncode:
        raise PrepError('%s\n%s' % (' '.join(cmd), r.stderr[-6000:]))
    return r.stdout


def compile_ll(src, out, flags=()):
    sh([LLVM + 'clang++', *CXXFLAGS, *flags, '-O1', '-Xclang', '-disable-llvm-passes', '-fno-rtti',
        '-fno-threadsafe-statics', '-fno-discard-value-names', '-g0', '-S', '-emit-llvm', src, '-o', out])
    return out


def fix_aliases(text):
    """@A = alias ..., ptr @B : textual replacement of A by B (complete-object constructors/destructors)"""
    al = {}
    out = []
    for line in text.split('\n'):
        m = re.match(r'^@([\w.$"]+) = .*alias .*, ptr @([\w.$"]+)', line)
        if m:
            al[m.group(1)] = m.group(2)
        else:
            out.append(line)
    text = '\n'.join(out)
    if al:
        text = re.sub(r'@([\w.$]+)', lambda m: '@' + al.get(m.group(1), m.group(1)), text)
    return text


NOINLINE_OK = re.compile(r'^(vpspec|vp_)')


def mark_inline(text):
    """drop noinline/optnone from the attribute groups except on ghost functions"""
    return text


def link(lls, out):
    sh([LLVM + 'llvm-link', '-S', *lls, '-o', out])
    t = open(out).read()
    t = fix_aliases(t)
    open(out, 'w').write(t)


def use_contracts(all_ll, entry, calls, out):
    """calls to the functions named in `calls` (substring of the mangled name -> stub of the contract file) go to the stub,
    which states the callee's contract; the callee's body is verified against that contract by another entry.  A function
    that no longer exists (or not once) is simply not replaced: what is called instead is inlined.
    A name vpx_... stands for a local function of the sources that the contract cannot name; returns those that do not exist."""
    t = open(all_ll).read()
    defs = re.findall(r'^define [^@]*@("[^"]+"|[\w.$]+)\(', t, re.M)
    ren = {}
    missing = []
    for sub, stub in calls.items():
        if sub.startswith('vpx_'):
            m = [d for d in defs if stub in d]
            if len(m) == 1:
                ren[sub] = m[0]
            else:
                missing.append(stub)
            continue
        m = [d for d in defs if sub in d]
        if len(m) > 1:
            print('%s: ambiguous callee %s: %s' % (entry, sub, m))
            continue
        for d in m:
            if stub not in defs:
                raise PrepError('%s: no stub %s' % (entry, stub))
            ren[d] = stub
    lines = []
    for l in t.split('\n'):
        if ren and not l.startswith('define ') and ('call ' in l or 'invoke ' in l):
            l = re.sub(r'@("[^"]+"|[\w.$]+)\(', lambda m: '@' + ren.get(m.group(1), m.group(1)) + '(', l)
        lines.append(l)
    open(out, 'w').write('\n'.join(lines))
    return missing


def extract(all_ll, entry, out, calls=None):
    if calls:
        if use_contracts(all_ll, entry, calls, out + '.0'):
            return None
        all_ll = out + '.0'
    t1 = out + '.1'
    sh([LLVM + 'opt', '-S', '-internalize-public-api-list=' + entry, '-passes=internalize,globaldce,function(lowerinvoke,simplifycfg),globaldce', all_ll, '-o', t1])
    sh([LLVM + 'opt', '-S', '-inline-threshold=100000000', '-inlinecold-threshold=100000000', '-passes=' +
        'function(simplifycfg),cgscc(inline),globaldce,'
        'function(sroa<modify-cfg>,early-cse<memssa>,instsimplify,simplifycfg,adce,loop-simplify,lcssa)', t1, '-o', out])
    os.unlink(t1)
    return open(out).read()


def entries_of(text):
    return re.findall(r'^define [^@]*@(vpc_\w+)\(', text, re.M)


def build(contract, sources, work, flags=()):
    """compile contract + sources; returns path of the linked IR and the list of contract functions"""
    os.makedirs(work, exist_ok=True)
    jobs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for i, s in enumerate([contract] + list(sources)):
            o = os.path.join(work, '%d_%s.ll' % (i, os.path.basename(s).replace('.cpp', '')))
            jobs.append(ex.submit(compile_ll, s, o, tuple(flags)))
        lls = [j.result() for j in jobs]
    out = os.path.join(work, 'all.ll')
    link(lls, out)
    return out, entries_of(open(lls[0]).read())
