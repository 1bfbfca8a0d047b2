#!/opt/veriftools/pyvenv/bin/python3
"""replay.py <replay file>: rebuilds the contract natively against /repo's working tree (AddressSanitizer + UBSan) and runs it
on the recorded input.  exit 1: the failure is reproduced; exit 0: it is not."""
import os
import re
import sys
import subprocess
import tempfile
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, VERIF + '/engine')
import check
import prep


def main():
    t = open(sys.argv[1]).read()
    contract = re.search(r'^contract (\S+)', t, re.M).group(1)
    m = re.search(r'^entry (\S+)', t, re.M)
    if not re.search(r'^failure ', t, re.M):
        print('no failing input recorded; failed obligations:')
        print(t)
        return 1
    path = VERIF + '/contracts/' + contract
    hdr = check.header(path)
    ents = ['vpc_' + a + '_' + b for a, b in re.findall(r'^VP_CONTRACT\((\w+),\s*(\w+)\)', open(path).read(), re.M)]
    with tempfile.TemporaryDirectory(prefix='vp_replay_') as w:
        n = check.Native(path, hdr, ents, w)
        if n.err:
            print(n.err)
            return 2
        r = subprocess.run([n.bin, m.group(1), 'replay', sys.argv[1]], env=n.env([]))
        return r.returncode


sys.exit(main())
