#!/bin/sh
# nothing to build ahead: checks compile /repo's current tree themselves
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replay
/opt/veriftools/pyvenv/bin/python3 -m py_compile engine/*.py check.py replay.py
