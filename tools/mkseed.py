"""Write planted bugs: seed(id, property, needs, breaks, edits=[(file, old, new)], demo=python text or None, c=C text or None, sh=extra)."""
import json, os, subprocess, sys
V = '/verif/seeded/'
R = '/repo/'
DEMO_SH = r'''#!/bin/bash
# Exit 0: behaves as expected; nonzero: does not.
D="$(cd "$(dirname "$0")" && pwd)"
export LD_LIBRARY_PATH=$PWD/_build/libvoikko/src/.libs
export PYTHONPATH=$PWD/libvoikko/python PYTHONDONTWRITEBYTECODE=1
export DICT=$PWD/_build/inst-debian/standard
export TOOLS=$PWD/_build/libvoikko/src/tools
unset VOIKKO_DICTIONARY_PATH
'''
PRE = '''import os, sys, subprocess, tempfile, shutil
import libvoikko
from libvoikko import Voikko, Token, Sentence
DICT = os.environ["DICT"]
def V(lang="fi", path=DICT):
    return Voikko(lang, path)
def expect(name, got, want):
    if got != want:
        print("FAIL", name, "got", repr(got), "want", repr(want))
        sys.exit(1)
'''


def seed(id, prop, needs, breaks, edits, demo=None, c=None, sh=None, files=None):
    d = V + id
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        s = open(R + f, encoding='utf-8').read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(R + f, 'w', encoding='utf-8').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', R, 'checkout', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    s = DEMO_SH
    if c:
        open(d + '/demo.c', 'w').write(c)
        s += 'T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT\n'
        s += 'gcc -O1 -g -I libvoikko/src -o "$T/demo" "$D/demo.c" -L"$LD_LIBRARY_PATH" -lvoikko -lpthread || exit 0\n'
        s += sh or '"$T/demo"\n'
    elif demo:
        open(d + '/demo.py', 'w').write(PRE + demo)
        s += sh or 'python3 "$D/demo.py"\n'
    else:
        s += sh
    open(d + '/demo.sh', 'w').write(s)
    for n, t in (files or {}).items():
        open(d + '/' + n, 'w').write(t)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', id)
