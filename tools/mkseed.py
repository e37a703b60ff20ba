#!/usr/bin/env python3
"""mkseed.py SPEC.py : (re)create planted bugs from a spec. A spec is a python
file with a list SEEDS of dict(id, property, needs, breaks, edits=[(file, old,
new)], demo=<c++ text>, srcs=[repo sources], files={name: text})."""
import json, os, subprocess, sys, runpy
W = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = W + '/seeded'
R = os.environ.get('VERIF_REPO', '/repo')
spec = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
SH = '''#!/bin/bash
# builds the demonstration against the sources of the current directory
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
set -e
g++ -std=c++17 -O1 -g -w %(flags)s -I "$here" %(shim)s-I include -I src "$here/demo.cpp" %(srcs)s -o "$tmp/demo"
set +e
cd "$tmp"
timeout 120 ./demo "$here"
'''
for s in spec['SEEDS']:
    if only and s['id'] not in only:
        continue
    d = os.path.join(V, s['id'])
    os.makedirs(d, exist_ok=True)
    st = subprocess.run(['git', '-C', R, 'status', '--porcelain'],
                        capture_output=True, text=True).stdout
    assert not st, 'repo not clean'
    try:
        for f, a, b in s['edits']:
            p = R + '/' + f
            t = open(p).read()
            assert t.count(a) == 1, (s['id'], f, t.count(a))
            open(p, 'w').write(t.replace(a, b))
        diff = subprocess.run(['git', '-C', R, 'diff'],
                              capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=s['property'], needs=s['needs'],
                   what_it_breaks=s['breaks']),
              open(d + '/meta.json', 'w'), indent=1)
    if 'demo' in s:
        open(d + '/demo.cpp', 'w').write(s['demo'])
    if s.get('shim'):
        subprocess.run(['rm', '-rf', d + '/shim'])
        subprocess.run(['cp', '-r', W + '/shim', d + '/shim'])
    open(d + '/demo.sh', 'w').write(s['sh'] if 'sh' in s else SH % dict(
        flags=s.get('flags', '-DNDEBUG'), srcs=' '.join(s.get('srcs', [])),
        shim='-I "$here/shim" ' if s.get('shim') else ''))
    for n, t in s.get('files', {}).items():
        open(os.path.join(d, n), 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    print('wrote', s['id'])
