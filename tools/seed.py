#!/usr/bin/env python3
"""Confirm a planted bug in a scratch copy and store it under /verif/seeded.
usage: seed.py ID PROPERTY FILE OLD NEW DEMO.cpp NEEDS BREAKS  (from python: make(...))"""
import os, subprocess, shutil, json, sys, tempfile
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as specified; nonzero: broken
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"
trap 'rm -rf "$out"' EXIT
g++ -std=c++20 -O1 -g %s -DPERSISTENCE_BOOST_DESCRIBE -I"$PWD/include" "$here/demo.cpp" -o "$out/demo"
"$out/demo"
'''
def make(id, prop, edits, demo, needs, breaks, flags=''):
    d = '/verif/seeded/' + id
    w = tempfile.mkdtemp(prefix='seed_')
    try:
        r = w + '/repo'
        sh('cp -a /repo %s' % r)
        sh('git checkout -q -- .', cwd=r)
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(DEMO_SH % flags); os.chmod(d + '/demo.sh', 0o755)
        p0 = sh('bash %s/demo.sh' % d, cwd=r)
        for f, a, b in edits:
            t = open(r + '/' + f).read(); assert t.count(a) == 1, (f, a, t.count(a))
            open(r + '/' + f, 'w').write(t.replace(a, b))
        diff = sh('git diff', cwd=r).stdout
        p1 = sh('bash %s/demo.sh' % d, cwd=r)
        # tests: build in the scratch copy
        for s in ('build.sh', 'test.sh'):
            t = open('/opt/vp/' + s).read().replace('/repo', r); open(w + '/' + s, 'w').write(t)
        sh('rm -rf %s/_build' % r)
        b = sh('bash %s/build.sh' % w); t = sh('bash %s/test.sh %s/o.json' % (w, w))
        last = (t.stdout.strip().split('\n') or [''])[-1]
        ok = p0.returncode == 0 and p1.returncode != 0 and last == '52 passed, 0 failed'
        print(id, 'demo clean', p0.returncode, 'demo bug', p1.returncode, 'tests', last, 'OK' if ok else 'REJECTED')
        if not ok:
            print(p0.stdout[-200:], p0.stderr[-400:], '----', p1.stdout[-200:], p1.stderr[-300:], b.stdout[-300:] if b.returncode else ''); shutil.rmtree(d); return False
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        return True
    finally: shutil.rmtree(w, ignore_errors=True)
