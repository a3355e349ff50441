#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: writes seeded/<id>/ from a spec file that
defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)],
pkg, demo)]. Scratch copies live under /tmp and are removed."""
import sys, os, json, subprocess, shutil, runpy
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = runpy.run_path(sys.argv[1])['SEEDS']
only = set(sys.argv[2:])
BASE = {c[:7] for c in subprocess.check_output(['git', '-C', '/repo', 'rev-list', '902c88a'], text=True).split()}
SH = '''#!/bin/sh
# Runs demo_test.go inside package ./%(pkg)s of the current directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
cp "$d/demo.go.txt" "$t/zz_seed_demo_test.go"
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)szz_seed_demo_test.go" "$t/zz_seed_demo_test.go" >"$t/overlay.json"
TMPDIR="$t" go test -overlay "$t/overlay.json" -vet=off -count=1 -run '^TestSeedDemo$' -timeout 120s %(race)s./%(pkg)s
rc=$?
rm -rf "$t"
exit $rc
'''
for s in spec:
    if only and s['id'] not in only: continue
    w = '/tmp/mkseed-' + s['id']
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, old, new in s['edits']:
        p = os.path.join(w, f); t = open(p).read()
        n = t.count(old)
        if n != 1: sys.exit('%s: %s: %d matches of %r' % (s['id'], f, n, old))
        open(p, 'w').write(t.replace(old, new))
    for f in {e[0] for e in s['edits']}:
        subprocess.check_call(['gofmt', '-l', os.path.join(w, f)])
    # at least one line of the original repository must change
    orig = 0
    for f in {e[0] for e in s['edits']}:
        bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '-l', '--root', 'HEAD', '--', f], text=True, errors='replace').split('\n')
        old = open('/repo/' + f).read()
        for g, o, n in s['edits']:
            if g != f: continue
            a = old.index(o); first = old[:a].count('\n')
            import difflib
            ol, nl = o.split('\n'), n.split('\n')
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, ol, nl).get_opcodes():
                if tag in ('replace', 'delete'):
                    for k in range(i1, i2):
                        if first + k < len(bl) and bl[first + k].lstrip('^')[:7] in BASE and ol[k].strip(): orig += 1
    if not orig: print(s['id'], 'WARNING: changes no original line')
    diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True, errors='replace')
    shutil.rmtree(w)
    d = os.path.join(root, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.go.txt', 'w').write(s['demo'].lstrip('\n'))
    pkg = s.get('pkg', ''); pkg = pkg + '/' if pkg else ''
    race = '-race ' if s.get('race') else ''
    open(d + '/demo.sh', 'w').write(SH % {'pkg': pkg, 'race': race}); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(s['id'], len(diff.splitlines()))
