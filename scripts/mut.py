#!/usr/bin/env python3
"""Sweep of small source edits: 'bad' ones must be reported by the property's
check, 'ok' ones (same behaviour) must not.  usage: mut.py SPEC.py [n...]
A spec defines MUT = [(props, kind, [(file, old, new), ...]), ...]."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

def run(job):
    n, (props, kind, edits) = job
    d = tempfile.mkdtemp(prefix='mut')
    repo = os.path.join(d, 'repo')
    out = []
    try:
        shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) < 1:
                return n, [f'#{n} edit does not apply: {f}: {old[:60]!r}']
            open(p, 'w').write(s.replace(old, new, 1))
        b = subprocess.run(['go', 'build', './...'], cwd=repo, capture_output=True, text=True, errors='replace')
        if b.returncode:
            return n, [f'#{n} does not build: {b.stderr[:300]}']
        ver = os.path.join(d, 'verif')
        os.mkdir(ver)
        shutil.copy('/verif/known-findings.txt', ver)
        for p in (props.split() if isinstance(props, str) else props):
            try:
                r = subprocess.run(['/verif/bin/antlint', '-repo', repo, '-verif', ver, p], capture_output=True, text=True, errors='replace', timeout=400)
                code, txt = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                code, txt = 9, 'timeout'
            want = 1 if kind == 'bad' else 0
            w = [l for l in txt.splitlines() if l.startswith('property') or l.startswith('  construct') or (l.startswith('  ') and not l.startswith('   '))]
            first = ' / '.join(x.strip()[:110] for x in w[:4])
            tag = {(1, 1): 'caught', (1, 0): 'MISSED', (0, 0): 'quiet', (0, 1): 'FALSE-ALARM'}.get((want, code), f'CODE{code}')
            out.append(f'#{n} {p} {tag} {edits[0][0]}: {edits[0][2].strip()[:60]!r} {first if tag != "quiet" else ""}')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return n, out

ns = {}
exec(open(sys.argv[1]).read(), ns)
jobs = [(i, m) for i, m in enumerate(ns['MUT']) if len(sys.argv) < 3 or str(i) in sys.argv[2:]]
with ThreadPoolExecutor(6) as ex:
    for n, out in ex.map(run, jobs):
        for l in out:
            print(l)
