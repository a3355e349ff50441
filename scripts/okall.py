#!/usr/bin/env python3
"""okall.py [-j N] [SPEC…]: applies every behaviour-preserving edit of the
sweeps to a scratch copy and runs *all* checks on it; prints what is not quiet."""
import os, sys, glob, runpy, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; J = 5
if args[:1] == ['-j']: J = int(args[1]); args = args[2:]
specs = args or sorted(glob.glob(root + '/scripts/mutspec/*.py'))
jobs = []
for f in specs:
    for i, m in enumerate(runpy.run_path(f)['MUT']):
        if m[1] == 'ok': jobs.append((os.path.basename(f)[:-3], i, m))
def run(job):
    s, i, (props, kind, edits) = job
    d = tempfile.mkdtemp(prefix='okall')
    try:
        repo = d + '/repo'
        shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        for f, old, new in edits:
            t = open(repo + '/' + f).read()
            if old not in t: return ['%s#%d does not apply' % (s, i)]
            open(repo + '/' + f, 'w').write(t.replace(old, new, 1))
        b = subprocess.run(['go', 'build', './...'], cwd=repo, capture_output=True, text=True, errors='replace')
        if b.returncode: return ['%s#%d does not build' % (s, i)]
        os.mkdir(d + '/v'); shutil.copy(root + '/known-findings.txt', d + '/v')
        bin = os.environ.get('ANTLINT') or root + '/bin/antlint'
        try: r = subprocess.run([bin, '-repo', repo, '-verif', d + '/v', 'all'], capture_output=True, text=True, errors='replace', timeout=1500)
        except subprocess.TimeoutExpired: return ['%s#%d TIMEOUT' % (s, i)]
        out = ['%s#%d done %d' % (s, i, r.returncode)]
        if r.returncode:
            for l in r.stdout.splitlines():
                if l.startswith('property') or (l.startswith('  ') and not l.startswith('   ')): out.append('   %s#%d %s' % (s, i, l.strip()[:200]))
        return out
    finally: shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(J) as ex:
    for out in ex.map(run, jobs):
        print('\n'.join(out[:14]), flush=True)
