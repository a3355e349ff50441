#!/usr/bin/env python3
"""seedtest.py [-all] [ID...]: confirms planted bugs in scratch copies and
shows which checks fire (own property, or with -all every check)."""
import sys, os, json, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != '-all']; every = '-all' in sys.argv
ids = args or sorted(os.listdir(root + '/seeded'))
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
def run(cmd, cwd, t=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'
claimed = [l.split()[0] for l in subprocess.check_output([root + '/bin/antlint', 'list'], text=True, errors='replace').splitlines()]
def one(i):
    d = root + '/seeded/' + i; meta = json.load(open(d + '/meta.json'))
    w = '/tmp/seedtest-' + i
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    out = []
    rc, o = run(['sh', d + '/demo.sh'], w)
    out.append('clean-demo=%s' % ('ok' if rc == 0 else 'FAIL\n' + o[-1500:]))
    rc, o = run(['git', 'apply', d + '/patch.diff'], w)
    if rc: out.append('APPLY FAILS ' + o)
    rc, o = run('go build ./... && for d in _examples/*/; do go build -o /dev/null ./$d || exit 1; done', w) if False else run(['sh', '-c', 'go build ./... && for d in _examples/*/; do go build -o /dev/null ./$d || exit 1; done'], w)
    if rc: out.append('BUILD FAILS ' + o[-800:])
    rc, o = run(['go', 'test', '-vet=off', '-count=1', './...'], w)
    fails = [l for l in o.splitlines() if l.lstrip().startswith('--- FAIL')]
    out.append('tests=%s' % ('ok' if rc == 0 else 'FAIL ' + ' '.join(fails[:6])))
    rc, o = run(['sh', d + '/demo.sh'], w)
    out.append('demo=%s' % ('fails(good)' if rc not in (0, 99) and ('--- FAIL' in o or 'panic' in o or 'DATA RACE' in o) else 'BAD rc=%d\n%s' % (rc, o[-1500:])))
    p = meta['property']
    ev = '/tmp/seedtest-ev-' + i
    os.makedirs(ev, exist_ok=True)
    if os.path.exists(root + '/known-findings.txt'): shutil.copy(root + '/known-findings.txt', ev)
    cs = claimed if every else [p]
    hit = []
    for c in cs:
        if c not in claimed: out.append('no check ' + c); continue
        rc, o = run([root + '/bin/antlint', '-repo', w, '-verif', ev, c], root)
        if rc == 1: hit.append(c + ':' + ','.join(sorted({l.split('rule ')[1].split(' violated')[0] for l in o.splitlines() if l.startswith('property ') and 'rule ' in l})))
        elif rc != 0: hit.append(c + ':ERROR ' + o[-300:])
    out.append(('CAUGHT ' if any(h.startswith(p + ':') for h in hit) else 'MISSED ') + p + ' | ' + ' '.join(hit))
    shutil.rmtree(w); shutil.rmtree(ev, ignore_errors=True)
    return i + ': ' + '  '.join(out)
with ThreadPoolExecutor(4) as ex:
    for l in ex.map(one, ids): print(l, flush=True)
