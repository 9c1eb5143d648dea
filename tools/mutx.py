#!/usr/bin/env python3
"""mutx.py FILE [NAME-PREFIX]: applies small edits to scratch copies of /repo and runs checks on them.

'@@ NAME PROP[,PROP] [quiet]' then '## edit FILE' sections as in mkseed.py. Without 'quiet' a VIOLATION is expected."""
import sys, os, re, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOPROXY='off', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', HOME='/root')
jobs = []
cross = os.environ.get('CROSS')  # run these checks on everything that is to stay quiet
for part in re.split(r'^@@ ', open(sys.argv[1]).read(), flags=re.M)[1:]:
    head, rest = part.split('\n', 1)
    w = head.split()
    if len(sys.argv) > 2 and not any(w[0].startswith(a) for a in sys.argv[2:]): continue
    if cross:
        if 'quiet' in w[2:]: jobs.append((w[0], cross.split(','), True, rest))
        continue
    jobs.append((w[0], w[1].split(','), 'quiet' in w[2:], rest))
def run(j):
    name, props, quiet, rest = j
    t = tempfile.mkdtemp(prefix='mutx.', dir='/tmp')
    out = []
    try:
        r = t + '/r'; os.makedirs(t + '/v/evidence')
        shutil.copytree('/repo', r, symlinks=True)
        if os.path.exists('/verif/known_findings.txt'): shutil.copy('/verif/known_findings.txt', t + '/v/')
        for s in re.split(r'^## ', rest, flags=re.M)[1:]:
            h, b = s.split('\n', 1)
            if not h.startswith('edit '): continue
            p = os.path.join(r, h.split()[1]); src = open(p).read()
            for m in re.finditer(r'^<<<\n(.*?)^===\n(.*?)^>>>', b, flags=re.M | re.S):
                if src.count(m.group(1)) != 1: out.append('%s: edit matches %d times: %s' % (name, src.count(m.group(1)), m.group(1)[:60]))
                src = src.replace(m.group(1), m.group(2), 1)
            open(p, 'w').write(src)
        b = subprocess.run(['go', 'vet', '-composites=false', '-copylocks=false', '-printf=false', '-tests=false', '.'], cwd=r, env=env, capture_output=True, text=True)
        b = subprocess.run(['go', 'build', './...'], cwd=r, env=env, capture_output=True, text=True)
        if b.returncode: return '\n'.join(out + [name + ': DOES NOT BUILD ' + b.stderr[:300]])
        for p in props:
            try:
                c = subprocess.run([os.environ.get('J8ACHECK', '/verif/bin/j8acheck'), p], env=dict(env, J8A_REPO=r, J8A_VERIF=t + '/v'), capture_output=True, text=True, timeout=600)
                o = c.stdout + c.stderr
                v = 'VIOLATION property=' + p in o
                ok = (v and c.returncode == 1) if not quiet else (not v and c.returncode == 0)
                l = [x for x in o.split('\n') if x.strip()]
                out.append('%s %s %s rc=%d | %s' % ('ok  ' if ok else 'MISS' if not quiet else 'NOISE', name, p, c.returncode, (l[0] if l else '')[:170]))
            except subprocess.TimeoutExpired:
                out.append('TIMEOUT %s %s' % (name, p))
    finally:
        if not os.environ.get('KEEP'): shutil.rmtree(t)
        else: out.append('kept '+t)
    return '\n'.join(out)
with ThreadPoolExecutor(int(os.environ.get('JOBS', '4'))) as ex:
    for o in ex.map(run, jobs): print(o, flush=True)
