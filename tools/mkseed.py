#!/usr/bin/env python3
"""mkseed.py FILE...: builds /verif/seeded/<id>/ from a seed description.

A description: '@@ id NAME property PROP' then sections '## needs', '## breaks', '## edit FILE' with
'<<<' old '===' new '>>>' blocks, '## imports' (one per line) and '## demo' (Go code with TestDemo), '## flags'."""
import sys, os, re, json, subprocess, shutil, tempfile
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
common = open(os.path.join(here, "demo/common.go.txt")).read()
DEMO = '''#!/bin/bash
# exit 0: the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOPATH=/root/go GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cat > "$t/overlay.json" <<EOF
{"Replace": {"$PWD/zz_demo_test.go": "$here/demo_test.go"}}
EOF
LOGLEVEL=INFO go test -overlay "$t/overlay.json" -vet=off -count=1 %s-timeout 200s -run '^TestDemo$' .
'''
for f in sys.argv[1:]:
    for part in re.split(r'^@@ ', open(f).read(), flags=re.M)[1:]:
        head, rest = part.split('\n', 1)
        w = head.split(); sid, prop = w[1], w[3]
        secs = {}
        edits = []
        for s in re.split(r'^## ', rest, flags=re.M)[1:]:
            h, b = s.split('\n', 1)
            if h.startswith('edit '): edits.append((h.split()[1], b))
            else: secs[h.strip()] = b
        d = os.path.join(root, 'seeded', sid)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        t = tempfile.mkdtemp(prefix='mk.', dir='/tmp')
        subprocess.check_call(['git', 'clone', '-q', '--shared', '/repo', t + '/r'])
        for fn, b in edits:
            p = os.path.join(t, 'r', fn); src = open(p).read()
            for m in re.finditer(r'^<<<\n(.*?)^===\n(.*?)^>>>', b, flags=re.M | re.S):
                old, new = m.group(1), m.group(2)
                if src.count(old) != 1: print(sid, 'edit matches', src.count(old), 'times in', fn, ':', old[:80])
                src = src.replace(old, new, 1)
            open(p, 'w').write(src)
        diff = subprocess.check_output(['git', '-C', t + '/r', 'diff'], text=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        shutil.rmtree(t)
        imports = [l.strip() for l in secs.get('imports', '').split('\n') if l.strip()]
        code = common
        if imports: code = code.replace('import (\n', 'import (\n' + ''.join('\t%s\n' % i for i in imports), 1)
        open(os.path.join(d, 'demo_test.go'), 'w').write(code + secs['demo'])
        fl = secs.get('flags', '').strip()
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % (fl + ' ' if fl else ''))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': ' '.join(secs['needs'].split()), 'what_it_breaks': ' '.join(secs['breaks'].split())},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('made', sid)
