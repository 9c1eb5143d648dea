#!/bin/bash
# seed.sh ID: validates seeded/ID in a scratch copy: applies, builds, demo 0 -> nonzero, stable tests pass
id=$1; s=/verif/seeded/$id
d=$(mktemp -d /tmp/seed.XXXXXX); x=$(mktemp -d /tmp/seedx.XXXXXX)
cp -a /repo/. "$d/"; cp -a $s/. $x/; rm -f $x/*.diff $x/meta.json
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOPATH=/root/go GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
cd $d
timeout 280 bash $x/demo.sh >$x/out1 2>&1; r1=$?
git apply $s/patch.diff || echo "$id: DOES NOT APPLY"
go build ./... || echo "$id: DOES NOT BUILD"
timeout 280 bash $x/demo.sh >$x/out2 2>&1; r2=$?
echo "$id: demo unchanged=$r1 patched=$r2"
[ $r1 = 0 ] || tail -15 $x/out1
[ $r2 != 0 ] || tail -15 $x/out2
[ -n "$SHOW" ] && tail -12 $x/out2
if [ -z "$NOTEST" ]; then
  unshare -rn bash -c "ip link set lo up; cd $d; go test -json -vet=off -count=1 -timeout 10m . ./cmd/... > $x/log 2>$x/err"
  python3 - $x/log <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));st=set(b['stable'])
res={}
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get('Action') in('pass','fail') and e.get('Test'): res[(e['Package'],e['Test'])]=e['Action']
names={}
for (p,t),a in res.items(): names.setdefault(t,[]).append(a); names[p+'/'+t]=[a]; names[p+'::'+t]=[a]; names[p+'.'+t]=[a]; names[p+':'+t]=[a]
bad=[s for s in st if names.get(s,['missing'])!=['pass']]
print('tests: stable not passing:',len(bad),bad[:5])
P
fi
rm -rf $d $x
