#!/bin/bash
# tools/seed.sh start            fresh scratch copy of /repo's HEAD in /tmp/seed/repo
# tools/seed.sh make NAME        take the scratch copy's changes as seeded/NAME/patch.diff and try the demo on both trees
# tools/seed.sh hit NAME [tier]  run the check of NAME's property against a patched copy (through a private copy of /verif)
# tools/seed.sh test NAME        re-validate: applies, builds, stable tests, demo on both trees
S=/tmp/seed
env_() { . <(sed '/^cd /d' /opt/vp/env.sh); }
stable() ( # in $1
  env_; export TZ=Asia/Tokyo; cd "$1" || exit 1
  go build ./... || { echo "BUILD FAILS"; exit 1; }
  L=$(mktemp -d); SH=github.com/Aize-Public/forego/utils/caches
  go list -e ./... | grep -vx $SH | xargs go test -json -vet=off -count=1 -timeout 5m > $L/full.json 2>/dev/null
  go test -json -vet=off -count=1 -timeout 5m -short ./utils/caches > $L/short.json 2>/dev/null
  python3 /opt/vp/results.py $L/out.json gojson:$L/full.json gojson:$L/short.json
  python3 - $L/out.json <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open(sys.argv[1])); p=set(r.get('passed',r.get('pass',[])))
m=[t for t in b if t not in p]; print('stable passing',len(b)-len(m),'of',len(b),*m); sys.exit(bool(m))
PY
)
fresh() { rm -rf "$1"; git -C /repo worktree prune; git clone -q /repo "$1"; }
demo() ( # dir name
  env_; D=$(mktemp -d /tmp/seed/demo.XXXX); cp -r /verif/seeded/$2/. $D; rm -f $D/*.diff $D/*.patch $D/meta.json
  cd "$1" && timeout 300 bash $D/demo.sh > /tmp/seed/demo.log 2>&1; R=$?; rm -rf "$D"; exit $R )
case "$1" in
stable) stable "$2"; exit $?;;
start) mkdir -p $S; fresh $S/repo;;
make|test)
  N=$2; P=/verif/seeded/$N/patch.diff; mkdir -p /verif/seeded/$N
  if [ $1 = make ]; then git -C $S/repo add -AN; git -C $S/repo diff > $P; fi
  fresh $S/clean; fresh $S/bad
  git -C $S/bad apply $P || { echo "DOES NOT APPLY"; exit 1; }
  grep -q '^+' $P || { echo EMPTY; exit 1; }
  stable $S/bad || exit 1
  demo $S/clean $N; A=$?; [ $A = 0 ] || { echo "demo on clean: $A"; tail -20 /tmp/seed/demo.log; exit 1; }
  demo $S/bad $N; B=$?; [ $B != 0 ] || { echo "demo on patched: $B"; exit 1; }
  tail -5 /tmp/seed/demo.log; echo "seed $N good (demo 0/$B)"; [ $1 = make ] && fresh $S/repo;;
hit)
  N=$2; T=${3:-quick}; ID=$(python3 -c "import json;print(json.load(open('/verif/seeded/$N/meta.json'))['property'])")
  fresh $S/bad; git -C $S/bad apply /verif/seeded/$N/patch.diff || exit 1
  /verif/tools/at.sh $S/bad $ID $T > $S/hit.log 2>&1; R=$?
  grep -m3 -E "^violation" $S/hit.log; grep -q "VIOLATION property=$ID" $S/hit.log && [ $R = 1 ] && echo "HIT $N ($ID)" || { echo "MISS $N ($ID) rc=$R"; tail -5 $S/hit.log; };;
esac
