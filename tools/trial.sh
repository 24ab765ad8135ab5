#!/bin/bash
# Tries a planted bug without touching /repo: tools/trial.sh ID [tier] [PROPERTY ...]
# Works in a mount namespace of its own, on copies of /repo, /verif and the build tree. Prints one line.
ID=$1; TIER=${2:-quick}; shift; shift
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$ID
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
W=$(mktemp -d /tmp/trial-XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a ${REPO:-/repo} $W/repo; cp -a /opt/harmonisation-build $W/build
mkdir $W/verif; cp -a $V/mc $V/known-findings.txt $W/verif; cp -a $D $W/seed
export ID TIER PROPS W
unshare -m bash -c '
mount --bind $W/repo /repo; mount --bind $W/build /opt/harmonisation-build; mount --bind $W/verif /verif
cd /repo
out="$ID"
bash /opt/vp/build.sh >$W/log 2>&1; timeout 300 bash $W/seed/demo.sh >$W/demo0 2>&1; a=$?
git apply $W/seed/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >$W/log 2>&1 || out="$out BUILD-FAILS"
timeout 300 bash $W/seed/demo.sh >$W/demo1 2>&1; b=$?
[ $a = 0 ] || out="$out DEMO-FAILS-UNPATCHED($(tail -1 $W/demo0))"
[ $b != 0 ] || out="$out DEMO-PASSES-PATCHED"
if [ -z "$SKIPTESTS" ]; then
bash /opt/vp/test.sh $W/t.json >$W/tlog 2>&1
python3 - $W/t.json <<P || out="$out STABLE-TESTS-FAIL"
import json,sys
t=json.load(open(sys.argv[1])); ok=set(t.get("passed",[]))
bad=[s for s in json.load(open("/opt/vp/BASELINE.json"))["stable"] if s not in ok]
print("\n".join(bad)); sys.exit(bool(bad))
P
fi
for p in $PROPS; do
  timeout 900 bash /verif/mc/check $p $TIER >$W/c 2>&1; r=$?
  out="$out $p:exit$r($(grep -c "^VIOLATION property=$p" $W/c))"
  grep "^$p" $W/c | head -${LINES_SHOWN:-2} | cut -c1-300
done
echo "RESULT $out"
'
