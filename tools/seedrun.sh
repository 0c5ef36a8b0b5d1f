#!/bin/bash
# seedrun.sh <seeded id> [notests] [property]: applies the planted bug in a private copy of /repo (mounted over /repo in a namespace of its own),
# builds, runs the stable tests, the demonstration with and without the patch, and the check of its property.
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
D=$V/seeded/$id
W=$(mktemp -d /tmp/seedrun.XXXXXX)
notests=; prop=
for a in "$@"; do [ "$a" = notests ] && notests=1 || prop=$a; done
[ -n "$prop" ] || prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cp -a /repo $W/repo; mkdir $W/verif; cp -r $V/harness $V/vt $V/check.py $V/known_findings.txt $V/findings $W/verif/; [ -d $V/corpus ] && cp -r $V/corpus $W/verif/
mkdir $W/demo; cp -r $D/* $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
export W D id notests prop
unshare -Urm bash -c '
mount --bind $W/repo /repo || exit 9
cd /repo
git config --global --add safe.directory /repo 2>/dev/null
timeout 300 bash $W/demo/demo.sh >$W/demo0.log 2>&1; echo "$id demo clean rc=$?"
git apply $D/patch.diff || { echo "$id PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$notests" ]; then
 bash /opt/vp/build.sh >$W/build.log 2>&1; echo "$id build rc=$?"
 bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1
 python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("$W/out.json"))
def names(x):
    for k in ("stable","tests","passed","pass"):
        if isinstance(x.get(k),list): return set(x[k])
    return None
bs,os_=names(b),set(o.get("passed",o.get("pass",[])))
print("$id tests: failed stable:", sorted(bs-os_)[:6] if bs is not None else list(b.keys()), len(os_))
P
fi
timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1; echo "$id demo patched rc=$?"; tail -3 $W/demo1.log
cd $W/verif; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $prop >$W/check.log 2>&1; echo "$id check $prop rc=$?"; tail -${TAILN:-6} $W/check.log
'
rm -rf "$W"
