#!/bin/bash
# seedtest.sh ID [-t]: confirm a planted bug in a private copy of /repo: demo passes without it, builds, (-t: stable tests pass,) demo fails with it,
# and report what the checks of the property say. Needs mount privileges (development tool, not used by any check).
set -u
id=$1; shift
tests=1; [ "${1:-}" = "-n" ] && tests=0
S=/verif/seeded/$id
W=$(mktemp -d /var/tmp/sd.XXXXXX)
mkdir -p "$W/tmp" "$W/demo"
cp -a /repo "$W/repo"
cp -a "$S"/. "$W/demo"/
chmod 755 "$W" ; chmod 1777 "$W/tmp"
export W id tests
unshare -mn bash -c '
ip link set lo up 2>/dev/null
mount --bind $W/repo /repo && mount --bind $W/tmp /tmp || exit 9
cd /repo
git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
bash $W/demo/demo.sh >$W/d0 2>&1; a=$?
git apply $W/demo/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if ! bash /opt/vp/build.sh >$W/b 2>&1; then echo "$id: BUILD FAILS"; grep -m3 error $W/b; exit 1; fi
bash $W/demo/demo.sh >$W/d1 2>&1; b=$?
t=skipped
if [ $tests = 1 ]; then bash /opt/vp/test.sh $W/o.json >$W/t 2>&1; t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); o=json.load(open(\"$W/o.json\"))
def names(x):
    for k in (\"passed\",\"stable\",\"tests\",\"pass\"):
        if k in x: return set(x[k])
    return set()
m=names(b)-names(o)
print(\"pass\" if not m else \"FAIL %d e.g. %s\"%(len(m),sorted(m)[:3]))
"); fi
p=$(python3 -c "import json;print(json.load(open(\"$W/demo/meta.json\"))[\"property\"])")
c=none
if [ -f /verif/checks/$p.py ]; then (cd /verif && python3 check.py $p >$W/c 2>&1); c=$?; fi
echo "$id: demo clean=$a patched=$b tests=$t check $p exit=$c"
[ $a = 0 ] || tail -3 $W/d0
[ $b = 0 ] && tail -3 $W/d1
grep -h "^rule:\|  at:\|  what:" $W/c 2>/dev/null | head -6
'
rm -rf "${W:?}"
