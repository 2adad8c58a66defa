#!/bin/bash
# trybug.sh <id> [nocheck]: applies seeded/<id>/patch.diff in /repo, builds, runs the stable tests, the demo (with and
# without the patch) and the property's check, and takes the patch off again.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
if [ "$2" != onlycheck ]; then
  timeout 300 sh $d/demo.sh >/tmp/demo.$id.clean 2>&1; c=$?
  git apply $d/patch.diff || exit 1
  bash /opt/vp/build.sh >/tmp/build.$id 2>&1 || { echo "$id: BUILD FAILS"; tail -20 /tmp/build.$id; git checkout -- .; exit 1; }
  bash /opt/vp/test.sh /tmp/test.$id.json >/dev/null 2>&1
  t=$(python3 - /tmp/test.$id.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x):
    for k in ('stable_pass','stable','passed','pass'):
        if k in x: return x[k]
    return None
s=set(names(b) or []); p=set(names(r) or [])
print('tests ok' if s and s<=p else 'TESTS FAIL %s %s'%(sorted(s-p)[:5], list(b.keys())))
P
)
  timeout 300 sh $d/demo.sh >/tmp/demo.$id.bug 2>&1; p=$?
else
  git apply $d/patch.diff || exit 1; t=-; c=-; p=-
fi
if [ "$2" != nocheck ]; then
  for x in $prop $3; do
  s=$(date +%s); timeout 900 sh /verif/check.sh $x >/tmp/check.$id.$x 2>&1; r=$?; e=$(( $(date +%s) - s ))
  o="$o check $x exit $r in ${e}s: $(grep -h 'violation found' /tmp/check.$id.$x | cut -c1-150) | $(grep -h minimised /tmp/check.$id.$x)"
  done
fi
git checkout -- .
echo "$id [$prop]: $t; demo clean $c patched $p;$o"
