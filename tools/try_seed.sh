#!/bin/bash
# usage: tools/try_seed.sh ID [check...]   Tries a planted bug on a scratch copy of /repo: demo, tests, demo, checks.
here="$(cd "$(dirname "$0")/.." && pwd)"
id="$1"; shift
seed="$here/seeded/$id"
copy=/tmp/s/repo
log=/tmp/s/log.$id; mkdir -p "$log"
[ -d $copy ] || cp -a /repo $copy
git -C $copy fetch -q /repo HEAD && git -C $copy checkout -q -f FETCH_HEAD && git -C $copy clean -qfd
export PYTHONDONTWRITEBYTECODE=1
( cd $copy && bash "$seed/demo.sh" ) >"$log/demo0" 2>&1; a=$?
git -C $copy apply "$seed/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
( cd $copy && bash "$seed/demo.sh" ) >"$log/demo1" 2>&1; b=$?
if [ -z "$SKIP_TESTS" ]; then
  sed -e "s#/repo#$copy#g" /opt/vp/test.sh > "$log/test.sh"
  sed -e "s#/repo#$copy#g" /opt/vp/env.sh > "$log/env.sh"
  sed -i -e "s#/opt/vp/env.sh#$log/env.sh#" "$log/test.sh"
  bash "$log/test.sh" "$log/out.json" >"$log/tests" 2>&1
  t=$(python3 - "$log/out.json" <<'PY'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
st=o if not isinstance(o.get('tests',None),(dict,list)) else o['tests']
def passed():
    if 'passed' in o: return set(o['passed'])
    return {k for k,v in st.items() if v in('pass','passed',True)}
p=passed(); print('tests:',len([x for x in b if x in p]),'of',len(b))
PY
)
fi
echo "$id: demo clean=$a patched=$b $t"
git -C $copy diff > "$log/current.diff"
prop=$(python3 -c "import json;print(json.load(open('$seed/meta.json'))['property'])")
for c in ${@:-$prop}; do
  VH_REPO=$copy VH_EVIDENCE=/tmp/s/ev timeout 900 "$here/check" $c quick > "$log/check.$c" 2>&1; r=$?
  echo "   check $c: exit $r  $(grep -m1 VIOLATION "$log/check.$c" | cut -c1-150)"
done
git -C $copy checkout -q -f FETCH_HEAD
