#!/bin/bash
# seedtest.sh SEEDDIR : confirms a planted change in a scratch copy of /repo:
# applies, builds, stable tests pass, demo passes without and fails with it.
S=$(realpath "$1"); ID=$(basename "$S"); W=/tmp/wt-$ID
rm -rf "$W"; cp -a /repo "$W"
sed "s#/repo#$W#g" /opt/vp/test.sh | sed "s#/opt/vp/env.sh#$W.env#" > "$W.test"; sed "s#/repo#$W#g" /opt/vp/env.sh > "$W.env"
cd "$W" || exit 1
D=$(mktemp -d); cp "$S"/* "$D"/; rm -f "$D"/*.diff "$D"/meta.json
timeout 300 bash "$D/demo.sh" > /tmp/$ID.clean 2>&1; echo "$ID demo clean rc=$?"
git apply "$S/patch.diff" || { echo "$ID: does not apply"; exit 1; }
timeout 300 bash "$D/demo.sh" > /tmp/$ID.bug 2>&1; echo "$ID demo bug rc=$?"
if [ -z "$SKIPTESTS" ]; then
  timeout 900 bash "$W.test" "/tmp/$ID.json" > "/tmp/$ID.testlog" 2>&1
  python3 - "$ID" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/%s.json'%sys.argv[1]))
def st(d):
    if 'passed' in d: return set(d['passed'])
    if 'tests' in d: return set(k for k,v in d['tests'].items() if v in ('pass','passed',True))
    return set(k for k,v in d.items() if v in ('pass','passed',True))
bs = set(b.get('stable',[])) or st(b)
ps=st(r)
print(sys.argv[1],'stable',len(bs),'missing now',len(bs-ps),sorted(bs-ps)[:5])
PY
fi
rm -rf "$W" "$W.test" "$W.env" "$D"
