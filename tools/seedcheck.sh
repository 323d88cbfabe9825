#!/bin/bash
# seedcheck.sh ID [-nosuite]: in a scratch copy of /repo, checks that /verif/seeded/ID/patch.diff applies, builds, passes the stable tests,
# that its demonstration passes without and fails with it, and reports whether the quick check of its property catches it.
id="$1"; dir="${SEEDDIR:-/verif/seeded}/$id"; . /opt/vp/env.sh
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
w=$(mktemp -d /tmp/seed_XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cp -a "${HARNESS:-/verif/harness}" "$w/harness"
cd "$w/repo"; mkdir "$w/d"; cp "$dir"/* "$w/d/"; rm -f "$w"/d/*.diff "$w"/d/meta.json
bash "$w/d/demo.sh" >"$w/demo0" 2>&1; d0=$?
git apply "$dir/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
bash "$w/d/demo.sh" >"$w/demo1" 2>&1; d1=$?
tests=skipped
if [ "$2" != "-nosuite" ]; then
  python3 /opt/vp/run_tests.py "$w/work" >/dev/null 2>&1; cp "$w/work/log.json" "$w/log.json"
  tests=$(python3 - "$w/log.json" <<'P'
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Action')=='pass' and 'Test' in d: ok.add(d['Package']+'/'+d['Test'])
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
print(len(b-ok), sorted(b-ok)[:3])
P
)
fi
cd "$w/harness"; sed -i "s#=> /repo#=> $w/repo#" go.mod
GOFLAGS=-mod=mod go build -o "$w/lng" . || { echo "$id: harness does not build"; exit 1; }
[ "$prop" = P28 ] && { CGO_ENABLED=1 GOFLAGS=-mod=mod go build -race -o "$w/lngrace" .; export LNG_RACE="$w/lngrace"; }
cd /verif; s=$(date +%s); LNG_NOEVIDENCE=1 timeout 900 "$w/lng" "$prop" ${TIER:-quick} >"$w/chk" 2>&1; rc=$?
echo "$id ($prop): demo clean=$d0 patched=$d1; stable tests failing: $tests; check exit=$rc $(grep -c '^VIOLATION property='$prop "$w/chk") in $(( $(date +%s)-s )) s"
[ "$d0" = 0 ] || tail -5 "$w/demo0"; [ "$d1" != 0 ] || tail -5 "$w/demo1"; [ -n "$V" ] && { tail -3 "$w/demo1"; tail -4 "$w/chk" | cut -c1-400; }
exit 0
