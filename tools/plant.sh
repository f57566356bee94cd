#!/bin/bash
# plant.sh ID [nocheck]: confirms the planted bug seeded/ID in a scratch copy of
# /repo (applies, builds, stable tests pass, demo tells the trees apart) and
# runs the property's check against it.
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; S=/tmp/plant_$id
b=$V/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
rm -rf "$S"; mkdir -p "$S"; cp -a /repo "$S/repo"; mkdir "$S/demo"; cp -a $b/* "$S/demo/"; rm -f "$S/demo/patch.diff" "$S/demo/meta.json"
cd "$S/repo" || exit 2
git checkout -q -- .
bash "$S/demo/demo.sh" >"$S/clean.log" 2>&1 || { echo "$id: demo FAILS on clean tree"; tail -20 "$S/clean.log"; rm -rf "$S"; exit 1; }
git apply "$b/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$S"; exit 1; }
go build ./... || { echo "$id: does not build"; rm -rf "$S"; exit 1; }
go test -json -vet=off -count=1 -timeout 10m ./... > "$S/t.json" 2>/dev/null
python3 - "$S/t.json" <<'PY' || { echo "$id: stable tests fail"; rm -rf "$S"; exit 1; }
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get("Action")=="pass" and e.get("Test"): ok.add(e["Package"]+"/"+e["Test"])
bad=[t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
if bad: print(bad); sys.exit(1)
PY
bash "$S/demo/demo.sh" >"$S/bug.log" 2>&1 && { echo "$id: demo passes with the bug"; rm -rf "$S"; exit 1; }
if [ "$2" != nocheck ]; then
  cp -a $V "$S/verif"; 
  out=$(cd "$S/verif" && VERIF_REPO="$S/repo" ./check $prop 2>&1); rc=$?
  echo "$id [$prop] rc=$rc $(echo "$out" | grep -c VIOLATION) $(echo "$out" | grep VIOLATION | grep -q no-failing && echo NO-INPUT)"
  [ $rc = 1 ] || echo "$out" | tail -5
  if [ "$2" = note ]; then python3 - "$b/meta.json" "$S/verif/evidence/replay_$prop.txt" <<'PY'
import json,re,sys
m=json.load(open(sys.argv[1])); t=open(sys.argv[2]).read()
i=t.find("FAILED OBLIGATIONS")
l=[x for x in t[i:].split("\n")[1:] if x.strip()]
if l and i>=0: m["found_by"]=re.sub(r"\|","/",re.sub(r"^FAIL ","",l[0].strip()))[:120]+("" if "FAILING INPUT" in t else " (no input)")
json.dump(m,open(sys.argv[1],"w"),indent=1)
PY
  fi
else echo "$id: confirmed"; fi
rm -rf "$S"
