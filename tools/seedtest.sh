#!/bin/bash
# seedtest.sh [ids]: runs the quick check of each seeded change's property on a patched copy; updates tools/seeds.json
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  rm -rf /tmp/st_repo; cp -a /repo /tmp/st_repo; git -C /tmp/st_repo apply $PWD/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  rm -rf /tmp/st_verif; mkdir -p /tmp/st_verif; cp -a mc run.sh known_findings.jsonl properties.jsonl /tmp/st_verif/
  (cd /tmp/st_verif; PYDMD_REPO=/tmp/st_repo ./run.sh $p quick > /tmp/st.log 2>&1; echo "$d $p rc=$?  $(grep -c '^VIOLATION' /tmp/st.log) $(grep 'cases=' /tmp/st.log) :: $(grep -m1 ' | at ' /tmp/st.log | cut -c1-150)") | tee /tmp/st.line
  python3 - "$d" <<'P'
import json,sys
d=sys.argv[1]; m=json.load(open(f"seeded/{d}/meta.json")); f="tools/seeds.json"
try: s=json.load(open(f))
except Exception: s={}
s[d]={"property":m["property"],"caught":"yes" if "rc=1" in open("/tmp/st.line").read() else "NO","breaks":m["what_it_breaks"]}
json.dump(s,open(f,"w"),indent=1)
P
done
rm -rf /tmp/st_repo /tmp/st_verif
