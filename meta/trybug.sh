#!/bin/bash
# trybug.sh ID [check|tests|demo]...   validates a planted change in a private mount namespace (development aid)
id=$1; shift
what=${*:-demo check}
d=$(mktemp -d /tmp/bug.XXXXXX)
cp -a /repo "$d/repo"
git -C "$d/repo" apply /verif/seeded/$id/patch.diff || { echo "$id: PATCH FAILS"; rm -rf "$d"; exit 1; }
mkdir -p "$d/work" "$d/demo"; cp -a /verif/seeded/$id/. "$d/demo/"; rm -f "$d"/demo/*.diff "$d"/demo/meta.json
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
qc=$(python3 -c "import json;print([c['quick_cmd'] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']=='$prop'][0])" 2>/dev/null)
for w in $what; do
case $w in
demo)
 (cd /repo && timeout 300 bash "$d/demo/demo.sh" >"$d/demo0.log" 2>&1); a=$?
 unshare -mpf --mount-proc bash -c "mount --bind $d/repo /repo; cd /repo; timeout 300 bash $d/demo/demo.sh" >"$d/demo1.log" 2>&1; b=$?
 echo "$id demo: clean=$a patched=$b"; [ $a = 0 ] || tail -5 "$d/demo0.log"; [ $b != 0 ] || tail -5 "$d/demo1.log";;
check)
 cp -a /verif "$d/verif"
 unshare -mpf --mount-proc bash -c "mount --bind $d/repo /repo; mount --bind $d/verif /verif; cd /verif; VERIF_SEED=${SEED:-1} VERIF_TIER=quick $qc" >"$d/check.log" 2>&1; c=$?
 echo "$id check $prop: rc=$c $(grep -c '^VIOLATION' $d/check.log) violations"; grep '^---' "$d/check.log" | cut -c1-300 | head -4; [ $c = 1 ] || tail -3 "$d/check.log" | cut -c1-600;;
tests)
 unshare -mpnf --mount-proc bash -c "ip link set lo up 2>/dev/null || ifconfig lo up; mount --bind $d/repo /repo; mount --bind $d/work /opt/vp/work; mount -t tmpfs tmpfs /tmp 2>/dev/null; bash /opt/vp/build.sh >/dev/null 2>&1; echo build=\$?; bash /opt/vp/test.sh /repo/t.json >/dev/null 2>&1" > "$d/t.log" 2>&1
 echo "$id tests: $(cat $d/t.log | tr '\n' ' ') $(python3 - "$d/repo/t.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); 
try: t=json.load(open(sys.argv[1]))
except Exception as e: print('NO RESULT',e); sys.exit()
st=b.get('stable') or b.get('passed') or b
miss=[x for x in st if x not in set(t['passed'])]
print(len(t['passed']),'passed; missing',miss[:5])
PY
)";;
esac; done
rm -rf "$d"
