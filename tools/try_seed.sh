#!/bin/bash
# tools/try_seed.sh DIR OUTDIR [nocheck]: tries one planted bug in private overlays of /repo, /opt/venv, /opt/build, /opt/vp and /verif
# (DIR has patch.diff, demo.sh, meta.json). Nothing outside OUTDIR is written. Report in OUTDIR/report.
set -u
D=$(realpath "$1"); O=$(realpath -m "$2"); mkdir -p "$O"; shift 2
if [ "${INNER:-}" != 1 ]; then
  exec env INNER=1 unshare -rm bash "$(realpath "$0")" "$D" "$O" "$@"
fi
for m in /repo /opt/venv /opt/build /opt/vp /verif; do
  n=$(echo $m | tr / _); mkdir -p "$O/ov/$n/u" "$O/ov/$n/w"
  mount -t overlay overlay -o lowerdir=$m,upperdir=$O/ov/$n/u,workdir=$O/ov/$n/w,userxattr $m || exit 9
done
R="$O/report"; : > "$R"
cd /repo
timeout 300 bash "$D/demo.sh" > "$O/demo0.log" 2>&1; echo "demo clean: $?" >> "$R"
git apply "$D/patch.diff" || { echo "patch does not apply" >> "$R"; exit 1; }
bash /opt/vp/build.sh > "$O/build.log" 2>&1; echo "build: $?" >> "$R"
timeout 300 bash "$D/demo.sh" > "$O/demo1.log" 2>&1; echo "demo patched: $?" >> "$R"
P=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
if [ "${1:-}" != nocheck ]; then
  s=$(date +%s); (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $P) > "$O/check.log" 2>&1; echo "check $P: $? ($(( $(date +%s)-s )) s): $(grep -m1 VIOLATION $O/check.log)" >> "$R"
fi
bash /opt/vp/test.sh "$O/t.json" > "$O/test.log" 2>&1
python3 - "$O/t.json" >> "$R" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def names(d):
    for k in ('stable','passed','pass','tests'):
        if k in d: return d[k]
ts=set(names(t)); m=[x for x in names(b) if x not in ts]
print('tests missing: %d %s' % (len(m), m[:3]))
P
cat "$R"
