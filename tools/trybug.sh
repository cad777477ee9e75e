#!/bin/bash
# trybug.sh ID [PROP...] : confirm a planted bug and see which checks notice it, in a mount namespace of its own
# where scratch copies stand in for /repo and /verif. Nothing outside the scratch directory is touched.
# Environment: SECS (VERIF_SECONDS per check, default quick), DEMO=0 to skip build/tests/demo, SEEDS="1 2".
ID=$1; shift
SRC=${SRC:-/verif/seeded/$ID}
W=$(mktemp -d /tmp/bw.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; mkdir "$W/verif"; (cd /verif && tar cf - --exclude=./evidence --exclude=./replays .) | tar xf - -C "$W/verif"
mkdir "$W/demo"; cp -a "$SRC/." "$W/demo/"; rm -f "$W/demo/"*.diff "$W/demo/meta.json"; cp "$SRC/patch.diff" "$W/patch.diff"
PROPS="$*"; [ -n "$PROPS" ] || PROPS=$(python3 -c "import json;print(json.load(open('$SRC/meta.json'))['property'])")
export W PROPS ID
unshare -m bash -c '
mount --make-rprivate / ; mount --bind "$W/repo" /repo; mount --bind "$W/verif" /verif; mount --bind "$W/demo" /mnt
cd /repo; git status --short | head -3
if [ "${DEMO:-1}" = 1 ]; then
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$ID: CLEAN BUILD FAILS"
timeout 300 bash /mnt/demo.sh >"$W/d0" 2>&1; echo "$ID: demo clean rc=$?"
fi
git apply "$W/patch.diff" || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
if [ "${DEMO:-1}" = 1 ]; then
bash /opt/vp/test.sh "$W/t.json" >"$W/tlog" 2>&1
python3 - <<E
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("'$W'/t.json"))
names=b.get("passed") or b.get("stable") or list(b)
miss=[n for n in names if n not in set(t["passed"])]
print("'$ID': tests", len(t["passed"]), "missing", miss[:5])
E
timeout 300 bash /mnt/demo.sh >"$W/d1" 2>&1; echo "$ID: demo patched rc=$? : $(tail -1 $W/d1 | cut -c1-150)"
fi
cd /verif
for p in $PROPS; do for s in ${SEEDS:-1}; do
  st=$(date +%s)
  VERIF_SEED=$s VERIF_TIER=quick ${SECS:+env VERIF_SECONDS=$SECS} timeout 900 python3 check.py $p >"$W/o.$p" 2>"$W/e.$p"; rc=$?
  echo "$ID: check $p seed $s rc=$rc $(( $(date +%s)-st ))s $(grep VIOLATION $W/o.$p | head -1) :: $(grep -v VIOLATION $W/o.$p $W/e.$p| cut -c1-260 | head -${LINES_OUT:-2} | tr "\n" " ")"
done; done
'
