#!/bin/bash
# trybenign.sh PATCH PROP... : run checks on a change that keeps the behaviour (they have to stay quiet), in a mount namespace of its own
P=$(realpath "$1"); shift
W=$(mktemp -d /tmp/bw.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; mkdir "$W/verif"; (cd /verif && tar cf - --exclude=./evidence --exclude=./replays .) | tar xf - -C "$W/verif"; cp "$P" "$W/patch.diff"
export W; export PROPS="$*"; export NAME=$(basename "$P")
unshare -m bash -c '
mount --make-rprivate / ; mount --bind "$W/repo" /repo; mount --bind "$W/verif" /verif
cd /repo; git apply "$W/patch.diff" || { echo "$NAME: PATCH DOES NOT APPLY"; exit 1; }
[ "${TESTS:-1}" = 1 ] && { bash /opt/vp/test.sh "$W/t.json" >"$W/tlog" 2>&1; python3 -c "
import json; print(\"$NAME: tests\", len(json.load(open(\"$W/t.json\"))[\"passed\"]))"; }
cd /verif
for p in $PROPS; do
  st=$(date +%s); VERIF_SEED=${SEED:-1} VERIF_TIER=quick ${SECS:+env VERIF_SECONDS=$SECS} timeout 900 python3 check.py $p >"$W/o.$p" 2>"$W/e.$p"; rc=$?
  echo "$NAME: check $p rc=$rc $(( $(date +%s)-st ))s $(grep -h VIOLATION $W/o.$p | head -1) :: $(cat $W/o.$p $W/e.$p | grep -v VIOLATION | cut -c1-260 | head -2 | tr "\n" " ")"
  [ $rc = 0 ] || { mkdir -p /tmp/benign/out; cp -r "$W/verif/replays" /tmp/benign/out/$NAME-$p 2>/dev/null; }
done'
