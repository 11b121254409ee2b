#!/bin/bash
# seed.sh ID... : tries planted bugs in scratch copies: unit tests, demo, check.
for id in "$@"; do
  d=/verif/seeded/$id; w=/tmp/seed-$id
  rm -rf "$w"; mkdir -p "$w"; cp -a /repo "$w/repo"
  . /opt/vp/env.sh
  r="$w/repo"
  (cd "$r" && bash "$d/demo.sh" >"$w/demo0" 2>&1) || { echo "$id: demo fails on the clean tree"; tail -5 "$w/demo0"; continue; }
  (cd "$r" && git apply "$d/patch.diff") || { echo "$id: patch does not apply"; continue; }
  (cd "$r" && bash "$d/demo.sh" >"$w/demo1" 2>&1) && { echo "$id: demo passes with the patch"; continue; }
  echo "$id: demo: $(tail -1 "$w/demo1" | cut -c1-150)"
  sed "s#/repo#$r#g" /opt/vp/go.work >"$w/go.work"
  for m in fsutil stream tarfs vroot vroot-adapter/overlayfs vroot-adapter/sftpfs; do
    for t in $m; do
    out=$(cd "$r/$t" && GOWORK="$w/go.work" "$GO126" test ./... 2>&1) || { echo "$id: UNIT TESTS FAIL in $t"; echo "$out" | grep -E "^(---|FAIL|\s+---)" | head -5; }
    done
  done
  p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  mkdir "$w/verif"; cp -a /verif/check.sh /verif/harness /verif/known_findings.txt /verif/go.work /verif/properties.jsonl "$w/verif/"
  sed -i "s#/repo#$r#g" "$w/verif/go.work"; [ -e /verif/go.work.sum ] && cp /verif/go.work.sum "$w/verif/"
  mkdir -p "$w/verif/evidence"
  (cd "$w/verif" && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh $p >"$w/out" 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " "$w/out"; then echo "$id: CAUGHT by $p: $(grep -v "^VIOLATION\|^KNOWN" "$w/out" | head -1 | cut -c1-140)"; else echo "$id: MISSED by $p rc=$rc $(tail -2 "$w/out" | cut -c1-200)"; fi
  rm -rf "$w"
done
