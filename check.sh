#!/bin/bash
# check.sh PROPERTY : decide one property of /repo's current source
cd "$(dirname "$0")"
ID=$1
R=$PWD
mkdir -p build evidence
rm -f evidence/$ID.json evidence/$ID.violation.txt
fail() { # fail closed: the property could not be established on this tree
  echo "$1" > evidence/$ID.violation.txt
  python3 - "$ID" "$1" <<'P'
import json,sys,os
json.dump({"property":sys.argv[1],"tier":os.environ.get("VERIF_TIER","quick"),"seed":int(os.environ.get("VERIF_SEED","0") or 0),"level":"other","coverage":{"explanation":"analysis could not be completed: "+sys.argv[2]},"assumptions":[],"wall_s":0,"violations":[{"key":"incomplete","text":sys.argv[2]}]},open(f"evidence/{sys.argv[1]}.json","w"))
P
  echo "VIOLATION property=$ID replay=$R/evidence/$ID.violation.txt"; exit 1; }
if [ -z "$PS_SKIP_BUILD" ]; then
  ./setup.sh > build/setup.log 2>&1 || { tail -20 build/setup.log; echo "engine build failed"; exit 2; }
fi
W=$(mktemp -d build/run.XXXXXX) || exit 2
trap 'rm -rf "$R/$W"' EXIT
if [ -n "$PS_IR_DIR" ]; then
  I=$PS_IR_DIR
else
  I=$R/$W
  ./engine/dump.sh default $I/default.json > $I/d.log 2>&1 & P1=$!
  ./engine/dump.sh full $I/full.json > $I/f.log 2>&1 & P2=$!
  wait $P1; R1=$?; wait $P2; R2=$?
  if [ $R1 -ne 0 ] || [ $R2 -ne 0 ]; then tail -30 $I/d.log $I/f.log; echo "the tree does not compile with the analysis client"; exit 2; fi
fi
timeout 850 build/engine/release/ps_scan $ID known_findings.txt $R/evidence/$ID.json $I/default.json $I/full.json
RC=$?
[ $RC -eq 0 ] || [ $RC -eq 1 ] || fail "the analyser did not finish (exit $RC)"
exit $RC
