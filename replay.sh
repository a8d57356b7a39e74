#!/bin/bash
# usage: bash replay.sh replays/C01-xxxx.json   (exit 1 if the saved case still fails)
cd "$(dirname "$0")" || exit 2
f=$(realpath "$1")
read -r prop x64 < <(python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); print(d["property"], int(d.get("x64", True)))' "$f")
out=$(mktemp)
VH_X64=$x64 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m vh.worker "$prop" --replay "$f" --out "$out"
rc=$?
python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); print(json.dumps(d["failure"] or d["error"] or "holds", indent=1))' "$out"
rm -f "$out" "$out.beat"
exit $rc
