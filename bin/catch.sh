#!/bin/bash
# catch.sh SEED [PROPERTY]: apply a planted change to /repo, run its property's check, undo it
V=$(cd "$(dirname "$0")/.." && pwd); s=$1
p=${2:-$(python3 -c "import json;print(json.load(open('$V/seeded/$s/meta.json'))['property'])")}
git -C /repo apply "$V/seeded/$s/patch.diff" || exit 9
python3 "$V/bin/check.py" "$p" > "/tmp/catch_$s.log" 2>&1; r=$?
git -C /repo checkout -q -- .
echo "$s $p exit $r $(grep -a VIOLATION "/tmp/catch_$s.log" | head -1) $(grep -a 'FAILED OBLIG' "/tmp/catch_$s.log" | head -3 | cut -c1-160 | tr '\n' ';') $(tail -1 "/tmp/catch_$s.log" | cut -c1-120)"
