#!/bin/bash
# catch.sh [ID...]: applies each planted bug to /repo, runs its property's quick check, undoes it.
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$here"
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$here/seeded/$i/patch.diff" || { echo "$i NOAPPLY"; continue; }
  s=$(date +%s)
  ./run.sh $p quick > /tmp/catch.$i.out 2>&1; c=$?
  git -C /repo checkout -- .
  if [ $c = 1 ] && grep -q "VIOLATION property=$p" /tmp/catch.$i.out; then r=CAUGHT; else r="MISSED(exit $c)"; fi
  echo "$i $p $r $(( $(date +%s)-s ))s"
done
