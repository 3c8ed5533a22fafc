#!/bin/bash
# refactor.sh [NAME...]: applies each behaviour-preserving edit of tools/refactor to /repo, runs the
# checks named in the first line of the diff, undoes it. Every check has to stay quiet.
here=$(cd "$(dirname "$0")/.." && pwd)
cd "$here"
n=("$@"); [ ${#n[@]} = 0 ] && n=($(cd tools/refactor && ls *.diff | sed 's/\.diff$//'))
for i in "${n[@]}"; do
  f="$here/tools/refactor/$i.diff"
  git -C /repo apply "$f" || { echo "$i NOAPPLY"; continue; }
  for p in $(sed -n '1s/^# checks: //p' "$f"); do
    s=$(date +%s); ./run.sh $p quick > /tmp/refactor.$i.$p.out 2>&1; c=$?
    echo "$i $p exit=$c $(( $(date +%s)-s ))s"
  done
  git -C /repo checkout -- .
done
