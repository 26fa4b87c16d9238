#!/bin/bash
# runseed.sh ID [PROP..]: runs the quick checks (of the bug's property unless named) with the planted bug in /repo
id=$1; shift
d=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply $d/patch.diff || exit 2
for p in $props; do
  out=$(bash /verif/check.sh $p quick 2>/dev/null); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -c ^VIOLATION) violations"
done
