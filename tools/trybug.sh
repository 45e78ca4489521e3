#!/bin/bash
# trybug.sh ID [PROPERTY..]: run the checks against a planted bug in /repo, then undo it
id=$1; shift; s=/verif/seeded/$id
[ -n "$(git -C /repo status --porcelain --untracked-files=no)" ] && { echo "/repo not clean"; exit 1; }
props=${*:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
git -C /repo apply $s/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
  python3 /verif/check.py $p >/tmp/try.$id.$p 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -m1 ^VIOLATION /tmp/try.$id.$p) | $(grep -m1 'violation:' /tmp/try.$id.$p | cut -c1-200)"
done
