#!/bin/bash
# seedcopy.sh ID... : run the property's quick check against a scratch copy of the library with a planted bug (no build, no tests)
for id in "$@"; do
  S=/verif/seeded/$id; P=${PROP:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
  T=$(mktemp -d /tmp/seedcopy.XXXXXX)
  git -C /repo archive HEAD | tar -x -C $T
  (cd $T; git init -q .; git apply $S/patch.diff) || echo "$id: patch does not apply"
  o=$(VERIF_REPO=$T timeout 900 python3 /verif/check.py $P 2>&1); c=$?
  echo "$id ($P): check $c $([ $c = 1 ] && echo "$o" | grep -q "^VIOLATION property=$P " && echo CAUGHT || echo MISSED) $(echo "$o" | tail -1 | grep -o 'total.*')"
  rm -rf "$T"
done
