#!/bin/bash
# seedpre.sh ID... : demonstration with and without a planted bug, in a scratch copy; are the changed lines original?
B=$(git -C /repo rev-list --max-parents=0 HEAD)
for id in "$@"; do
  T=$(mktemp -d /tmp/seedpre.XXXXXX)
  git -C /repo archive HEAD include | tar -x -C $T
  S=/verif/seeded/$id
  (cd $T; timeout 200 bash $S/demo.sh >/dev/null 2>&1); d0=$?
  orig=$(python3 - $S/patch.diff $B <<'P'
import re, subprocess, sys
f = None; out = []
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f = l[6:].strip()
    m = re.match(r'@@ -(\d+)', l)
    if m: n = int(m[1]); continue
    if f and l[0] in ' -' and not l.startswith('---'):
        if l[0] == '-': out.append((f, n))
        n += 1
c = [subprocess.run(['git', '-C', '/repo', 'blame', '-l', '-s', f'-L{n},{n}', f], capture_output=True, text=True).stdout.lstrip('^')[:39] == sys.argv[2][:39] for f, n in out]
print(f'{sum(c)}/{len(c)}')
P
)
  (cd $T; git init -q . ; git apply $S/patch.diff); a=$?
  (cd $T; timeout 200 bash $S/demo.sh >/tmp/seedpre.out 2>&1); d1=$?
  echo "$id apply $a demo $d0/$d1 original $orig $([ $a$d0 = 00 ] && [ $d1 != 0 ] || echo BAD) $(head -c 60 /tmp/seedpre.out | head -1)"
  rm -rf "$T"
done
