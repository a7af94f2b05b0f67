#!/bin/bash
# tools/seedtest.sh ID...: confirms a planted bug in a scratch copy and runs its property's check on it
for id in "$@"; do
  s=/verif/seeded/$id; t=$(mktemp -d /tmp/seedt.XXXXXX)
  cp -a /repo $t/repo; mkdir $t/verif; cp -a /verif/{check.py,vc,fe,replay,build,known-findings.txt} $t/verif/
  export VERIF_REPO=$t/repo
  pid=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  (cd $t/repo && bash $s/demo.sh >$t/d0 2>&1); r0=$?
  (cd $t/repo && git apply $s/patch.diff) || echo "$id: patch does not apply"
  (cd $t/repo && bash $s/demo.sh >$t/d1 2>&1); r1=$?
  [ -n "$NOCHECK" ] || (cd $t/verif && VERIF_SEED=1 timeout 900 python3-vt check.py ${P:-$pid} >$t/c 2>&1; echo "exit $?" >>$t/c)
  echo "== $id ($pid) demo $r0/$r1 check: $(grep -E '^VIOLATION|^exit' $t/c 2>/dev/null | tr '\n' ' ')"
  [ $r0 = 0 ] || cat $t/d0 | head -5
  [ -z "$V" ] || cat $t/c
  rm -r "$t"
done
