#!/bin/bash
# tools/mut.sh PID FILE OLD NEW : runs PID's check on a scratch copy of /repo with OLD replaced by NEW in FILE
t=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo $t/repo; mkdir $t/verif; cp -a /verif/{check.py,vc,fe,replay,build,known-findings.txt} $t/verif/
python3 - "$t/repo/$2" "$3" "$4" <<'P' || exit 1
import sys
p,o,n=sys.argv[1:]
s=open(p).read()
assert s.count(o)>=1,"not found: "+o
open(p,'w').write(s.replace(o,n,1))
P
export VERIF_REPO=$t/repo
(cd $t/verif && VERIF_SEED=1 timeout 900 python3-vt check.py $1 >$t/c 2>&1; echo "exit $?" >>$t/c)
echo "== $1 $2 [$3] -> [$4]"; cut -c1-330 $t/c
rm -r "$t"
