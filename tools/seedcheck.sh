#!/bin/bash
# seedcheck.sh <seed id> [notest]: apply a planted bug to /repo, run stable tests, its demo and its property's check; revert.
d=/verif/seeded/$1; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
t=$(mktemp -d); cp -a $d/. $t/; rm -f $t/*.diff $t/meta.json
bash $t/demo.sh >$t/o1 2>&1; echo "$1 ($prop): demo clean rc=$? (want 0)"
git apply $d/patch.diff || { echo "patch does not apply"; exit 2; }
trap 'git -C /repo checkout -- .' EXIT
bash $t/demo.sh >$t/o2 2>&1; echo "demo patched rc=$? (want !=0): $(tail -1 $t/o2 | cut -c1-200)"
[ -n "$2" ] || bash /verif/tests.sh | tail -4
cd /verif && timeout 900 bash run.sh $prop quick > $t/chk 2>&1; rc=$?; echo "check rc=$rc (want 1)"; python3 - $d $rc <<'P'
import json,sys
f=sys.argv[1]+"/meta.json"; m=json.load(open(f)); m["caught"]="yes" if sys.argv[2]=="1" else "no"; json.dump(m,open(f,"w"),indent=1)
P
 grep -E "violated:|VIOLATION|rror" $t/chk | cut -c1-260 | head -4; grep wall $t/chk
rm -rf "$t"
