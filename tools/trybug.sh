#!/bin/bash
# trybug.sh ID [notests]: full confirmation of one seeded bug in /repo (restores it afterwards)
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 2; }
bash $D/demo.sh >/tmp/demo.clean 2>&1; c=$?
git apply $D/patch.diff || exit 2
bash /opt/vp/build.sh >/dev/null 2>&1; b=$?
bash $D/demo.sh >/tmp/demo.bug 2>&1; x=$?
t=skip; [ "$2" = notests ] || { t=$(bash /verif/tools/testrepo.sh); }
cd /verif; s=$(date +%s); bash run.sh $P quick >/tmp/check.out 2>&1; k=$?; e=$(( $(date +%s) - s ))
cd /repo && git checkout -- . && bash /opt/vp/build.sh >/dev/null 2>&1
v=$(grep -c "^VIOLATION property=$P " /tmp/check.out)
echo "$1 $P: demo clean=$c bug=$x build=$b tests: $t check exit=$k violation=$v ${e}s $(grep -m1 '^violation class' /tmp/check.out | cut -c1-160)"
