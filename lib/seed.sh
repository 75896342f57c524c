#!/bin/bash
# seed.sh ID...: confirm planted bugs: the demo passes on the unchanged tree, fails with the patch, the
# stable tests still pass with it; then say what the property's check reports. /repo must be clean.
for id in "$@"; do
d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "dirty"; exit 1; }
a=$(timeout 300 bash $d/demo.sh >/tmp/seed0.log 2>&1; echo $?)
git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
t=$(bash /opt/vp/build.sh >/tmp/seedb.log 2>&1 && bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
print(len(set(b['stable'])-set(o['passed'])))")
b=$(timeout 300 bash $d/demo.sh >/tmp/seed1.log 2>&1; echo $?)
cd /verif; timeout 900 python3 check.py $prop quick >/tmp/seedc.log 2>&1; c=$?
git -C /repo checkout -- .
echo "$id $prop: demo clean=$a patched=$b missing-tests=$t check=$c $(grep -m1 VIOLATION /tmp/seedc.log) $(grep -m1 -o 'scenario[^ ]* [^ ]*' /tmp/seedc.log)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
