#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what breaks"  - makes seeded/ID from the scratch copy /tmp/sw (changed sources)
# and the demonstration /tmp/sw-demo.py; confirms everything first.
set -u
id=$1 prop=$2 needs=$3 what=$4
d=/verif/seeded/$id
mkdir -p $d
(cd /tmp/sw && git diff HEAD -- src > $d/patch.diff)
[ -s $d/patch.diff ] || { echo "empty patch"; exit 1; }
cp /tmp/sw-demo.py $d/demo.py; cp /verif/tools/demolib.py $d/demolib.py
printf '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n' > $d/demo.sh; chmod +x $d/demo.sh
python3 - "$d" "$prop" "$needs" "$what" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cd /repo && git diff --quiet || { echo "/repo dirty"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $d/demo.sh >/tmp/seed.out 2>&1; a=$?
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/seed.build 2>&1; b=$?
timeout 300 bash $d/demo.sh >/tmp/seed.out2 2>&1; c=$?
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
l=b.get('passed') or b.get('stable') or b.get('tests')
print(len([x for x in l if x in r['passed']]),'of',len(l))")
(cd /verif && timeout 900 ./check $prop > /tmp/seed.chk 2>&1); k=$?
git checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
echo "$id: clean demo=$a build=$b patched demo=$c tests=$t check $prop=$k"
tail -2 /tmp/seed.out2 | cut -c1-200; grep -a VIOLATION -A1 /tmp/seed.chk | head -2 | cut -c1-300
