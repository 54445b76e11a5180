#!/bin/bash
# mkseed.sh <id> <property> "<needs>" "<what it breaks>": the change is in /tmp/mr (copy of /repo), the demonstration in /verif/seeded/<id>/demo.py
set -e
id=$1; d=/verif/seeded/$id; mkdir -p $d
if [ "$5" != keep ]; then
git -C /tmp/mr diff > $d/patch.diff
fi
[ -s $d/patch.diff ] || { echo empty patch; exit 1; }
for f in vsim siplite peers b2bworld tmworld kit; do cp /verif/lib/$f.py $d/; done
cat > $d/demo.sh <<'X'
#!/bin/bash
# run with cwd = the tree under test
export VERIF_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1
py=/opt/venv/bin/python; [ -x $py ] || py=python3
exec timeout 200 $py "$(dirname "$0")/demo.py"
X
[ -f $d/demo.custom.sh ] && cp $d/demo.custom.sh $d/demo.sh
chmod +x $d/demo.sh
python3 - "$d" "$2" "$3" "$4" <<'X'
import json,sys
json.dump({'property': sys.argv[2], 'needs': sys.argv[3], 'what_it_breaks': sys.argv[4]}, open(sys.argv[1]+'/meta.json','w'), indent=1)
X
cp -r $d /tmp/seedtest.$id
set +e
(cd /repo && bash /tmp/seedtest.$id/demo.sh > /tmp/seedtest.$id/out0 2>&1); a=$?
git -C /repo apply $d/patch.diff
trap 'git -C /repo checkout -q -- .' EXIT
set +e
(cd /repo && bash /tmp/seedtest.$id/demo.sh > /tmp/seedtest.$id/out1 2>&1); b=$?
bash /opt/vp/test.sh /tmp/seedtest.$id/t.json >/dev/null 2>&1
python3 - /tmp/seedtest.$id/t.json <<'X'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('stable','passed','pass'):
        if k in x: return set(x[k])
    return set(k for k,v in x.items() if v in ('pass','passed','PASS'))
m=passed(b)-passed(t)
print('tests', 'OK' if not m else 'MISSING %s'%m)
X
out=$(bash /verif/run.sh $2 --tier quick --seed 1 2>&1); c=$?
git -C /repo checkout -q -- .
trap - EXIT
echo "$id: demo unchanged=$a patched=$b ($(tail -1 /tmp/seedtest.$id/out1)); check exit=$c: $(echo "$out" | grep -A1 VIOLATION | tail -1 | cut -c1-150)"
[ $a = 0 ] || tail -5 /tmp/seedtest.$id/out0
rm -rf /tmp/seedtest.$id
