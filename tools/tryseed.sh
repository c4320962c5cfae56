#!/bin/bash
# tryseed.sh ID [build]: demo on clean, demo with patch, check with patch (and build+tests when "build")
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
X=$(mktemp -d /tmp/sx.XXXX); cp $d/* $X/; rm -f $X/patch.diff $X/meta.json
cd /repo && [ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
bash $X/demo.sh >$X/o1 2>&1; a=$?
git -C /repo apply $d/patch.diff || exit 1
bash $X/demo.sh >$X/o2 2>&1; b=$?
bt=-; if [ "$2" = build ]; then bash /opt/vp/build.sh >$X/bl 2>&1; bt=$?; bash /opt/vp/test.sh $X/t.json >$X/tl 2>&1; bt=$bt/$?; python3 - $X/t.json <<'P'
import json,sys
t=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    if isinstance(x,dict):
        for k in('passed','pass','stable'):
            if k in x: return set(x[k])
    return set()
print('missing tests:', sorted(names(b)-names(t))[:5], len(names(b)))
P
fi
cd /verif && python3 lib/check.py $p >$X/o3 2>&1; c=$?
git -C /repo checkout -- .
echo "$id prop=$p clean=$a patched=$b build=$bt check=$c $(grep -h VIOLATION $X/o3)"
[ $a = 0 ] || tail -5 $X/o1; [ $b = 0 ] && tail -3 $X/o2; [ $c = 1 ] || tail -3 $X/o3
grep -h 'failing input' $X/o3 | head -2
