#!/bin/bash
# seed.sh ID PROPERTY PKG NEEDS WHAT: packages the edit made in the scratch
# copy /tmp/plant/repo, with the demonstration /tmp/plant/demo_test.go for
# package PKG, as /verif/seeded/ID, after confirming that it counts.
set -u
id=$1 prop=$2 pkg=$3 needs=$4 what=$5
out=/verif/seeded/$id; mkdir -p "$out"
git -C /tmp/plant/repo diff > "$out/patch.diff"
[ -s "$out/patch.diff" ] || { echo "no edit"; exit 1; }
if [ -f /tmp/plant/demo_test.go ]; then
cp /tmp/plant/demo_test.go "$out/demo_test.go"
cat > "$out/demo.sh" <<D
#!/bin/bash
d=\$(cd "\$(dirname "\$0")" && pwd)
. /opt/vp/env.sh
w=\$(mktemp -d) || exit 2
trap 'rm -rf "\$w"' EXIT
{ printf "{\"Replace\":{"; for f in /repo/$pkg/*_test.go; do [ -e "\$f" ] && printf "\"%s\":\"\"," "\$f"; done; printf "\"%s\":\"%s\"}}" "/repo/$pkg/zz_demo_test.go" "\$d/demo_test.go"; } > "\$w/o.json"
cd /repo && TMPDIR="\$w" go test -vet=off -count=1 -overlay "\$w/o.json" -run '^TestZZDemo\$' ./$pkg
D
else cp /tmp/plant/demo.sh "$out/demo.sh"; fi
python3 - "$out" "$prop" "$needs" "$what" <<'P'
import json,sys
o,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(o+"/meta.json","w"),indent=1)
P
[ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 1; }
bash "$out/demo.sh" > /tmp/plant/clean.log 2>&1; c=$?
git -C /repo apply "$out/patch.diff" || exit 1
bash /opt/vp/build.sh > /tmp/plant/build.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/plant/t.json > /tmp/plant/test.log 2>&1
t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant/t.json'))
def names(x):
    for k in ('stable','pass','passed','tests'):
        if isinstance(x,dict) and k in x:
            v=x[k]
            return set(v if isinstance(v,list) else [n for n in v if v[n] in (True,'pass','passed','PASS')])
    return set()
print(sorted(names(b)-names(r)))
P
)
bash "$out/demo.sh" > /tmp/plant/bug.log 2>&1; d=$?
v=$(bash /verif/check.sh $prop quick 2>&1); r=$?
git -C /repo checkout -- .
echo "$id: clean=$c build=$b lost_tests=$t demo=$d check=$r $(echo "$v" | grep -m1 VIOLATION | cut -c1-150)"
