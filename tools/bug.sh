#!/bin/bash
# bug.sh <id> [<property> <needs> <breaks>]: diff of /tmp/bugrepo plus /tmp/main.rs -> seeded/<id>, confirmed with the committed checks
set -u; d=/verif/seeded/$1; mkdir -p $d; R=/tmp/bugrepo
if [ ! -d $R ]; then cp -a /repo $R; fi
if [ ! -d /tmp/bugvp ]; then cp -r /opt/vp /tmp/bugvp; rm -rf /tmp/bugvp/build* ; sed -i "s#/repo#$R#g; s#/opt/vp#/tmp/bugvp#g" /tmp/bugvp/*.sh /tmp/bugvp/*.py; fi
cd $R
[ -z "$(git diff)" ] || git diff > $d/patch.diff; git checkout -q -- .
git fetch -q /repo master 2>/dev/null || git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD
[ -f /tmp/main.rs ] && mv /tmp/main.rs $d/main.rs; [ -f $d/demo.sh ] || cp /verif/tools/demo.sh $d/demo.sh
[ $# -ge 4 ] && python3 -c 'import json,sys; json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)' $d "$2" "$3" "$4"
bash $d/demo.sh > /tmp/demo0 2>&1; a=$?
git apply $d/patch.diff || exit 1
bash $d/demo.sh > /tmp/demo1 2>&1; b=$?
echo "== $1: demo clean=$a patched=$b"; [ $a = 0 ] || head -20 /tmp/demo0; [ $b = 0 ] && tail /tmp/demo1
if [ -z "${NOTEST:-}" ]; then
bash /tmp/bugvp/test.sh /tmp/bugout.json > /tmp/bugtest.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/bugout.json'))
m={t for t in set(b['stable'])-set(o['passed']) if not t.startswith('hugr-py.src')}; print(len(o['passed']),'passed; missing',len(m),sorted(m)[:12])
P
fi
P=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]+"/meta.json"))["property"])' $d)
if [ -z "${NOCHECK:-}" ]; then
mkdir -p /tmp/bugv; git -C /verif archive HEAD | tar -x -C /tmp/bugv; (cd /tmp/bugv; sed -i "s#/repo#$R#g" harness/Cargo.toml check.sh; sed -i "s#/verif#/tmp/bugv#g" check.sh; mkdir -p evidence
VERIF_SEED=1 timeout 900 bash check.sh $P quick 2>&1 | grep -v KNOWN-FIND | tail -5 | cut -c1-250)
fi
cd $R; git checkout -q -- .
