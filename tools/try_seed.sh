#!/bin/bash
# tools/try_seed.sh ID [P..]: runs the demo and the given (default: all claimed) checks on a scratch copy with seeded/ID applied.
id=$1; shift
S=/tmp/seed_$id; rm -rf /tmp/seed_$id; mkdir -p $S
cd /repo && cp -a hazma rust setup.py pyproject.toml $S/ && [ -d docs ] && cp -a docs $S/
cd $S && git init -q . 2>/dev/null
run_demo() { (cd $S && mkdir -p /tmp/demo_$id && cp /verif/seeded/$id/* /tmp/demo_$id/ && rm -f /tmp/demo_$id/*.diff && timeout 300 bash /tmp/demo_$id/demo.sh >$S/demo.$1.log 2>&1; echo "demo $1: $?"; tail -3 $S/demo.$1.log); }
run_demo clean
git apply /verif/seeded/$id/patch.diff || exit 3
run_demo patched
cd /verif
for p in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  python3 -m sa.run $p --repo $S >$S/$p.log 2>&1; rc=$?
  echo "$p exit $rc $(grep -E '^\S+: \[' $S/$p.log | head -3)"
done
rm -rf /tmp/seed_$id /tmp/demo_$id
