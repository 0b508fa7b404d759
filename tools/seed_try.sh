#!/bin/bash
# seed_try.sh <id>: in a scratch copy of /repo, confirm that seeded/<id> applies, builds, passes the stable tests, and that
# its demonstration passes before and fails after.
set -u
id=$1; S=/verif/seeded/$id; W=/tmp/seedcopy
mkdir -p $W
rsync -a --delete --exclude target /repo/ $W/
export CARGO_TARGET_DIR=/tmp/seedtarget CARGO_NET_OFFLINE=true
cd $W || exit 2
run_demo() { (unset CARGO_TARGET_DIR; T=$(mktemp -d); cp -r $S/. $T/; rm -f $T/*.diff $T/meta.json; timeout 300 bash $T/demo.sh >/tmp/seed_demo.log 2>&1; r=$?; rm -rf $T; exit $r); }
run_demo; a=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
run_demo; b=$?
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/seed_test.log 2>&1
python3 - "$id" $a $b <<'P'
import json,re,sys
base=json.load(open('/opt/vp/BASELINE.json'))
names=base if isinstance(base,list) else base.get('stable') or base.get('passed') or base.get('tests')
if isinstance(names,dict): names=list(names)
log=open('/tmp/seed_test.log').read()
ok=set(re.findall(r'^test (\S+)(?: - should panic)? \.\.\. ok',log,re.M))
miss=[n for n in names if not any(n==o or n.endswith('::'+o) or n.endswith(' '+o) or n.endswith(o) for o in ok)]
print(sys.argv[1],'demo clean',sys.argv[2],'patched',sys.argv[3],'stable tests missing',miss[:5],len(names))
P
git checkout -q -- .
