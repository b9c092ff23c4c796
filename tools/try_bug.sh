#!/bin/bash
# try_bug.sh ID [SECONDS]: in scratch copies of /repo and /verif under /tmp/bug, confirms a planted bug
# (applies, passes the stable tests, demo passes without and fails with it) and runs its check on it.
id="$1"; secs="${2:-40}"; only="$3"
from="${FROM:-/verif}"; repo="${REPO:-/repo}"; w="${W:-/tmp/bug}"; src=$from/seeded/$id
mkdir -p $w/repo $w/verif
rsync -a --delete --exclude target --exclude .git $repo/ $w/repo/
find $w/repo/src -name '*.rs' -exec touch {} + # (cargo compares times)
rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude evidence --exclude replays $from/ $w/verif/
grep -rl '"/repo' $w/verif/sim --include=Cargo.toml | xargs sed -i "s#\"/repo#\"$w/repo#"
sed -i "s#/repo/src#$w/repo/src#g" $w/verif/sim/*/Cargo.toml; sed -i "s#$w$w#$w#g" $w/verif/sim/*/Cargo.toml
prop=$(python3 -c "import json;print(json.load(open('$src/meta.json'))['property'])")
export DEMO_TARGET=$w/demo-target
demo() { (cd $w/repo && timeout 300 bash $src/demo.sh >$w/demo.log 2>&1); }
stable() { (export HOME=/root CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$w/repo-target; cd $w/repo && cargo test --workspace --no-fail-fast --offline >$w/test.log 2>&1
  python3 - <<P
import json,re
b=json.load(open('/opt/vp/BASELINE.json'))
t=open('$w/test.log').read()
names=b.get('stable') or b.get('tests') or b.get('pass')
ok=lambda n: re.search(r'test '+re.escape(n[4:].replace('imgproc_rs::','',1).split(' - ')[0])+r' - \S+ \(line \d+\) \.\.\. ok',t) if n.startswith('doc:') else re.search(r'test '+n.split('::')[-1]+r' \.\.\. ok',t)
bad=[n for n in names if not ok(n)]
print('stable tests missing:',bad) if bad else print('stable tests pass',len(names))
P
); }
if [ "$only" != check ]; then
demo; a=$?
(cd $w/repo && git init -q . 2>/dev/null; git apply --unsafe-paths $src/patch.diff) || { echo "$id: patch does not apply"; exit 1; }
stable
demo; b=$?
echo "$id ($prop): demo clean=$a patched=$b"; [ $a = 0 ] && [ $b != 0 ] || { tail -15 $w/demo.log; }
else
(cd $w/repo && git init -q . 2>/dev/null; git apply --unsafe-paths $src/patch.diff) || { echo "$id: patch does not apply"; exit 1; }
fi
[ "$only" = demo ] && exit
(cd $w/verif && VERIF_SEED=${VERIF_SEED:-1} bash check.sh $prop quick $secs) > $w/check.log 2>&1; c=$?
echo "$id ($prop): check exit $c"; tail -6 $w/check.log | cut -c1-600
rm -rf $w/repo/.git
