#!/bin/bash
# revert_fix.sh PROPERTY COMMIT [SECONDS]: undoes one repair in a scratch copy and runs the property's check on it.
prop="$1"; commit="$2"; secs="${3:-40}"; w=/tmp/revert
rm -rf /tmp/revert/repo; mkdir -p $w/verif; git clone -q /repo $w/repo; cp /repo/Cargo.lock $w/repo/ 2>/dev/null
(cd $w/repo && git -c user.name=x -c user.email=x@x revert --no-commit $commit >/dev/null 2>$w/log) ||
  (cd $w/repo && git checkout -q HEAD -- . && git checkout -q $commit~1 -- $(git show --format= --name-only $commit)) || { echo "$commit: conflict"; cat $w/log; exit 1; }
rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude evidence --exclude replays /verif/ $w/verif/
grep -rl '"/repo' $w/verif/sim --include=Cargo.toml | xargs sed -i "s#\"/repo#\"$w/repo#"
(cd $w/verif && bash check.sh $prop quick $secs) > $w/check.log 2>&1
echo "$prop without $commit: exit $?"; grep -m1 VIOLATION $w/check.log || tail -3 $w/check.log; grep -m1 "^case" $w/check.log | cut -c1-300
