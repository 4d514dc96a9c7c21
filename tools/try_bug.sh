#!/bin/bash
# try_bug.sh ID : confirm a planted bug in a scratch copy: demo passes clean, patch applies, builds, tests pass, demo fails
id=$1; d=/verif/seeded/$id; s=/tmp/trybug.$id
rm -rf "$s"; cp -a /repo "$s" || exit 2
cd "$s" && git checkout -q -- . && bash $d/demo.sh >$s.clean.log 2>&1; c=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; rm -rf "$s"; exit 2; }
cargo test --offline --lib >$s.test.log 2>&1; t=$?
np=$(grep -oE "[0-9]+ passed" $s.test.log | head -1)
bash $d/demo.sh >$s.bug.log 2>&1; b=$?
echo "$id clean=$c tests=$t ($np) bug=$b"
tail -2 $s.bug.log
rm -rf "$s"
[ $c = 0 ] && [ $t = 0 ] && [ $b != 0 ]
