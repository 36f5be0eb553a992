#!/bin/bash
# Everything in a scratch copy, so that it can run beside other work (slot = $SLOT, default a).
# sbug.sh new             fresh scratch copy of /repo at /tmp/sbug-$SLOT/repo (edit it there)
# sbug.sh keep <id>       store the scratch changes as seeded/<id>/patch.diff
# sbug.sh test <id>       clean and patched demo, the repository's tests with the patch
# sbug.sh check <id> [P]  run the checks with the patch, from a scratch copy of mc
# sbug.sh drop            remove the scratch directory
set -u
V=/verif; B=/tmp/sbug-${SLOT:-a}; S=$B/repo
fresh() { mkdir -p $S; rsync -a --delete --exclude target /repo/ $S/; git -C $S checkout -q -- . ; }
case $1 in
new) fresh ;;
keep) mkdir -p $V/seeded/$2; git -C $S diff > $V/seeded/$2/patch.diff; cat $V/seeded/$2/patch.diff;;
test)
  d=$V/seeded/$2; fresh
  (cd $S && bash $d/demo.sh >$B/clean.log 2>&1); c=$?
  git -C $S apply $d/patch.diff || exit 9
  (cd $S && bash $d/demo.sh >$B/bad.log 2>&1); b=$?
  echo "$2: demo clean=$c (want 0) patched=$b (want !=0)"; [ $c = 0 ] || tail -5 $B/clean.log; grep -A1 -m1 panicked $B/bad.log | cut -c1-200
  (cd $S && . /opt/vp/env.sh; cd $S; export CARGO_TARGET_DIR=$B/t; timeout 840 cargo test -p sevenz-rust -p lzma-rust --all-features --no-fail-fast --offline -- --test-threads 8 >$B/test.log 2>&1; grep "^test .*FAILED" $B/test.log | grep -v "^test lzma-rust/src/.*(line\|^test result" | sort; echo "ok tests: $(grep -c "^test .*ok$" $B/test.log) (want 25)")
  ;;
check)
  d=$V/seeded/$2; p=${3:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  fresh; [ $2 = none ] || git -C $S apply $d/patch.diff || exit 9
  mkdir -p $B/verif; rsync -a --delete $V/mc $V/check.sh $V/known_findings.txt $B/verif/ --exclude mc/target
  sed -i "s#\"/repo#\"$S#" $B/verif/mc/Cargo.toml
  for q in $p; do
    (cd $B/verif && timeout 1500 ./check.sh $q ${TIER:-quick} > $B/check-$q.log 2>&1); r=$?
    echo "$2 $q exit=$r $(tail -1 $B/check-$q.log | grep -o 'wall=.*')"; grep -m2 -A1 VIOLATION $B/check-$q.log | cut -c1-300
  done;;
drop) find "$B" -delete;;
esac
