#!/bin/bash
# bug.sh new            fresh scratch copy of /repo at /tmp/bug/repo
# bug.sh diff <id>      store the scratch changes as seeded/<id>/patch.diff
# bug.sh test <id>      apply in scratch copy, build, run the tests and the demo (both ways)
# bug.sh check <id> [P] apply to /repo, run the check(s) of its property (or P), undo
set -u
V=/verif; S=/tmp/bug/repo
fresh() { mkdir -p $S; rsync -a --delete --exclude target/verif /repo/ $S/ 2>/dev/null || cp -a /repo/. $S/; git -C $S checkout -q -- . ; }
case $1 in
new) fresh ;;
diff) mkdir -p $V/seeded/$2; git -C $S diff > $V/seeded/$2/patch.diff; cat $V/seeded/$2/patch.diff;;
test)
  d=$V/seeded/$2; fresh
  (cd $S && bash $d/demo.sh >/tmp/bug/clean.log 2>&1); c=$?
  git -C $S apply $d/patch.diff || exit 9
  (cd $S && bash $d/demo.sh >/tmp/bug/bad.log 2>&1); b=$?
  echo "$2: demo clean=$c (want 0) patched=$b (want !=0)"; tail -3 /tmp/bug/bad.log
  git -C /repo apply $d/patch.diff && bash /opt/vp/build.sh >/tmp/bug/build.log 2>&1; echo "build=$?"; bash /opt/vp/test.sh /tmp/bug/o.json 2>&1 | tail -1
  git -C /repo checkout -q -- .;;
check)
  d=$V/seeded/$2; p=${3:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply $d/patch.diff || exit 9
  (cd $V && timeout 900 ./check.sh $p quick > /tmp/bug/check.log 2>&1); r=$?
  git -C /repo checkout -q -- .
  echo "$2 $p exit=$r"; grep -m3 -A3 VIOLATION /tmp/bug/check.log | cut -c1-300;;
esac
