#!/bin/bash
# trybug.sh [-t] ID...: try planted changes in a private mount of /repo.
# -t also runs the repository's tests.  Prints one line per change.
T=0; [ "$1" = -t ] && { T=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  S=$V/seeded/$id; R=/tmp/bug_$id; rm -rf "$R"; mkdir -p "$R"
  cp -a /repo "$R/repo"; mkdir -p "$R/work"
  pid=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  export R S V T pid id
  unshare -Urm bash -c '
    mount --bind $R/repo /repo; mount --bind $R/work /opt/work
    cd /repo
    timeout 300 bash $S/demo.sh >$R/demo0.log 2>&1; d0=$?
    git apply $S/patch.diff || { echo "$id: patch does not apply"; exit; }
    timeout 300 bash $S/demo.sh >$R/demo1.log 2>&1; d1=$?
    t=-
    if [ $T = 1 ]; then bash /opt/vp/build.sh >$R/build.log 2>&1 || t=nobuild
      [ $t = - ] && { bash /opt/vp/test.sh $R/t.json >$R/test.log 2>&1; t=$(tail -1 $R/test.log); }; fi
    cd $V; ./check $pid >$R/check.log 2>&1; c=$?
    echo "$id ($pid): demo $d0 -> $d1, tests: $t, check exit $c, $(grep -c "^VIOLATION property=$pid" $R/check.log) violation lines"
  '
done
