#!/bin/bash
# bug.sh new <id> <property>      create seeded/<id> from the diff in /tmp/bugwt, main.rs from stdin
# bug.sh confirm <id>             in the scratch copy: builds, passes stable tests, demo ok/nok
# bug.sh hit <id> [tier]          does the property's check catch it (against /repo, undone afterwards)
set -u
V=/verif; WT=/tmp/bugwt; S=$V/seeded/$2
fresh() { [ -d $WT ] || cp -a /repo $WT; git -C $WT fetch -q /repo HEAD; git -C $WT reset -q --hard FETCH_HEAD; git -C $WT clean -fdq -e target; }
case $1 in
fresh) fresh ;;
new)
  mkdir -p $S; git -C $WT diff > $S/patch.diff; cp $V/tools/bugtemplate/demo.sh $S/; cp -r $V/tools/bugtemplate/jem $S/
  ;;
confirm)
  fresh; git -C $WT apply $S/patch.diff || exit 1
  sed 's#/repo#/tmp/bugwt#g' /opt/vp/build.sh > /tmp/bw_build.sh
  sed 's#/repo#/tmp/bugwt#g;s#/opt/vp/test.log#/tmp/bw_test.log#g' /opt/vp/test.sh > /tmp/bw_test.sh
  bash /tmp/bw_build.sh > /tmp/bw_build.log 2>&1 || { tail -30 /tmp/bw_build.log; echo "NO: does not build"; exit 1; }
  bash /tmp/bw_test.sh /tmp/bw.json > /dev/null 2>&1
  python3 - <<'P'
import json
o=json.load(open('/tmp/bw.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(o['passed'])
m=[t for t in b if t not in p]; print('missing tests:',len(m),m[:8])
P
  (cd $WT && bash $S/demo.sh > /tmp/demo_bad.log 2>&1); echo "demo with patch: $? $(tail -1 /tmp/demo_bad.log | cut -c1-200)"
  fresh; (cd $WT && bash $S/demo.sh > /tmp/demo_ok.log 2>&1); echo "demo without: $? $(tail -1 /tmp/demo_ok.log | cut -c1-200)"
  ;;
hit)
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo apply $S/patch.diff || exit 1
  bash $V/run.sh $P ${3:-quick} > /tmp/hit.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$2 $P rc=$rc $(grep -m1 'what:' /tmp/hit.log | cut -c1-220)"; tail -1 /tmp/hit.log | cut -c1-160
  ;;
esac
