#!/bin/bash
# seedtest.sh ID...: confirms a planted bug in a scratch copy: demo passes without / fails with the patch; the property's check reports it. TESTS=1 also runs the stable tests on /repo with the patch applied (and undoes it).
V=$(cd "$(dirname "$0")/.." && pwd); W=/tmp/seedtest; mkdir -p $W
for i in "$@"; do S=$V/seeded/$i; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  mkdir -p $W/repo; rsync -a --delete --exclude _build /repo/ $W/repo/ 2>/dev/null || { rm -rf /tmp/seedtest/repo; mkdir -p $W/repo; (cd /repo && tar cf - --exclude=_build .) | tar xf - -C $W/repo; }
  cp -r $S $W/demo.$i; rm -f $W/demo.$i/patch.diff $W/demo.$i/meta.json
  (cd $W/repo && bash $W/demo.$i/demo.sh >$W/out0 2>&1); a=$?
  git -C $W/repo apply $S/patch.diff || { echo "$i: patch does not apply"; continue; }
  (cd $W/repo && bash $W/demo.$i/demo.sh >$W/out1 2>&1); b=$?
  rm -rf $W/verif; mkdir -p $W/verif; (cd $V && tar cf - --exclude=build --exclude=.git --exclude=seeded .) | tar xf - -C $W/verif
  (cd $W/verif && VMC_DEV_REPO=$W/repo VMC_DEV_BUILD=$W/build python3 run.py $P >$W/outc 2>&1); c=$?
  t=-; if [ -n "$TESTS" ]; then git -C /repo apply $S/patch.diff && t=$(bash $V/tools/repotests.sh 2>&1 | tail -1); git -C /repo checkout -- .; fi
  echo "$i property=$P demo-unchanged=$a demo-patched=$b ($(tail -1 $W/out1 | cut -c1-150)) check=$c ($(grep -v '^VIOL' $W/outc | head -1 | cut -c1-150)) tests=$t"; rm -rf $W/demo.$i
done
