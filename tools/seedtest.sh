#!/bin/bash
# usage: seedtest.sh ID [LANE] [STEPS]: validates /verif/seeded/ID in a private mount namespace, on a scratch copy of /repo and /verif.
# STEPS: any of b(uild) t(ests) d(emo with the change) c(hecks) u(nchanged demo); all by default.
ID=$1; LANE=${2:-0}; STEPS=${3:-btdcu}; SB=/tmp/sb$LANE
if [ -z "$IN_SB" ]; then
  mkdir -p $SB/verif
  if [ ! -d $SB/repo ]; then cp -a /repo $SB/repo; fi
  # bring the copy to the current commit
  git -C $SB/repo fetch -q /repo HEAD && git -C $SB/repo checkout -q -f FETCH_HEAD && git -C $SB/repo clean -qfd
  rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude evidence --exclude replays /verif/ $SB/verif/ 2>/dev/null || (cd /verif && tar cf - --exclude=./target --exclude=./.git --exclude=./seeded --exclude=./evidence --exclude=./replays . | tar xf - -C $SB/verif)
  [ -d $SB/verif/target ] || cp -a /verif/target $SB/verif/target
  mkdir -p $SB/verif/evidence $SB/verif/replays
  rm -rf $SB/seed; cp -a /verif/seeded/$ID $SB/seed
  IN_SB=1 exec unshare -Urm "$0" "$ID" "$LANE" "$STEPS"
fi
mount --bind $SB/repo /repo && mount --bind $SB/verif /verif || exit 9
cd /repo
P=$(python3 -c "import json;print(json.load(open('$SB/seed/meta.json'))['property'])")
git apply --check $SB/seed/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
git apply $SB/seed/patch.diff
case $STEPS in *b*) bash /opt/vp/build.sh >$SB/build.log 2>&1 || { echo "$ID: BUILD FAILED"; tail -20 $SB/build.log; git checkout -q -f; exit 1; } ;; esac
case $STEPS in *t*) bash /opt/vp/test.sh $SB/out.json >$SB/test.log 2>&1
python3 -c "
import json
o=json.load(open('$SB/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed'])
print('$ID: tests', 'ok' if not m else 'FAILED %s'%sorted(m)[:6])" ;; esac
mkdir -p $SB/d; rm -rf $SB/d/*; cp -a $SB/seed $SB/d/x
case $STEPS in *d*) (cd /repo; timeout 300 bash $SB/d/x/demo.sh >$SB/demo1.log 2>&1; echo "$ID: demo with change rc $?") ;; esac
case $STEPS in *c*) (cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $P >$SB/check.log 2>&1; echo "$ID: check $P rc $? $(grep -c VIOLATION $SB/check.log) violations: $(grep -A1 -m1 -- '^--- ' $SB/check.log | tr '\n' ' ' | cut -c1-150)") ;; esac
git checkout -q -f
case $STEPS in *u*) (cd /repo; timeout 300 bash $SB/d/x/demo.sh >$SB/demo0.log 2>&1; echo "$ID: demo unchanged rc $?") ;; esac
git status --short | head -3
