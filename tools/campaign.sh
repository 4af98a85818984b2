#!/bin/bash
# campaign.sh <list> <dir of diffs> <out> <ids...>   run mutants through the checks at reduced size until one catches
# (scratch copies from mut.sh init/sync; MW selects them)
MW=${MW:-/tmp/mw}; LIST=$1; D=$2; OUT=$3; shift 3
export XH_PERCENT=${XH_PERCENT:-20} XH_THREADS=${XH_THREADS:-4}
while IFS='|' read -r name what; do
  name=${name// /}
  grep -q "^$name " "$OUT" 2>/dev/null && continue
  git -C $MW/repo checkout -q -- . ; git -C $MW/repo apply "$D/$name.diff" || { echo "$name APPLY |$what" >>$OUT; continue; }
  unshare -Urm bash -c "mount --bind $MW/repo /repo && mount --bind $MW/verif /verif && cd /verif && . ./env.sh && cargo build --release --offline --manifest-path harness/Cargo.toml >$MW/build.log 2>&1 || exit 77
   for c in $*; do case \$c in C16|C17|C21) js/build.sh target/js >/dev/null 2>&1 || exit 77;; C23|C24) js/build.sh target/js scripts >/dev/null 2>&1 || exit 77;; esac
     timeout 300 target/release/xharness \$c quick >$MW/out 2>&1; rc=\$?; if [ \$rc != 0 ]; then echo \$c rc=\$rc >$MW/killer; exit 1; fi; done; exit 0"
  rc=$?
  case $rc in 77) r=NOCOMPILE;; 0) r=SURVIVED;; *) r="killed $(cat $MW/killer)";; esac
  echo "$name $r |$what" >>$OUT
done <$LIST
git -C $MW/repo checkout -q -- .
