#!/bin/bash
# mut.sh init                      scratch copies of /repo and /verif in $MW (default /tmp/mw)
# mut.sh sync                      refresh the scratch /verif from the working tree
# mut.sh check <patch> <id>...     run the checks against /repo + patch (quick tier), in a mount namespace
# mut.sh seed <id>                 confirm seeded/<id>: applies, tests pass, demo 0 without / nonzero with
# mut.sh sh <patch> <command>      run a command with the patched tree mounted
MW=${MW:-/tmp/mw}
ns() { unshare -Urm bash -c "mount --bind $MW/repo /repo && mount --bind $MW/verif /verif && cd /verif && $1"; }
clean() { git -C "$MW/repo" checkout -q -- . && git -C "$MW/repo" clean -fdq; }
case $1 in
 init) mkdir -p "$MW"; cp -a /repo "$MW/"; cp -a /verif "$MW/" ;;
 sync) rsync -a --delete --exclude target --exclude evidence --exclude replays --exclude .git /verif/ "$MW/verif/" 2>/dev/null || { cp -a /verif/harness /verif/harness-fetch /verif/js /verif/tools /verif/vendor /verif/check /verif/env.sh /verif/seeded "$MW/verif/"; }
   find "$MW"/verif/harness* "$MW"/verif/js -type f -not -path "*/target/*" -exec touch {} +  # cargo goes by times
   git -C "$MW/repo" fetch -q /repo HEAD && git -C "$MW/repo" reset -q --hard FETCH_HEAD ;;
 check) p=$(realpath "$2"); shift 2; clean; git -C "$MW/repo" apply "$p" || exit 2
   for c in "$@"; do s=$(date +%s); ns "timeout 900 ./check $c ${TIER:-quick}" >"$MW/out.$c" 2>&1; rc=$?
     echo "$(basename "$(dirname "$p")")/$(basename "$p") $c rc=$rc $(( $(date +%s)-s ))s $(grep -m1 -E 'VIOLATION|BUILD FAILED|BUNDLE FAILED' "$MW/out.$c" | cut -c1-120)"; done; clean ;;
 sh) p=$(realpath "$2"); clean; [ -s "$p" ] && git -C "$MW/repo" apply "$p"; ns "cd /repo; $3"; rc=$?; clean; exit $rc ;;
 seed) d=/verif/seeded/$2; clean; export DEMO_TARGET_DIR=$MW/demo-target; mkdir -p "$DEMO_TARGET_DIR"
   rm -rf "$MW/demo.d"; cp -r "$d" "$MW/demo.d"; rm -f "$MW"/demo.d/*.diff "$MW"/demo.d/meta.json
   ns "cd /repo; timeout 300 bash $MW/demo.d/demo.sh" >"$MW/demo.0" 2>&1; a=$?
   git -C "$MW/repo" apply "$d/patch.diff" || { echo "$2: patch does not apply"; exit 1; }
   ns "cd /repo; timeout 300 bash $MW/demo.d/demo.sh" >"$MW/demo.1" 2>&1; b=$?
   t=skipped; if [ -z "$NOTEST" ]; then
     ns "bash /opt/vp/build.sh" >"$MW/b.log" 2>&1 || echo "$2: BUILD BROKEN"
     # test.sh writes under /opt/vp, so run its commands here
     ns ". /opt/vp/env.sh; cd /repo; cargo test \"\${SCOPE[@]}\" --no-fail-fast -- --test-threads 8" >"$MW/t.log" 2>&1; t=$?; fi
   clean; echo "$2: demo clean=$a patched=$b tests=$t | $(tail -1 "$MW/demo.1" | cut -c1-150)"; [ $a = 0 ] && [ $b = 1 -o $b = 101 -o $b = 134 ] ;;
esac
