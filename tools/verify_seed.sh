#!/bin/bash
# verify_seed.sh ID: does the planted bug count (clean demo 0, builds, tests pass, demo non-zero with it)? Works in a copy.
set -u
id=${1:?id}
src=/verif/seeded/$id
W=/tmp/vs-$id
d=/tmp/vd-$id
rm -rf "$W" "$d"; cp -a /repo "$W"; mkdir "$d"; cp "$src"/* "$d"; rm -f "$d"/*.diff "$d/meta.json"
run() { unshare -Urm bash -c "mount --bind $W /repo && cd /repo && $1" ; }
if ! unshare -Urm true 2>/dev/null; then echo "no unshare"; exit 3; fi
run "timeout 300 bash $d/demo.sh" >/tmp/vs.out 2>&1; a=$?
(cd "$W" && git apply --check "$src/patch.diff") || { echo "$id: does not apply"; exit 1; }
(cd "$W" && git apply "$src/patch.diff")
run "bash /opt/vp/build.sh" >/tmp/vs.build 2>&1 || { echo "$id: does not build"; grep -E '^error' -A8 /tmp/vs.build | head -30; rm -rf "$W" "$d"; exit 1; }
t=$(run "bash /opt/vp/test.sh /tmp/vs.json" 2>&1 | grep -E "tests? run|Summary" | tail -1)
s=$(date +%s); run "timeout 300 bash $d/demo.sh" >/tmp/vs.out2 2>&1; b=$?; e=$(( $(date +%s) - s ))
echo "$id: clean=$a bug=$b (${e}s) | $t | $(tail -1 /tmp/vs.out2)"
rm -rf "$W" "$d"
