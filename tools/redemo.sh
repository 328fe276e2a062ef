#!/bin/bash
# redemo.sh BUG...: the demonstration must pass on the tree and fail with the patch (on a copy, in a private namespace).
for B; do
  W=$(mktemp -d /tmp/redemo.XXXXXX)
  cp -a /repo "$W/repo"; cp -a "/verif/seeded/$B" "$W/bug"; rm -f "$W/bug/patch.diff"
  ns() { unshare -mn bash -c "ip link set lo up; mount --bind $W/repo /repo && cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && timeout 300 bash $W/bug/demo.sh" >"$W/out" 2>&1; }
  ns; a=$?
  git -C "$W/repo" apply "/verif/seeded/$B/patch.diff" || echo "$B does not apply"
  ns; b=$?
  [ $a = 0 ] && [ $b != 0 ] && echo "$B ok" || echo "$B BAD clean=$a patched=$b"
  rm -rf "$W"
done
