#!/bin/bash
# detect.sh BUG [CHECK...]: runs checks (default: the bug's own) against a
# planted bug, on copies of /repo and /verif mounted in a private namespace.
B=$1; shift
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$B/meta.json'))['property'])")
W=$(mktemp -d /tmp/detect.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; mkdir "$W/verif"; cp -a /verif/harness /verif/*.sh "$W/verif/"
git -C "$W/repo" apply "/verif/seeded/$B/patch.diff" || exit 9
for c in ${@:-$P}; do
  unshare -mn bash -c "ip link set lo up; mount --bind $W/repo /repo && mount --bind $W/verif /verif && cd /verif && ${VPRE:-} timeout 900 ./run.sh $c" > "$W/out" 2>&1
  rc=$?
  echo "$B $c exit=$rc $(grep -c ^VIOLATION "$W/out") $(grep -A1 -m1 '^--- case' "$W/out" | tr '\n' ' ' | cut -c1-${WIDE:-220}) $(grep -m1 INCONCLUSIVE "$W/out" | cut -c1-200)"
  [ -n "${KEEP:-}" ] && cp "$W/out" "$KEEP"
done
