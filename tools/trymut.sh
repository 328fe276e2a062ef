#!/bin/bash
# trymut.sh FILE LINE-PATTERN(sed expression) CHECK...: runs checks against a
# mutant of /repo made by one sed command, as detect.sh does for a planted bug.
F=$1 E=$2; shift 2
W=$(mktemp -d /tmp/detect.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; mkdir "$W/verif"; cp -a /verif/harness /verif/*.sh "$W/verif/"
sed -i -E "$E" "$W/repo/$F"
git -C "$W/repo" diff --stat | tail -1
[ -n "$(git -C "$W/repo" diff)" ] || { echo "no change"; exit 9; }
(cd "$W/repo" && PATH=/usr/local/go/bin:$PATH go vet ./... && PATH=/usr/local/go/bin:$PATH go test ./... 2>&1 | grep -v "no test files") | tail -5
for c in "$@"; do
  unshare -mn bash -c "ip link set lo up; mount --bind $W/repo /repo && mount --bind $W/verif /verif && cd /verif && timeout 900 ./run.sh $c" > "$W/out" 2>&1
  rc=$?
  echo "$c exit=$rc $(grep -c ^VIOLATION "$W/out") $(grep -A1 -m1 '^--- case' "$W/out" | tr '\n' ' ' | cut -c1-${WIDE:-220}) $(grep -m1 INCONCLUSIVE "$W/out" | cut -c1-200)"
done
