#!/bin/bash
# check.sh ID [tier]: rebuild the simulator from /repo's working tree, then
# search for a violation of one property. check.sh build: only build.
set -u
cd "$(dirname "$0")/sim" || exit 2
export CARGO_NET_OFFLINE=true
ID=${1:?property id}
TIER=${2:-${VERIF_TIER:-quick}}
mkdir -p target
exec 9>target/.lock
flock 9
# Rebuild by content, not by time stamp: copies of /repo may carry any mtime.
STAMPS=target/.srchash
mkdir -p $STAMPS
for c in /repo/crates/*/; do
  n=$(basename "$c")
  h=$(find "$c" -path "$c"target -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
  if [ "$(cat $STAMPS/"$n" 2>/dev/null)" != "$h" ]; then
    rm -rf target/debug/.fingerprint/"$n"-* target/debug/.fingerprint/simcheck-*
    echo "$h" > "$STAMPS/$n.new"
  fi
done
if ! cargo build --offline -q 2>target/build.log; then
  tail -60 target/build.log >&2
  echo "BUILD FAILED" >&2
  exit 2
fi
for f in $STAMPS/*.new; do [ -e "$f" ] && mv "$f" "${f%.new}"; done
[ "$ID" = build ] && exit 0
cp -f target/debug/simcheck target/simcheck.run.$$ || exit 2
flock -u 9
trap 'rm -f target/simcheck.run.'$$ EXIT
./target/simcheck.run.$$ run --property "$ID" --tier "$TIER"
