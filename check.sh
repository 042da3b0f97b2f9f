#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property
# check.sh replay FILE                 repeat a recorded violation exactly
# check.sh trace FILE                  the same, with every call shown
# check.sh determinism [N]             run N scenarios of every property twice, compare
# check.sh build                       only build
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT="$here"
out="$here/.build"
mkdir -p "$out"
exec 9>"$out/lock"
flock 9
# Rebuild whenever the text of the code under test or of the simulator differs from
# what the binary was built from; time stamps are not trusted.
key=$( { find /repo/src /repo/Cargo.toml "$here/sim" -type f -print0 | sort -z | xargs -0 sha256sum; rustc +nightly -V; } | sha256sum | cut -d' ' -f1)
bin="$out/target/debug/rcgal-sim"
if [ ! -x "$bin" ] || [ "$(cat "$out/stamp" 2>/dev/null)" != "$key" ]; then
  rm -f "$out/stamp" "$bin"
  rm -rf "$out/target"
  if ! ( cd "$here/sim" && CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$here/sim/wrap.sh" CARGO_TARGET_DIR="$out/target" \
         cargo +nightly build --offline --locked --quiet ) >"$out/build.log" 2>&1; then
    tail -40 "$out/build.log" >&2
    echo "build failed" >&2
    exit 2
  fi
  echo "$key" >"$out/stamp"
fi
flock -u 9
exec 9>&-
case "$1" in
  build) exit 0 ;;
  replay|trace|determinism|scenario) exec "$bin" "$@" ;;
  *) exec "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
