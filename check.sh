#!/bin/bash
# usage: check.sh <property> <quick|thorough>
# Builds the simulator against /repo's current tree, then searches.
cd /verif/sim || exit 3
export CARGO_NET_OFFLINE=true
log=$(mktemp)
ok=
# The later attempts leave out parts of the harness that use more of the
# crate's interface than the rest does.
for flags in "" "--cfg carron_no_count" "--cfg carron_no_main" "--cfg carron_no_main --cfg carron_no_count"; do
  if RUSTFLAGS="--cfg carron_sim $flags" cargo build --release --offline --quiet 2>>"$log"; then
    ok=1
    break
  fi
done
[ -n "$ok" ] || cat "$log"
rm -f "$log"
if [ -z "$ok" ]; then
  echo "check error: the simulator does not build against /repo"
  exit 3
fi
exec ./target/release/carron-sim check "$1" "${2:-quick}"
