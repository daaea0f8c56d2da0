#!/bin/bash
# check.sh PROP [TIER]: builds the simulator against /repo's working tree and runs the check of PROP.
# Exit 0: held. Exit 1: VIOLATION line. Anything else: the check itself failed.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export HOME=/root PATH="/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$here/sim/target DST_ROOT=$here
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTFLAGS RUST_BACKTRACE
log=$(mktemp)
if ! (cd "$here/sim" && cargo build --offline --locked >"$log" 2>&1); then
    cat "$log" >&2
    rm -f "$log"
    echo "the simulator does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
[ -n "$2" ] && export VERIF_TIER=$2
exec "$CARGO_TARGET_DIR/debug/dst" check "$1"
