#!/bin/bash
# bash /verif/check.sh <property> [--tier quick|thorough] [--only <family> <index>] | bash /verif/check.sh --build
# Rebuilds the explorer with /repo's current working tree, then runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$here/mc/target" CARGO_NET_OFFLINE=true MC_VERIF="$here"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.check.lock"
flock 9
# cargo goes by modification times: the content decides here
now=$( (cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum) | sha256sum | cut -d' ' -f1)
stamp="$CARGO_TARGET_DIR/.repo.sha256"
if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    rm -f "$stamp"
    (cd "$here/mc" && cargo clean --release --offline -p netcdf3 >/dev/null 2>&1)
fi
log="$CARGO_TARGET_DIR/.build.log"
if ! (cd "$here/mc" && cargo build --release --offline >"$log" 2>&1); then
    tail -n 60 "$log" >&2
    echo "the build of the explorer against /repo failed" >&2
    exit 3
fi
echo "$now" >"$stamp"
flock -u 9
exec 9>&-
[ "${1:-}" = --build ] && exit 0
exec "$CARGO_TARGET_DIR/release/mc" "$@"
