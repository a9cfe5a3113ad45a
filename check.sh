#!/bin/bash
# check.sh ID   - rebuild the harness against /repo's working tree, then run one check (exit 0 held, 1 violation, 2 error)
# check.sh --build   - only rebuild
# VERIF_SEED (default 1) and VERIF_TIER (quick or thorough, default quick) come from the environment.
cd "$(dirname "$0")" || exit 2
ulimit -c 0
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
mkdir -p evidence replays harness/target
exec 9>harness/target/.lock
flock 9
# Cargo decides by modification time whether /repo changed; decide by content instead, so that no edit can be missed.
now=$( (find /repo/Cargo.toml /repo/src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum harness/Cargo.toml rustc-wrap.sh) 2>/dev/null | sha256sum | cut -d" " -f1)
stamp=harness/target/.repo-hash
if [ "$(cat $stamp 2>/dev/null)" != "$now" ]; then
    rm -f "/verif/$stamp"
    cargo clean --release --offline -q -p prometrics -p atomic_immut --manifest-path harness/Cargo.toml >/dev/null 2>&1
fi
if ! log=$(cargo build --release --offline -q --manifest-path harness/Cargo.toml 2>&1); then
    printf '%s\n' "$log" | tail -40 >&2
    echo "check.sh: the harness does not build against /repo" >&2
    exit 2
fi
echo "$now" >"$stamp"
exec 9>&-
[ "$1" = --build ] && exit 0
exec harness/target/release/harness check "$1"
