#!/bin/bash
# Builds the simulator from /repo's working tree. Cargo decides by modification times, which may lie
# (copies, checkouts), so the crate under test is always rebuilt.
build_root=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
build_sim() (
    cd "$build_root/sim" || return 2
    exec 9>"$build_root/sim/.build.lock"
    flock 9
    for profile in release shipped; do
        prints="$build_root/sim/target/$profile/.fingerprint"
        if [ -d "$prints" ]; then
            find "$prints" -maxdepth 1 -name 'gif-*' -exec rm -rf {} +
        fi
    done
    # the crate under test with its assertions and overflow checks, and as it is shipped
    shipped_log="$build_root/sim/target/shipped.log"
    mkdir -p "$build_root/sim/target"
    cargo build --profile shipped --offline --locked -q >"$shipped_log" 2>&1 &
    shipped=$!
    out=$(cargo build --release --offline --locked -q 2>&1)
    rc=$?
    if ! wait $shipped; then
        rc=1
        out="$out$(cat "$shipped_log")"
    fi
    if [ $rc -ne 0 ]; then
        printf '%s\n' "$out" >&2
        echo "build.sh: the simulator does not build against /repo" >&2
        return 2
    fi
)
build_sim
