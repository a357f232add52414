# Sourced by check.sh and setup.sh: a fixed offline toolchain, whatever the caller's environment.
export HOME=${HOME:-/root}
export CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR
TARGET=$VERIF_DIR/harness/target

# Builds the harness against /repo's working tree, with debug assertions (BIN) and without (VERIF_REL_BIN). Returns non-zero when it does not build.
build_harness() {
    mkdir -p "$TARGET" || return 1
    local lock stamp sum mode flags pid ok
    stamp=$TARGET/.geokit.sum
    # cargo trusts modification times; copies and checkouts may carry old ones, so judge by content
    sum=$( (cd /repo && find Cargo.toml geokit -type f -not -path '*/target/*' -not -path '*/tests/data/*' -not -path '*/doc/*' -print0 | sort -z | xargs -0 sha256sum
            cd "$VERIF_DIR/harness" && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
    exec 9>"$TARGET/.lock" && flock 9
    for mode in hook plain; do
        flags=
        [ $mode = hook ] && flags="--cfg geokit_verif"
        if [ "$(cat "$stamp.$mode" 2>/dev/null)" != "$sum" ]; then
            rm -f "$stamp.$mode"
            (cd "$VERIF_DIR/harness" && CARGO_TARGET_DIR=$TARGET/$mode cargo clean --offline -q -p geokit -p verif >/dev/null 2>&1)
            (cd "$VERIF_DIR/harness" && CARGO_TARGET_DIR=$TARGET/$mode-rel cargo clean --offline -q --profile shipped -p geokit -p verif >/dev/null 2>&1)
        fi
        (cd "$VERIF_DIR/harness" && CARGO_TARGET_DIR=$TARGET/$mode-rel RUSTFLAGS=$flags cargo build --offline --locked -q --profile shipped 2>"$TARGET/build.$mode-rel.log") &
        pid=$!
        ok=0
        (cd "$VERIF_DIR/harness" && CARGO_TARGET_DIR=$TARGET/$mode RUSTFLAGS=$flags cargo build --offline --locked -q 2>"$TARGET/build.$mode.log") || ok=1
        wait $pid || ok=1
        if [ $ok = 0 ]; then
            echo "$sum" >"$stamp.$mode"
            BIN=$TARGET/$mode/debug/verif
            export VERIF_REL_BIN=$TARGET/$mode-rel/shipped/verif
            flock -u 9
            return 0
        fi
        echo "build ($mode) failed:" >&2
        grep -E '^error' -A6 "$TARGET/build.$mode.log" | head -40 >&2
    done
    flock -u 9
    return 1
}

# Builds the sampling tool; sets VERIF_SAMPLE_S2.
build_tool() {
    local sum stamp=$TARGET/.s2.sum
    mkdir -p "$TARGET" || return 1
    sum=$( (cd /repo && find Cargo.toml geokit -type f -not -path '*/target/*' -not -path '*/tests/data/*' -not -path '*/doc/*' -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
    exec 9>"$TARGET/.lock" && flock 9
    if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
        rm -f "$stamp"
        (cd /repo && CARGO_TARGET_DIR=$TARGET/s2 cargo clean --offline -q -p geokit >/dev/null 2>&1)
    fi
    if ! (cd /repo && CARGO_TARGET_DIR=$TARGET/s2 CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline -q -p geokit --bin sample_s2 2>"$TARGET/build.s2.log"); then
        flock -u 9
        tail -40 "$TARGET/build.s2.log" >&2
        return 1
    fi
    echo "$sum" >"$stamp"
    flock -u 9
    export VERIF_SAMPLE_S2=$TARGET/s2/debug/sample_s2
}
