# Sourced by setup.sh, check.sh and replay.sh
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS= RUST_BACKTRACE=0
unset RUST_LOG CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_INCREMENTAL
export MC_ROOT="$root"
# Timestamps are not trusted: if the sources differ from those of the last
# build, the crates under test are rebuilt
sources() {
    (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.pk8' -o -path './.cargo/*' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
}

# build CRATE PACKAGE...
build_crate() {
    local dir="$root/$1" now p=""
    local stamp="$dir/target/sources.sha256"
    shift
    for name in "$@"; do p="$p -p $name"; done
    mkdir -p "$dir/target"
    now=$(sources)
    if [ -e "$stamp" ] && [ "$now" != "$(cat "$stamp")" ]; then
        (cd "$dir" && cargo clean -q --offline --release $p) || return 1
    fi
    rm -f "$stamp"
    (cd "$dir" && cargo build -q --offline --release 2>"$dir/target/build.log") || {
        tail -40 "$dir/target/build.log"
        echo "ERROR: the checks do not build"
        return 1
    }
    echo "$now" > "$stamp"
}

# build ID: what the check of that property needs; sets MC_BIN
build() {
    case "$1" in
    C18)
        MC_BIN="$root/mcthreads/target/release/mcthreads"
        python3 "$root/mcthreads/shadow.py" >/dev/null || return 1
        build_crate mcthreads ucan
        ;;
    *)
        MC_BIN="$root/mc/target/release/mc"
        build_crate mc ucan ucan-key-support
        ;;
    esac
}
