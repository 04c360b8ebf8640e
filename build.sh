#!/bin/bash
# build.sh CRATE BIN [plain|traced|native]: builds one harness binary against /repo's working tree and prints its path.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=1.92.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0 RUSTFLAGS="--cfg masstree_verif"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
crate=$1 bin=$2 variant=${3:-}
dir=release flags=--release
T=$HERE/target/hook
[ "$crate" = repo ] && T=$HERE/target/bins
if [ "$crate/$variant" = mem/ ]; then
    T=$HERE/target/miri
    export RUSTUP_TOOLCHAIN=nightly
fi
if [ "$variant" = plain ]; then
    T=$HERE/target/plain dir=plain flags="--profile plain"
elif [ "$variant" = traced ]; then
    T=$HERE/target/traced flags="--release --features traced"
fi
mkdir -p "$T" "$HERE/.work"
exec 9>"$HERE/.work/build.lock"
flock 9
# Rebuild the library whenever the content of /repo differs from what was built, whatever its mtimes.
now=$(cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$T/repo.sum" 2>/dev/null)" != "$now" ]; then
    for d in "$T"/*/.fingerprint/masstree-* "$T"/miri/*/debug/.fingerprint/masstree-*; do
        [ -d "$d" ] && rm -rf "$d"
    done
    echo "$now" > "$T/repo.sum"
fi
if [ "$crate" = repo ]; then
    cd /repo || exit 2
    if ! RUSTFLAGS= cargo build --offline --locked --release --target-dir "$HERE/target/bins" --bin "$bin" >"$HERE/.work/build.$bin.log" 2>&1; then
        grep -A15 '^error' "$HERE/.work/build.$bin.log" | head -60 >&2
        exit 2
    fi
    echo "$HERE/target/bins/release/$bin"
    exit 0
fi
cd "$HERE/$crate" || exit 2
if [ "$crate/$variant" = mem/ ]; then
    if ! cargo miri run --offline --locked --target-dir "$T" -- index "" "" >"$HERE/.work/build.$bin.log" 2>&1; then
        grep -A15 '^error' "$HERE/.work/build.$bin.log" | head -60 >&2
        tail -3 "$HERE/.work/build.$bin.log" >&2
        exit 2
    fi
    ls -t "$T"/miri/*/debug/mem | head -1
    exit 0
fi
if ! cargo build --offline --locked $flags --target-dir "$T" --bin "$bin" >"$HERE/.work/build.$bin.log" 2>&1; then
    grep -A15 '^error' "$HERE/.work/build.$bin.log" | head -60 >&2
    tail -3 "$HERE/.work/build.$bin.log" >&2
    exit 2
fi
echo "$T/$dir/$bin"
