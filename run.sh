#!/bin/bash
# run.sh PROPERTY [--tier T] [--arm NAME] [--scale X] [--replay FILE]: builds and runs one check.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
id=$1 variant=
case $id in
    C01|C02|C03|C04|C05|C06|C07|C08|C09|C10|C11|C12|C13|C27) crate=map bin=map ;;
    C26) crate=map bin=map variant=traced ;;
    C23) crate=repo bin=analyze_runs ;;
    C24) crate=mem bin=mem ;;
    *) crate=parts bin=$(echo "$id" | tr 'C' 'c') ;;
esac
if [ "$id" = C25 ]; then
    cd "$HERE" && MT_VERIF_ROOT=$HERE exec python3 builds/drive.py "$@"
fi
exe=$("$HERE/build.sh" "$crate" "$bin" $variant) || { echo "build of $crate/$bin failed" >&2; exit 2; }
export MT_VERIF_ROOT=$HERE
cd "$HERE" || exit 2
if [ "$crate" = repo ]; then
    ANA_EXE=$exe exec python3 ana/drive.py "$@"
fi
if [ "$crate" = mem ]; then
    MEM_NATIVE=$("$HERE/build.sh" mem mem native) || { echo "build of mem failed" >&2; exit 2; }
    export MEM_NATIVE
    export RUSTUP_TOOLCHAIN=nightly MEM_EXE=$exe MIRI_LOCAL_CRATES=mem,masstree
    export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin HOME=${HOME:-/root}
    MEM_RUNNER=$(dirname "$(rustup which cargo)")/cargo-miri
    MIRI_SYSROOT=$(cargo miri setup --print-sysroot 2>/dev/null)
    export MEM_RUNNER MIRI_SYSROOT
    exec python3 mem/drive.py "$@"
fi
exec "$exe" "$@"
