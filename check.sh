#!/bin/bash
# check.sh ID            builds what the check needs from /repo's working tree and decides property ID
# check.sh --build       only builds
# check.sh --sim ARGS    builds and runs the simulator with ARGS (replay FILE -v, selftest N, options, ...)
export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS RUST_BACKTRACE LD_PRELOAD
T=/verif/target
mkdir -p $T/bin
cd /verif || exit 2

run() { # name, command...: quiet unless it fails
    local log=$T/$1.log; shift
    if ! "$@" >"$log" 2>&1; then
        echo "check.sh: failed: $*"; tail -40 "$log"; return 1
    fi
}
build() {
    exec 9>$T/lock; flock 9
    # never trust time stamps: the program under test is always compiled again
    rm -rf /verif/target/repo/release/.fingerprint/svgcleaner-* /verif/target/host/release/.fingerprint/svgcleaner-* /verif/target/host/release/.fingerprint/libhost-*
    ( cd /repo && CARGO_PROFILE_RELEASE_LTO=false run repo cargo build --release --offline --locked --bin svgcleaner --target-dir $T/repo ) || exit 2
    # the same with debug assertions and overflow checks in svgcleaner itself: damaged input must not break those either
    rm -f /verif/target/bin/svgcleaner-checked
    if [ -z "$1" ] || [ "$1" = C14 ]; then
        rm -rf /verif/target/checked/release/.fingerprint/svgcleaner-*
        ( cd /repo && CARGO_PROFILE_RELEASE_LTO=false run checked cargo build --release --offline --locked --bin svgcleaner --target-dir $T/checked \
            --config 'profile.release.debug-assertions=true' --config 'profile.release.overflow-checks=true' \
            --config 'profile.release.package."*".debug-assertions=false' --config 'profile.release.package."*".overflow-checks=false' ) \
            && cp -f $T/checked/release/svgcleaner $T/bin/svgcleaner-checked
    fi
    ( cd /verif/sim/driver && run driver cargo build --release --offline --locked --target-dir $T/driver ) || exit 2
    run shim gcc -O2 -Wall -Wno-nonnull -Wno-nonnull-compare -fno-delete-null-pointer-checks -fPIC -shared \
        -fvisibility=hidden -o $T/bin/shim.so.new sim/shim/shim.c -ldl || exit 2
    mv -f $T/bin/shim.so.new $T/bin/shim.so
    # the host of the library: without it (its interface changed) the program itself gives the reference results
    rm -f /verif/target/bin/libhost
    ( cd /verif/sim/libhost && run host cargo build --release --offline --locked --target-dir $T/host ) \
        && cp -f $T/host/release/libhost $T/bin/libhost
    # the same host, with a scheduling point at every basic block of svgcleaner and svgdom
    rm -f /verif/target/bin/libhost-sched
    if [ -z "$1" ] || [ "$1" = C10 ]; then
        rm -rf /verif/target/sched/x86_64-unknown-linux-gnu/release/.fingerprint/svgcleaner-* /verif/target/sched/x86_64-unknown-linux-gnu/release/.fingerprint/libhost-*
        gcc -O2 -c -o $T/bin/point.o sim/libhost/point.c &&
        ( cd /verif/sim/libhost && RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Clink-arg=$T/bin/point.o" \
            run sched cargo build --release --offline --locked --target x86_64-unknown-linux-gnu --target-dir $T/sched ) \
            && cp -f $T/sched/x86_64-unknown-linux-gnu/release/libhost $T/bin/libhost-sched
    fi
    cp -f $T/repo/release/svgcleaner $T/bin/svgcleaner || exit 2
    cp -f $T/driver/release/simctl $T/bin/simctl || exit 2
    exec 9>&-
}
build "$(case "$1" in C*) echo "$1";; esac)"
export SIM_CLI=$T/bin/svgcleaner SIM_LIB=$T/bin/libhost SIM_SCHED=$T/bin/libhost-sched SIM_CHECKED=$T/bin/svgcleaner-checked SIM_SHIM=$T/bin/shim.so SIM_ROOT=/verif
case "$1" in
    --build) exit 0 ;;
    --sim) shift; exec $T/bin/simctl "$@" ;;
    C[0-9][0-9]) exec $T/bin/simctl check "$1" ;;
    *) echo "usage: check.sh ID | --build | --sim ARGS"; exit 2 ;;
esac
