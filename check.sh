#!/bin/bash
# check.sh ID            builds the monitors against /repo's working tree and runs the check (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE   runs the one case a replay file names
# check.sh setup         builds only
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness" || exit 3
export MQTTMON_ROOT=$here CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS MIRIFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
B=$here/build
T=x86_64-unknown-linux-gnu
mkdir -p "$B"
exec 9>"$B/lock"
flock 9

# empty, or the toolchain of builds that are compared with those only the nightly can make
tc=

# mqttbytes is always compiled anew: modification times are not trusted
fresh() { find "$1" -maxdepth 5 -path '*/.fingerprint/mqttbytes-*' -prune -exec rm -rf {} + 2>/dev/null; }

# build LABEL DIR ENV... -- COMMAND...
build() {
    local label=$1 dir=$2; shift 2
    fresh "$dir"
    if ! env CARGO_TARGET_DIR="$dir" "$@" >"$B/build-$label.log" 2>&1; then
        echo "INCONCLUSIVE $ID: the $label build failed"
        grep -E '^error' -A8 "$B/build-$label.log" | head -40
        return 1
    fi
}

main()  { build main  "$B/main$tc" cargo $tc build --release --offline; }
plain() { build plain "$B/plain$tc" cargo $tc build --profile plain --offline; }
asan()  { build asan  "$B/asan" RUSTFLAGS="-Zsanitizer=address --cfg mqttmon_san" cargo +nightly build --profile san --offline --target $T; }
tsan()  { build tsan  "$B/tsan" RUSTFLAGS="-Zsanitizer=thread --cfg mqttmon_san" cargo +nightly build -Zbuild-std --profile san --offline --target $T; }
msan()  { build msan  "$B/msan" RUSTFLAGS="-Zsanitizer=memory --cfg mqttmon_san" cargo +nightly build -Zbuild-std --profile san --offline --target $T; }
feat()  { build feat  "$B/feat$tc" cargo $tc build --profile plain --offline --features mqttbytes/v5; }
mirib() { build miri  "$B/miri" cargo +nightly miri run --offline -- list; }

mirbe() { build mirbe "$B/mirbe" cargo +nightly miri run --offline --target s390x-unknown-linux-gnu -- list; }

# i686, run natively. The C library's 32-bit runtime is installed without its start files: this one does.
x32() {
    mkdir -p "$B/x32lib" || return 1
    for l in c.so.6 m.so.6 gcc_s.so.1 rt.so.1 pthread.so.0 dl.so.2 util.so.1; do
        ln -sf "/usr/lib32/lib$l" "$B/x32lib/lib${l%%.*}.so"
    done
    gcc -m32 -c "$here/tools/start32.s" -o "$B/x32lib/start.o" || return 1
    build x32 "$B/x32" CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER=ld.lld \
        RUSTFLAGS="-Clinker-flavor=ld -Crelocation-model=static -Clink-arg=$B/x32lib/start.o -Clink-arg=-L$B/x32lib -Clink-arg=-dynamic-linker -Clink-arg=/usr/lib32/ld-linux.so.2" \
        cargo +nightly build -Zbuild-std --release --offline --target i686-unknown-linux-gnu
}

# several builds, side by side: they share no directory
builds() {
    local pids=() ok=0 b p
    for b in "$@"; do $b & pids+=($!); done
    for p in "${pids[@]}"; do wait "$p" || ok=1; done
    return $ok
}

X32=$B/x32/i686-unknown-linux-gnu/release/mqttmon
MIRI="-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-tree-borrows"

case "${1:-}" in
setup)
    ID=setup
    main && "$B/main$tc/release/mqttmon" list >/dev/null
    exit
    ;;
replay)
    ID=replay
    f=$(realpath "$2") || exit 3
    part=$(sed -n 's/^part: //p' "$f")
    case "$(sed -n 's/^property: //p' "$f")-$part" in C31-*)
        # the log of the case in both builds
        tc=+nightly
        main || exit 3
        case $part in
        plain) plain && other=("$B/plain$tc/plain/mqttmon") ;;
        feat) feat && other=("$B/feat$tc/plain/mqttmon") ;;
        x32) x32 && other=("$X32") ;;
        *) mirbe && other=(env CARGO_TARGET_DIR="$B/mirbe" MIRIFLAGS="$MIRI" cargo +nightly miri run --offline --target s390x-unknown-linux-gnu --) ;;
        esac || exit 3
        diff <("$B/main$tc/release/mqttmon" replay "$f" 2>&1) <("${other[@]}" replay "$f" 2>/dev/null)
        exit
        ;;
    esac
    case "$part" in
    x32) x32 || exit 3; "$X32" replay "$f" ;;
    plain) plain || exit 3; "$B/plain$tc/plain/mqttmon" replay "$f" ;;
    asan | tsan | msan)
        $part || exit 3
        TSAN_OPTIONS="suppressions=$here/tsan.supp halt_on_error=1" "$B/$part/$T/san/mqttmon" replay "$f"
        ;;
    miri*) env CARGO_TARGET_DIR="$B/miri" MIRIFLAGS="$MIRI" cargo +nightly miri run --offline -- replay "$f" ;;
    *) main || exit 3; "$B/main$tc/release/mqttmon" replay "$f" ;;
    esac
    exit
    ;;
C[0-9][0-9]) ID=$1 ;;
*) sed -n 2,4p "$0"; exit 3 ;;
esac

thorough=; [ "${VERIF_TIER:-quick}" = thorough ] && thorough=1
parts=()
case $ID in
C02)
    builds main asan tsan msan mirib || exit 3
    if [ $thorough ]; then mb=1500 nb=700; else mb=140 nb=100; fi
    parts=(
        --part "asan=env" "MQTTMON_BUDGET_S=$nb" ASAN_OPTIONS=detect_leaks=1 "$B/asan/$T/san/mqttmon" --
        --part "tsan=env" "MQTTMON_BUDGET_S=$nb" "TSAN_OPTIONS=suppressions=$here/tsan.supp" "$B/tsan/$T/san/mqttmon" --
        --part "msan=env" "MQTTMON_BUDGET_S=$nb" "$B/msan/$T/san/mqttmon" --
    )
    for i in 1 2 3 4 5 6; do
        parts+=(--part "miri$i=env" CARGO_TARGET_DIR="$B/miri" MQTTMON_THREADS=1 MQTTMON_BUDGET_S=$mb
            "MIRIFLAGS=$MIRI -Zmiri-seed=$((${VERIF_SEED:-1} * 10 + i)) -Zmiri-preemption-rate=0.0$i"
            cargo +nightly miri run --offline --)
    done
    ;;
C31)
    tc=+nightly
    builds main plain feat x32 mirbe || exit 3
    if [ $thorough ]; then mb=1500; else mb=80; fi
    parts=(
        --part "plain=$B/plain$tc/plain/mqttmon" --
        --part "feat=$B/feat$tc/plain/mqttmon" --
        --part "x32=$X32" --
    )
    for i in 0 1 2 3 4 5; do
        parts+=(--part "miri$i=env" CARGO_TARGET_DIR="$B/mirbe" MQTTMON_THREADS=1 MQTTMON_BUDGET_S=$mb MQTTMON_FROM=$((i * 10000))
            "MIRIFLAGS=$MIRI" cargo +nightly miri run --offline --target s390x-unknown-linux-gnu --)
    done
    ;;
*)
    # what users run has no overflow checks and no debug assertions
    builds main plain ${thorough:+x32} || exit 3
    parts=(--part "plain=$B/plain$tc/plain/mqttmon" -- ${thorough:+--part "x32=$X32" --})
    ;;
esac
exec "$B/main$tc/release/mqttmon" check "$ID" "${parts[@]}"
