# sourced by run.sh: the broker under AddressSanitizer, ThreadSanitizer and Miri
nightly=nightly-x86_64-unknown-linux-gnu
target=x86_64-unknown-linux-gnu
(export RUSTFLAGS="-Zsanitizer=address"; build asan $nightly --target $target) &
s1=$!
# the shim tells ThreadSanitizer about the kernel's event queue, see shim.c
(export RUSTFLAGS="-Zsanitizer=thread -Clink-arg=-Wl,--export-dynamic-symbol=__tsan_acquire,--export-dynamic-symbol=__tsan_release"; build tsan $nightly -Zbuild-std --target $target) &
s2=$!
(
    # the sysroot for Miri; the broker itself is compiled when it is started
    flock 9
    mkdir -p "$B/miri" && forget "$B/miri"
    cd "$REPO" && RUSTUP_TOOLCHAIN=$nightly cargo miri setup --target $target >"$B/miri.log" 2>&1
    # bring the dependencies up to date, so that starting it is quick
    CARGO_INCREMENTAL=0 RUSTUP_TOOLCHAIN=$nightly cargo miri test --offline --locked --target-dir "$B/miri" --no-run >>"$B/miri.log" 2>&1 || exit 1
    echo "$stamp" >"$B/miri/.stamp"
) 9>"$B/miri.lock" &
s3=$!
wait $s1 || exit 2
wait $s2 || exit 2
wait $s3 || { tail -30 "$B/miri.log"; exit 2; }
export BROKER_ASAN=$B/asan/$target/debug/mqtt_broker BROKER_TSAN=$B/tsan/$target/debug/mqtt_broker
export BROKER_MIRI_TARGET=$B/miri BROKER_REPO=$REPO BROKER_NIGHTLY=$nightly
