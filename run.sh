#!/bin/bash
# run.sh <id>: build the broker from /repo's working tree, the shim and the harness; run one check.
# run.sh --setup: only build.
set -u
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:$PATH
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export VERIF_DIR=$here VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
REPO=${VERIF_REPO:-/repo}
B=$here/.build
mkdir -p "$B" || exit 2
id=${1:?usage: run.sh ID}

# Rebuild whenever the content of the sources has changed, whatever their times say.
stamp=$(cd "$REPO" && find src Cargo.toml Cargo.lock build.rs .cargo -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -c1-32)

# forget DIR: drop what was built there from other sources. (Not `cargo clean`: it refuses directories it
# did not create, and not by file times: a copy may carry old ones.)
forget() {
    if [ "$(cat "$1/.stamp" 2>/dev/null)" != "$stamp" ]; then
        rm -f "$1/.stamp"
        find "$1" -depth -name '*mqtt_broker*' -exec rm -rf {} +
    fi
}

# build NAME TOOLCHAIN ARGS...: the broker as target directory $B/NAME; RUSTFLAGS from the environment
build() {
    local name=$1 tc=$2; shift 2
    local log=$B/$name.log dir=$B/$name
    mkdir -p "$dir"
    (
        flock 9
        : >"$log"
        forget "$dir"
        (cd "$REPO" && CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTUP_TOOLCHAIN=$tc \
            cargo build --offline --locked --bins --target-dir "$dir" "$@") >>"$log" 2>&1 || exit 1
        echo "$stamp" >"$dir/.stamp"
    ) 9>"$B/$name.lock" || { echo "build of the broker ($name) failed:"; tail -30 "$log"; return 1; }
}

stable=stable-x86_64-unknown-linux-gnu
build plain "$stable" &
p1=$!
(
    flock 9
    cd "$here/harness" && CARGO_INCREMENTAL=0 RUSTUP_TOOLCHAIN=$stable cargo build --offline --release --target-dir "$B/harness" >"$B/harness.log" 2>&1
) 9>"$B/harness.lock" &
p2=$!
(
    flock 9
    cd "$here/shim" || exit 1
    for v in "shim:" "shim-malloc:-DVSHIM_MALLOC"; do
        o=$B/${v%%:*}.so
        if [ ! -e "$o" ] || [ shim.c -nt "$o" ]; then
            gcc -O2 -Wall ${v#*:} -shared -fPIC -o "$o.tmp" shim.c && mv "$o.tmp" "$o" || exit 1
        fi
    done
) 9>"$B/shim.lock" >"$B/shim.log" 2>&1 || { cat "$B/shim.log"; exit 2; }
wait $p1 || exit 2
wait $p2 || { tail -30 "$B/harness.log"; exit 2; }

export BROKER_BIN=$B/plain/debug/mqtt_broker VSHIM=$B/shim.so VSHIM_MALLOC=$B/shim-malloc.so
if [ "$id" = C22 ] || [ "$id" = --setup ]; then
    . "$here/sanitizers.sh" || exit 2
fi
[ "$id" = --setup ] && exit 0

VH_WORK=$(mktemp -d /tmp/vh.XXXXXX) || exit 2
export VH_WORK
trap 'rm -rf "$VH_WORK"' EXIT
"$B/harness/release/vh" "$id"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || rc=2
exit $rc
