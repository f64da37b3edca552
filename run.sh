#!/bin/bash
# run.sh build                    builds the model checker against /repo's working tree
# run.sh ID quick|thorough        decides one property (exit 0 held, 1 VIOLATION, 2 no answer)
# run.sh replay FILE              replays a recorded violation
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
mkdir -p mc/target
# cargo compares times, not contents: forget the crate when the contents are others
sum=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat mc/target/repo.sum 2>/dev/null)" != "$sum" ]; then
    [ -e mc/target/release ] && cargo clean --release --offline --manifest-path mc/Cargo.toml -p circuit_converters >/dev/null 2>&1
fi
if ! cargo build --release --offline --manifest-path mc/Cargo.toml >mc/target/build.log 2>&1; then
    tail -40 mc/target/build.log >&2
    echo "cannot build the model checker against /repo" >&2
    exit 2
fi
echo "$sum" >mc/target/repo.sum
case "$1" in
build) exit 0 ;;
replay) exec mc/target/release/mc replay "$2" ;;
*) exec mc/target/release/mc check "$1" "$2" ;;
esac
