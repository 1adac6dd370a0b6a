#!/bin/bash
# check.sh <property> [quick|thorough]      build from /repo's working tree and run one check
# check.sh replay <file>                    run a recorded case again
# Exit: 0 held, 1 violated (with a VIOLATION line), anything else: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN
what=$1

now=$(cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 |
    LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)

# fresh <crate dir>: forget what was built from /repo if its content has changed
fresh() {
    cd "$1" || exit 2
    if [ "$(cat target/repo.stamp 2>/dev/null)" != "$now" ]; then
        for p in xtra xtra_sched xtra_plain xtra-macros; do
            cargo clean --offline -p "$p" >/dev/null 2>&1
            [ -d target/control ] && cargo clean --offline --target-dir target/control -p "$p" >/dev/null 2>&1
        done
    fi
    cd "$here" || exit 2
}
stamp() { mkdir -p "$1/target" && echo "$now" >"$1/target/repo.stamp"; }

# build <crate dir>: rebuild from scratch what depends on /repo whenever its content changed
build() {
    fresh "$1"
    if ! (cd "$1" && cargo build --offline --locked >"$here/build.log" 2>&1); then
        tail -50 "$here/build.log" >&2
        echo "the harness does not build against /repo" >&2
        exit 2
    fi
    stamp "$1"
}

engine=
[ "$what" = replay ] && engine=$(grep -o '"engine": "[^"]*"' "$2" | head -1)
case "$what$engine" in
C24 | *'"executors'*)
    build "$here/harness/exec"
    exec "$here/harness/exec/target/debug/exec" "$what" "${2:-${VERIF_TIER:-quick}}"
    ;;
esac

build "$here/harness/pbt"
if [ "$what" = C23 ] || [ "$what" = replay ]; then
    # pbt itself compiles this one, once it has generated its sources
    d=$here/harness/derive
    for b in b0 b1 b2 b3 b4 b5 b6 b7 one; do mkdir -p "$d/target/gen/$b" && echo 'fn main() {}' >"$d/target/gen/$b/main.rs"; done
    fresh "$d"
    stamp "$d"
fi
if [ "$what" = replay ]; then
    exec "$here/harness/pbt/target/debug/pbt" replay "$2"
fi
exec "$here/harness/pbt/target/debug/pbt" "$what" "${2:-${VERIF_TIER:-quick}}"
