#!/bin/bash
# run.sh setup            build everything
# run.sh <ID> <tier>      rebuild from /repo's current tree, then run one check
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true VERIF_DIR="$PWD"
# the harness records its models below its own directory, never in /repo
unset CARGO_TARGET_DIR
mkdir -p build evidence

srchash() {
    (cd /repo && find . \( -name target -o -name .git -o -name .butane \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 \
        | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1
}
build() {
    local h; h=$(srchash)
    if [ "$(cat build/src.hash 2>/dev/null)" != "$h" ]; then
        # do not rely on modification times alone
        rm -rf harness/target/debug/.fingerprint/butane-* harness/target/debug/.fingerprint/butane_c*
        rm -rf harness/.butane
        touch harness/src/main.rs
    fi
    (cd harness && cargo build --offline -q) >build/cargo.log 2>&1
    if [ $? -ne 0 ]; then
        grep -E '^error' -A6 build/cargo.log | head -60 >&2
        return 1
    fi
    echo "$h" >build/src.hash
}
case "$1" in
setup)
    build || exit 2
    ;;
C[0-9][0-9])
    build || { echo "build of the harness against /repo failed" >&2; exit 2; }
    exec harness/target/debug/bmc "$1" "${2:-quick}"
    ;;
*)
    echo "usage: run.sh setup | <ID> <quick|thorough>" >&2
    exit 2
    ;;
esac
