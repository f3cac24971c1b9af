# Sourced by setup.sh and check.sh: builds the explorer from /repo's working tree.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh
cd "$VERIF/mc" || exit 3
export VERIF_DIR="$VERIF" CARGO_TARGET_DIR="$VERIF/target" CARGO_INCREMENTAL=0
mkdir -p "$VERIF/target/bin" "$VERIF/evidence/replay"

# Cargo decides by modification times what to rebuild; make it decide by content.
fresh() {
    local h
    h=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
    if [ "$(cat "$VERIF/target/.repo-hash" 2>/dev/null)" != "$h" ]; then
        if [ -e "$VERIF/target/.repo-hash" ]; then
            cargo clean -q --offline -p aj_core -p aj -p aj_macro -p aj_core_t >/dev/null 2>&1
        fi
        rm -f "$VERIF/target/bin/mc-base" "$VERIF/target/bin/mc-jobs" "$VERIF/target/bin/mc-threads"
        echo "$h" >"$VERIF/target/.repo-hash"
    fi
}

# build base|jobs|threads
build() {
    local bin=mc feat=""
    case $1 in
    jobs) feat="--features jobs" ;;
    threads) feat="--features threads" bin=mct ;;
    esac
    # shellcheck disable=SC2086
    cargo build --offline --locked $feat --bin $bin >"$VERIF/target/build-$1.log" 2>&1 || return 1
    cp -f "$VERIF/target/debug/$bin" "$VERIF/target/bin/mc-$1"
}
