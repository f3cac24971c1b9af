#!/bin/bash
# check.sh ID: builds the explorer from /repo's working tree and runs the suites of one property.
id=$1
. "$(dirname "$0")/lib.sh"
fresh
case $id in
C20) mode=jobs ;;
C14 | C17 | C18) mode=threads ;;
*) mode=base ;;
esac
if ! build $mode; then
    if [ $mode = jobs ] && build base; then
        # Everything compiles but functions annotated with #[job] do not any more.
        log="$VERIF/evidence/replay/C20-build.txt"
        cp "$VERIF/target/build-jobs.log" "$log"
        grep -m3 '^error' "$log"
        cat >"$VERIF/evidence/C20.json" <<J
{"property": "C20", "tier": "${VERIF_TIER:-quick}", "seed": ${VERIF_SEED:-0}, "level": "model_checking",
 "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": ["the annotated functions of the harness do not compile"]},
 "wall_s": $SECONDS, "violations": 1}
J
        echo "VIOLATION property=C20 replay=$log"
        exit 1
    elif [ $mode = threads ] && build base; then
        # The shadow build on the controlled std is not possible: the other suites still decide.
        mode=base
    else
        tail -40 "$VERIF/target/build-$mode.log" >&2
        exit 3
    fi
fi
exec "$VERIF/target/bin/mc-$mode" check "$id"
