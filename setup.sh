#!/bin/bash
. "$(dirname "$0")/lib.sh"
fresh
for m in base jobs threads; do
    build $m || { tail -40 "$VERIF/target/build-$m.log"; exit 1; }
done
