#!/bin/bash
# replay.sh FILE: runs the failing input of a replay file natively against $REPO.
. "$(dirname "$0")/env.sh"
build_govc || exit 2
exec "$VERIF/.bin/govc" replay -repo "$REPO" -verif "$VERIF" "$1"
