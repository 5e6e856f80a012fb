#!/bin/bash
# check.sh PROPERTY: verifies the contracts of one property against $REPO's current source.
. "$(dirname "$0")/env.sh"
if ! build_govc; then echo "cannot build the verifier"; exit 2; fi
exec "$VERIF/.bin/govc" check -repo "$REPO" -verif "$VERIF" "$1"
