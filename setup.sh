#!/bin/bash
. "$(dirname "$0")/env.sh"
build_govc || exit 1
cd "$REPO" && go build ./... 
