#!/bin/bash
# usage: run.sh <property id> <quick|thorough>   builds the harness from /repo's working tree and runs one check
set -u
dir="$(cd "$(dirname "$0")" && pwd)"
. "$dir/env.sh"
export VERIF_DIR="$dir"
mkdir -p "$dir/.build" "$dir/evidence"
cd "$dir/harness" || exit 2
if ! { go build -o "$dir/.build/fakedot" ./fakedot && go build -o "$dir/.build/vh" . ; }; then echo "harness does not build against /repo" >&2; exit 2; fi
exec "$dir/.build/vh" run "$1" "${2:-quick}"
