#!/bin/bash
# Builds the framework once, so that the Go build cache is warm.
dir="$(cd "$(dirname "$0")" && pwd)"
. "$dir/env.sh"
mkdir -p "$dir/.build" "$dir/evidence"
cd "$dir/harness" && go build -o "$dir/.build/fakedot" ./fakedot && go build -o "$dir/.build/vh" .
