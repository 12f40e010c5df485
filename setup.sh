#!/bin/bash
# Warms the build cache (nothing a check needs is kept elsewhere).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/env.sh"
mkdir -p "$here/.build"
cd "$here/harness" && go vet ./... && go build -o "$here/.build/vmon-plain" ./cmd/vmon
