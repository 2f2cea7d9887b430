#!/bin/bash
# Builds the engine when needed and runs it: verif.sh check -prop C01 [-tier quick|thorough]
D=$(cd "$(dirname "$0")" && pwd)
. "$D/env.sh"
mkdir -p "$D/../bin"
B="$D/../bin/verif"
( cd "$D" && GOFLAGS="-mod=mod -buildvcs=false" go build -o "$B" ./cmd/verif ) || exit 2
[ "$1" = build ] && exit 0
exec "$B" "$@"
