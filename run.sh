#!/bin/bash
# Builds the checker and decides the given properties on /repo's current source.
root="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
mkdir -p "$root/bin" "$root/evidence"
if ! (cd "$root/checker" && GOFLAGS=-mod=readonly go build -o "$root/bin/checker" .); then
	echo "the checker does not build" >&2
	exit 2
fi
[ $# -eq 0 ] && exit 0
VERIF_ROOT="$root" exec "$root/bin/checker" "$@"
