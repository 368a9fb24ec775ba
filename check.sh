#!/bin/bash
# Usage: check.sh Pnn [harness options].  Rebuilds the library from /repo's
# working tree and runs the harness of one property.
# Exit 0: held; exit 1 + VIOLATION line: broken; exit 2: could not decide.
V="$(cd "$(dirname "$0")" && pwd)"
p="$1"; shift
l="$(echo "$p" | tr 'P' 'p')"
export VERIF_DIR="$V" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
B="${VERIF_BUILD:-$V/build}"
mkdir -p "$B" "$V/evidence" "$V/replays"
if ! make -s -C "$V/harness" -j"$(nproc)" REPO="${VERIF_REPO:-/repo}" B="$B" "$B/$l" >"$B/$l.log" 2>&1; then
	tail -40 "$B/$l.log" >&2
	echo "ERROR: build failed" >&2
	exit 2
fi
exec "$B/$l" "$@"
