#!/bin/bash
# check.sh PROPERTY [TIER]: builds the checker from the committed source and decides one property of /repo.
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
tmp="$(mktemp -d)" || exit 1
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$here/evidence"
if ! (cd "$here/checker" && go build -o "$tmp/radixcheck" .) >"$tmp/build.log" 2>&1; then
	cat "$tmp/build.log"; echo "the checker does not build"; exit 2
fi
"$tmp/radixcheck" -prop "$id" -tier "$tier" -evidence "$here/evidence"
