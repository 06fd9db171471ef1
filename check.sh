#!/bin/bash
# check.sh ID [quick|thorough]: decide property ID from /repo's current source.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
cd "$here/gsa" || exit 2
bin="$here/bin/gsa"
if [ ! -x "$bin" ] || [ -n "$(find . -newer "$bin" \( -name '*.go' -o -name 'go.*' \) | head -1)" ]; then
	mkdir -p "$here/bin"
	tmp="$bin.$$"
	go build -o "$tmp" . && mv -f "$tmp" "$bin" || { echo "cannot build the analyser"; exit 2; }
fi
[ "$1" = setup ] && exit 0
cd "$here" && exec "$bin" check "$1" -tier "${2:-quick}"
