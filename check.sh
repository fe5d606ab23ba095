#!/bin/bash
# usage: check.sh <property> [tier]   — builds the verifier and checks one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh >/dev/null 2>&1
unset GVC_DEVCACHE GVC_DEBUG
mkdir -p .bin
if ! (cd gvc && go build -o ../.bin/gvc . ) ; then echo "cannot build gvc" >&2; exit 2; fi
exec ./.bin/gvc check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
