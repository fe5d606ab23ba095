#!/bin/bash
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh >/dev/null 2>&1
mkdir -p .bin evidence replay && cd gvc && go build -o ../.bin/gvc .
