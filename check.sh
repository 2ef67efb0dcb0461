#!/bin/bash
# usage: check.sh <property-id> [quick|thorough]
# Builds the analyzer from the committed sources and runs one property's rules
# against the current working tree of /repo. Nothing of /repo is executed.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
bin="$(mktemp -d /tmp/vstat.XXXXXX)"
trap 'rm -r "$bin"' EXIT
( cd "$here/analyzer" && export PATH=/usr/local/bin:$PATH && unset GOROOT && GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOWORK=off go build -o "$bin/vstat" . ) || { echo "analyzer build failed"; exit 2; }
. /opt/vp/env.sh
"$bin/vstat" -repo "${VERIF_REPO:-/repo}" -verif "$here" -tier "$tier" "$id"
