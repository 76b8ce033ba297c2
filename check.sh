#!/bin/bash
# check.sh setup | check.sh <property> <quick|thorough> | check.sh replay <file>
cd "$(dirname "$0")" || exit 2
V=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOWORK=off GOTOOLCHAIN=local
mkdir -p "$V/engine/bin" "$V/evidence"
(cd engine && go build -o bin/gosym ./cmd/gosym) || exit 2
case "$1" in
setup) (cd harness && go test -c -ldflags=-checklinkname=0 -o /dev/null ./replay) ;;
replay) exec ./engine/bin/gosym replay "$V" "$2" ;;
*) exec ./engine/bin/gosym check "$V" "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
