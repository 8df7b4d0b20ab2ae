#!/bin/bash
# Decides one property on the sources in /repo: check.sh ID [quick|thorough]
cd "$(dirname "$0")" || exit 2
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOWORK=off VERIF_TIER="${2:-quick}"
bin=$PWD/bin/speedcheck
mkdir -p bin evidence
exec 9>bin/.lock && flock 9
if [ ! -x "$bin" ] || [ -n "$(find checker -name vendor -prune -o \( -name '*.go' -o -name go.mod \) -newer "$bin" -print -quit)" ]; then
	(cd checker && go build -mod=vendor -o "$bin" .) || { echo "the checker does not build"; exit 2; }
fi
flock -u 9
[ "$1" = build ] && exit 0
exec "$bin" -supervise -prop "$1" -out "$PWD/evidence" -known "$PWD/known_findings.txt"
