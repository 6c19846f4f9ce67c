#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property of /repo's working tree.
cd "$(dirname "$0")" || exit 2
V=$(pwd)
bash ./build.sh || { echo "the verifier does not build"; exit 2; }
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
exec "$V/bin/gocv" -verif "$V" -repo "${VERIF_REPO:-/repo}" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
