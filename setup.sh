#!/bin/bash
# Builds the exploration engine once, so that the build cache is warm.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
mkdir -p .build evidence
go build -o .build/ ./cmd/check ./cmd/hist || exit 1
go build -o .build/buildmetadata github.com/nyaruka/phonenumbers/v2/cmd/buildmetadata
go build -o .build/phoneparser github.com/nyaruka/phonenumbers/v2/cmd/phoneparser
go build -o .build/checkint ./cmd/checkint
go build -o .build/concbuild ./cmd/concbuild && ./.build/concbuild .build
exit 0
