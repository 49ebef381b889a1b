#!/bin/bash
# run.sh ID: builds the exploration engine against /repo's working tree and
# decides one property. VERIF_TIER=thorough deepens the bounds.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
mkdir -p .build evidence
go build -o .build/ ./cmd/check ./cmd/hist || exit 2
bin=check
case "$1" in
C16)
  go build -o .build/concbuild ./cmd/concbuild && ./.build/concbuild .build || exit 2
  ;;
C26)
  go build -o .build/phoneparser github.com/nyaruka/phonenumbers/v2/cmd/phoneparser || exit 2
  ;;
C22 | C23)
  go build -o .build/buildmetadata github.com/nyaruka/phonenumbers/v2/cmd/buildmetadata || exit 2
  # the deeper form reaches internal packages; without them the public form runs
  if go build -o .build/checkint ./cmd/checkint; then bin=checkint; fi
  ;;
esac
exec ./.build/$bin "$@"
