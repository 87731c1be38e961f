#!/bin/bash
# run.sh PROPERTY [quick|thorough]   builds the checker against /repo's working
# tree and runs the checks of one property.
# run.sh build                       builds only
# run.sh replay FILE                 judges one saved case again
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
. "$VERIF_DIR/env.sh"
build() {
	mkdir -p "$VERIF_DIR/.build" || exit 2
	(cd "$VERIF_DIR/harness" && go build -o "$VERIF_DIR/.build/geoqlcheck" .) || { echo "BROKEN CHECK: build failed"; exit 2; }
}
build_race() {
	(cd "$VERIF_DIR/harness" && CGO_ENABLED=1 go build -race -o "$VERIF_DIR/.build/geoqlcheck.race" .) || {
		echo "note: no race detector here, running without it"; rm -f "$VERIF_DIR/.build/geoqlcheck.race"; }
}
case "$1" in
build) build; build_race; exit 0;;
replay) build; grep -q '"part": "race' "$2" && build_race; exec "$VERIF_DIR/.build/geoqlcheck" "$@";;
C16) build; build_race;;
*) build;;
esac
exec "$VERIF_DIR/.build/geoqlcheck" "$@"
