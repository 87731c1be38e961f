# sourced by run.sh: an offline Go toolchain with its own build cache
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=readonly -trimpath" CGO_ENABLED=0 TZ=UTC
export GOCACHE="$VERIF_DIR/.build/gocache"
