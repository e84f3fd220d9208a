#!/bin/bash
# run.sh build            build the simulator from /repo's working tree
# run.sh C01 [args...]    build, then decide property C01 (VERIF_SEED, VERIF_TIER)
# run.sh replay FILE      build, then replay a recorded violation
# run.sh sim CMD [args]   build, then any simulator command (selftest, case, ...)
# Exit 0: held; 1: VIOLATION; 3: the check itself could not give an answer.
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$V/.build}
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB=* GOWORK=off GOCACHE=$B/cache GO111MODULE=on CGO_ENABLED=1
unset GOOS GOARCH GODEBUG GOEXPERIMENT
fail() { echo "run.sh: $*" >&2; exit 3; }

what=${1:-}
[ -n "$what" ] || fail "usage: run.sh build|C01|replay FILE|sim CMD"
shift
race=
tag=std
case "$what" in
  C13*) race=-race; tag=race ;;
  replay) case "$(basename "${1:-}")" in C13*) race=-race; tag=race ;; esac ;;
  sim) case " $* " in *" C13 "*) race=-race; tag=race ;; esac ;;
esac

build() { # build [-race] tag
  local race=$1 tag=$2 bin=$B/verifsim.$tag.$$
  mkdir -p "$B/cache" || return 1
  exec 9>"$B/lock" && flock 9 || return 1
  # the overlay generator does not depend on /repo
  (cd "$V/tools/mkoverlay" && go build -o "$B/mkoverlay" .) >"$B/log.$$" 2>&1 || { cat "$B/log.$$" >&2; return 1; }
  mkdir -p "$B/ov.$tag" || return 1
  "$B/mkoverlay" -repo "$REPO" -verif "$V" -out "$B/ov.$tag" >"$B/log.$$" 2>&1 || { cat "$B/log.$$" >&2; return 1; }
  cp "$REPO/go.mod" "$REPO/go.sum" "$B/ov.$tag/" || return 1
  local extra=() exp=
  # The harness itself is not instrumented; its allocations must still be
  # known to the race detector, which specialised allocation would skip.
  [ -n "$race" ] && extra=(-race -gcflags=github.com/effective-security/xdb/internal/verifsim=-race=false) && exp=nosizespecializedmalloc
  (cd "$REPO" && GOEXPERIMENT=$exp go build "${extra[@]}" -trimpath=false -overlay "$B/ov.$tag/overlay.json" -modfile "$B/ov.$tag/go.mod" -o "$bin" ./internal/verifsim) >"$B/log.$$" 2>&1 \
    || { cat "$B/log.$$" >&2; rm -f "$bin"; return 1; }
  rm -f "$B/log.$$"
  flock -u 9
  BIN=$bin
}

if [ "$what" = build ]; then
  build "" std || fail "build failed"; rm -f "$BIN"
  build -race race || fail "race build failed"; rm -f "$BIN"
  exit 0
fi
build "$race" "$tag" || fail "build failed"
trap 'rm -f "$BIN"' EXIT
case "$what" in
  replay) "$BIN" replay -verif "$V" "$@" ;;
  sim) c=$1; shift; "$BIN" "$c" -verif "$V" "$@" ;;
  *) "$BIN" check -prop "$what" -tier "$TIER" -seed "$SEED" -verif "$V" "$@" ;;
esac
exit $?
