#!/bin/bash
# run.sh ID            decide property ID (tier from VERIF_TIER, default quick)
# run.sh replay FILE   re-execute a recorded violation
# run.sh setup         warm the build cache
ROOT=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export MC_ROOT=$ROOT
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
cd "$ROOT" || exit 3

W=$(mktemp -d /tmp/mcrun.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
export TMPDIR=$W/tmp
mkdir -p "$TMPDIR"

# Properties decided under the controlled scheduler are built from an
# instrumented copy of the current sources (an overlay; /repo is not touched).
SCHED=" C01 C02 C04 C05 C31 "

build() { # build kind
  cp go.mod go.sum "$W/" # -modfile: the committed files never change
  if [ "$1" = sched ]; then
    go run -modfile="$W/go.mod" ./cmd/instrument -repo /repo -out "$W/ov" >"$W/instr.log" 2>&1 || { cat "$W/instr.log"; return 1; }
    go test -c -modfile="$W/go.mod" -vet=off -overlay "$W/ov/overlay.json" -o "$W/mc.test" ./runsched >"$W/build.log" 2>&1 && return 0
    # something the full rewriting cannot handle: only add scheduling points
    go run -modfile="$W/go.mod" ./cmd/instrument -lite -repo /repo -out "$W/ov2" >"$W/instr.log" 2>&1 &&
    go test -c -modfile="$W/go.mod" -vet=off -overlay "$W/ov2/overlay.json" -o "$W/mc.test" ./runsched >"$W/build2.log" 2>&1 || { cat "$W/build.log"; return 1; }
  else
    go test -c -modfile="$W/go.mod" -vet=off $TAGS -o "$W/mc.test" ./run >"$W/build.log" 2>&1 || { cat "$W/build.log"; return 1; }
  fi
}

# stand-ins and tools some properties need
tools() {
  mkdir -p "$W/bin"
  export MC_BIN=$W/bin
  case $1 in
  C32|C33)
    go build -modfile="$W/go.mod" -o "$W/bin/solc" ./cmd/fakesolc >>"$W/build.log" 2>&1 || { cat "$W/build.log"; return 1; }
    export PATH=$W/bin:$PATH ;;
  C34)
    go build -modfile="$W/go.mod" -o "$W/bin/solc" ./cmd/fakesolc >>"$W/build.log" 2>&1 || { cat "$W/build.log"; return 1; }
    cp /repo/go.mod "$W/repo.mod"; cp /repo/go.sum "$W/repo.sum"
    ( cd /repo && go build -modfile="$W/repo.mod" -o "$W/bin/bindgen" ./bindgen ) >>"$W/build.log" 2>&1 || { cat "$W/build.log"; return 1; }
    # the programs generated are built in a module like this one
    { echo "module verif.local/gen"; sed 1d go.mod; } > "$W/gen.mod"; cp go.sum "$W/gen.sum" ;;
  C35|C36|C37|C39)
    # the tool itself, with the repository's own module settings
    cp /repo/go.mod "$W/repo.mod"; cp /repo/go.sum "$W/repo.sum"
    ( cd /repo && go build -modfile="$W/repo.mod" -o "$W/bin/eth" ./cmd/eth ) >>"$W/build.log" 2>&1 || { cat "$W/build.log"; return 1; } ;;
  C47)
    # the tool with the driver, on the software device
    cp /repo/go.mod "$W/repo.mod"; cp /repo/go.sum "$W/repo.sum"
    ( cd /repo && go build -tags yubihsm -modfile="$W/repo.mod" -o "$W/bin/eth" ./cmd/eth ) >>"$W/build.log" 2>&1 || { cat "$W/build.log"; return 1; } ;;
  C40)
    cp /repo/go.mod "$W/repo.mod"; cp /repo/go.sum "$W/repo.sum"
    ( cd /repo && go build -modfile="$W/repo.mod" -o "$W/bin/tevmd" ./tevm/tevmd ) >>"$W/build.log" 2>&1 || { cat "$W/build.log"; return 1; } ;;
  esac
}

runone() {
  ( ulimit -v 24000000; cd "$W" && exec "$W/mc.test" -test.run '^TestMC$' -test.timeout=0 -test.v=false ) >"$W/out.log" 2>&1
}

case "$1" in
setup)
  build plain || exit 1
  [ -d runsched ] && { build sched || exit 1; }
  exit 0 ;;
replay)
  f=$(readlink -f "$2"); export MC_REPLAY=$f
  ID=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$f") || exit 3 ;;
*)
  ID=$1 ;;
esac
export MC_PROP=$ID
kind=plain
TAGS=
if [ "$ID" = C38 ] || [ "$ID" = C47 ]; then
  # the driver is built against a software device with the vendor library's interface
  mkdir -p "$W/lib"
  gcc -O1 -c -o "$W/lib/vdev.o" shim/yubihsm/vdev.c && ar rcs "$W/lib/libyubihsm.a" "$W/lib/vdev.o" || exit 3
  export C_INCLUDE_PATH=$ROOT/shim/yubihsm LIBRARY_PATH=$W/lib
  [ "$ID" = C38 ] && TAGS="-tags yubihsm"
fi
case "$SCHED" in *" $ID "*) kind=sched ;; esac
build $kind || exit 3
tools "$ID" || exit 3
runone; rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  # The process died. If the implementation itself brought it down (a fatal
  # runtime error no recover can catch) and does so again, that is a violation.
  cp "$W/out.log" "$W/out1.log"
  runone; rc=$?
  if [ $rc -ne 0 ] && [ $rc -ne 1 ] && grep -qE '^(fatal error:|panic:|runtime: )' "$W/out.log" && grep -q '/repo/' "$W/out.log"; then
    mkdir -p "$ROOT/out"
    tail -c 20000 "$W/out.log" > "$ROOT/out/$ID.crash.txt"
    head -60 "$W/out.log"
    [ -f "$ROOT/evidence/$ID.json" ] || true
    echo "VIOLATION property=$ID replay=$ROOT/out/$ID.crash.txt"
    exit 1
  fi
fi
cat "$W/out.log"
exit $rc
