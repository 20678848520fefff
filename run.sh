#!/bin/bash
# run.sh ID [--tier quick|thorough] [--replay FILE] [--runs N]
#
# Builds the simulator against /repo's working tree and runs one check.
# Exit 0: held. Exit 1: VIOLATION line on stdout. Anything else: the check itself failed.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd) || exit 2
id=${1:-}; shift || true
tier=${VERIF_TIER:-quick}
args=()
while [ $# -gt 0 ]; do
    case $1 in
        --tier) tier=$2; shift 2 ;;
        --replay) args+=(-replay "$2"); shift 2 ;;
        --runs) args+=(-runs "$2"); shift 2 ;;
        *) echo "run.sh: unknown argument $1" >&2; exit 2 ;;
    esac
done
case $id in C[0-9][0-9]) ;; *) echo "run.sh: no such check: $id" >&2; exit 2 ;; esac

export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin TZ=UTC
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOENV GOROOT GOFLAGS GORACE GODEBUG GOGC GOMEMLIMIT

fail() { echo "run.sh: $*" >&2; exit 2; }

# One build directory per check and invocation, so that checks can run side by side.
mkdir -p "$here/.build" || fail "cannot create $here/.build"
work=$(mktemp -d "$here/.build/$id.XXXXXX") || fail "cannot create build directory"
trap 'rm -rf "$work"' EXIT

cd "$here/sim" || fail "no simulator"
cp go.mod "$work/go.mod" && cp go.sum "$work/go.sum" || fail "cannot copy module file"
export GOFLAGS="-mod=mod -modfile=$work/go.mod"

pkg=vimagination.zapto.org/ics
export CGO_ENABLED=0
go build -o "$work/instr" ./cmd/instr || fail "instrumentation tool does not build"
go list -export -deps -json=ImportPath,Dir,Export,GoFiles,CgoFiles "$pkg" > "$work/list.json" || fail "package under test does not load"
mkdir "$work/src" || fail "cannot create source directory"
"$work/instr" -out "$work/src" "$pkg" < "$work/list.json" || fail "instrumentation failed"
cp "$work/src/sites.json" "$work/sites.json" || fail "cannot copy sites"
go build -overlay "$work/src/overlay.json" -o "$work/simdrv" ./cmd/simdrv || fail "simulator does not build against the package under test"

if [ "$id" = C12 ]; then
    CGO_ENABLED=1 go build -race -overlay "$work/src/overlay.json" -o "$work/simdrv-race" ./cmd/simdrv || fail "race build failed"
    args+=(-race "$work/simdrv-race")
fi

# Not exec: the build directory has to be removed afterwards.
"$work/simdrv" drive -check "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -dir "$here" ${args[@]+"${args[@]}"}
exit $?
