#!/bin/bash
# run.sh <property> [--replay FILE | --only GROUP:INDEX]
# Builds the monitors against /repo's working tree and runs one check.
# run.sh --setup builds all variants once.
# Exit 0: held; 1: VIOLATION line printed; 2: inconclusive.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
prop=${1:?property}
shift
args=()
while [ $# -gt 0 ]; do
    case $1 in
    --replay) args+=(-replay "$(realpath -m -- "$2" 2>/dev/null || echo "$2")"); shift 2 ;;
    --only) args+=(-only "$2"); shift 2 ;;
    *) args+=("$1"); shift ;;
    esac
done
scratch=$(mktemp -d /tmp/rtmon.XXXXXX) || exit 2
chmod 755 "$scratch"
cleanup() { chmod -R u+rwx -- "$scratch" 2>/dev/null; rm -rf -- "$scratch"; }
trap cleanup EXIT
trap 'exit 2' INT TERM
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local
cd "$here/harness" || exit 2
out=$here
if [ -n "${RTMON_REPO:-}" ]; then # development only: judge another tree
    sed "s#=> /repo#=> $RTMON_REPO#" go.mod >"$scratch/go.mod" && cp go.sum "$scratch/go.sum"
    export GOFLAGS="-mod=readonly -modfile=$scratch/go.mod"
    out=${RTMON_OUT:-$scratch}
fi
build() { # variant
    case $1 in
    cgo)   CGO_ENABLED=1 go build -o "$scratch/rtmon-$1" . ;;
    nocgo) CGO_ENABLED=0 go build -o "$scratch/rtmon-$1" . ;;
    race)  CGO_ENABLED=1 go build -race -o "$scratch/rtmon-$1" . ;;
    asan)  CGO_ENABLED=1 go build -asan -o "$scratch/rtmon-$1" . ;;
    esac
}
if [ "$prop" = --setup ]; then # warms the build cache
    for v in cgo nocgo race asan; do build $v || exit 2; done
    exit 0
fi
build cgo || { echo "build failed (cgo)"; exit 2; }
variants=$("$scratch/rtmon-cgo" variants "$prop") || { echo "unknown property $prop"; exit 2; }
bins=cgo=$scratch/rtmon-cgo
for v in $variants; do
    [ "$v" = cgo ] && continue
    build "$v" || { echo "build failed ($v)"; exit 2; }
    bins=$bins,$v=$scratch/rtmon-$v
done
mkdir "$scratch/run" && chmod 755 "$scratch/run"
cd "$here" || exit 2
"$scratch/rtmon-cgo" check -prop "$prop" -bins "$bins" -out "$out" -scratch "$scratch/run" ${args[@]+"${args[@]}"}
