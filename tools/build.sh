#!/bin/bash
# usage: build.sh plain|race   -> builds the monitor binary from /repo's working tree
#
# A few files of the Go runtime are replaced for this build only:
# - runtime2.go: goroutines that wait for a sync.Mutex/RWMutex count as idle in a testing/synctest bubble, so that a
#   lock that is never released shows as no progress in virtual time.
# - proc.go: the scheduler picks the next goroutine at random, as it always does in race builds.
# - internal/sync/mutex.go, sync/rwmutex.go: goroutines sometimes give way when they lock or unlock, and locks are
#   handed over to those that wait, as they are in real time when somebody has waited for a millisecond.
# All schedules that come out of this are possible ones.
set -e
kind="${1:-plain}"
here="$(cd "$(dirname "$0")/.." && pwd)"
. /opt/vp/env.sh
out="${VP_BIN:-$here/bin}"
mkdir -p "$out"
root="$(go env GOROOT)"
# the overlay files have to keep their path and content for the build cache to be useful
python3 "$here/tools/overlay.py" "$root/src" "$out"
export GOSUMDB=off
cd "$here/harness"
flags=()
[ "$kind" = race ] && flags=(-race)
go test -c -vet=off "${flags[@]}" -overlay "$out/overlay.json" -o "$out/zw.$kind" ./sim
