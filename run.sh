#!/bin/bash
# run.sh PROPERTY quick|thorough : rebuild the explorer against /repo's working tree and run it.
here="$(cd "$(dirname "$0")" && pwd)"
for d in /usr/local/go/bin /root/go/bin; do [ -d "$d" ] && PATH="$PATH:$d"; done
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=readonly"
export LNG_VERIF_DIR="$here"
out="$(mktemp -d)"
trap 'rm -rf "$out"' EXIT
if ! (cd "$here/harness" && go build -o "$out/lngcheck" . ) ; then
  echo "build of the explorer against /repo failed"; exit 3
fi
if [ "$1" = P28 ]; then
  # the same explorer with the race detector, for the concurrent executions
  if ! (cd "$here/harness" && CGO_ENABLED=1 go build -race -o "$out/lngrace" . ) ; then
    echo "build of the explorer with the race detector failed"; exit 3
  fi
  export LNG_RACE="$out/lngrace"
fi
cd "$here"
"$out/lngcheck" "$@"
exit $?
