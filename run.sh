#!/bin/bash
# run.sh ID [build]: rebuild the explorer from /repo's working tree and run one check.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
export HOME=${HOME:-/root} VERIF_ROOT=$here
mkdir -p "$here/bin"
cd "$here/mc" || exit 3
out=$here/bin/mc
go build -o "$out.$$" . || { rm -f "$here/bin/mc.$$"; echo "the explorer does not build against /repo"; exit 3; }
mv -f "$out.$$" "$out"
[ "$1" = build ] && exit 0
if [ "$1" = C11 ]; then
	# With the controlled scheduler in place of the locks, and the race detector for what is in /repo and here.
	tmp=$(mktemp -d) || exit 3
	trap 'rm -rf "$tmp"' EXIT
	"$out" instrument /repo "$tmp" || exit 3
	go build -race -gcflags='all=-race=false -d=checkptr=0' -gcflags='github.com/pojntfx/stfs/...=-d=checkptr=0' -overlay "$tmp/overlay.json" -o "$tmp/mc-race" . || { echo "the explorer does not build against /repo with the controlled scheduler"; exit 3; }
	"$tmp/mc-race" "$1"
	exit
fi
if [ "$1" = C18 ]; then
	# With a scrypt package whose cost can be turned down.
	tmp=$(mktemp -d) || exit 3
	trap 'rm -rf "$tmp"' EXIT
	"$out" cheap-scrypt "$(go list -m -f '{{.Dir}}' golang.org/x/crypto)" "$tmp" || exit 3
	go build -tags cheapscrypt -overlay "$tmp/overlay.json" -o "$tmp/mc-keys" . || { echo "the explorer does not build against /repo"; exit 3; }
	"$tmp/mc-keys" "$1"
	exit
fi
exec "$out" "$1"
