#!/bin/bash
# Runs the Go test files beside this script against a scratch copy of the repository in the
# current directory: pkg files named <pkg>__x_test.go go to that package, others to the root one.
here=$(cd "$(dirname "$0")" && pwd)
export PATH="$PATH:/usr/local/bin:/opt/veriftools/go1.27.3/bin" HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/r" && cp -a ./. "$d/r/" || exit 3
cd "$d/r" || exit 3
[ -e go.mod ] || { cp "$here/go.mod.txt" go.mod; cp "$here/go.sum.txt" go.sum; }
rm -rf .git crypto test_helper jwk_endpoint.go
find . -name '*_test.go' -delete
pk="."
for f in "$here"/*_test.go; do
	b=$(basename "$f")
	case "$b" in
	*__*) p="${b%%__*}"; cp "$f" "$p/${b#*__}"; pk="$pk ./$p";;
	*) cp "$f" "./$b";;
	esac
done
go test -vet=off -count=1 -timeout 120s $(echo $pk | tr ' ' '\n' | sort -u) "$@"
