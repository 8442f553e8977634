#!/bin/bash
# check.sh <property>: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
if [ -z "$HOME" ]; then export HOME=/root; fi
mkdir -p bin evidence
if ! [ -x bin/az ] || [ -n "$(find analyzer -newer bin/az -print -quit)" ]; then
  (cd analyzer && go build -o ../bin/az .) || exit 2
fi
[ "$1" = --build ] && exit 0
exec bin/az check "$1" "$PWD"
