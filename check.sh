#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's current working tree.
# The engine is rebuilt when its sources are newer than the binary.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
mkdir -p bin
if [ ! -x bin/engine ] || [ -n "$(find engine -newer bin/engine -print -quit)" ]; then
	(cd engine && go build -o ../bin/engine.$$ . && mv ../bin/engine.$$ ../bin/engine) || exit 2
fi
case "$1" in
setup) exec ./bin/engine build ;;
*) exec ./bin/engine check -property "$1" -tier "${2:-quick}" ;;
esac
