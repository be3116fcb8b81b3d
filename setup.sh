#!/bin/bash
# Builds the harness once, with and without the race detector (fills the Go
# build cache; every check builds again from /repo's working tree).
cd "$(dirname "$0")/harness" || exit 2
. ../env.sh
go build -o /dev/null . && go build -race -o /dev/null .
