#!/bin/bash
# Build everything once, so that the checks find a warm build cache.
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p .build evidence out
(cd harness && go build -o ../.build/harness . && go build -race -o ../.build/harness-race . && go build -tags typed -o ../.build/harness-typed .)
(cd /repo && GOOS=js GOARCH=wasm go build -o /verif/.build/parser.wasm ./web/parser && go build -o /verif/.build/estree ./cmd/estree)
node --version >/dev/null
