#!/bin/bash
# Checks that what the checks need is here, and warms the build cache.
cd "$(dirname "$0")" || exit 2
. ./env.sh
for t in go protoc protoc-gen-go protoc-gen-go-grpc; do
  command -v "$t" >/dev/null || { echo "missing: $t" >&2; exit 1; }
done
(cd harness && go build -o /dev/null .)
