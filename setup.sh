#!/bin/bash
# warms the build cache; nothing later depends on it
root=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. "$root/env.sh"
cd "$root/mc" && go build -o /dev/null ./cmd/mc && go build -tags c32 -o /dev/null ./cmd/mc && go build -tags all -o /dev/null ./cmd/mcu && go build -o /dev/null ./cmd/instr && go build -race -o /dev/null ./cmd/mcs && cd /repo && go build -o /dev/null .
