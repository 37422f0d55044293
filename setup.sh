#!/bin/bash
# builds the framework once, which fills the build cache
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here/mc" && go vet ./... && go build -o /dev/null ./cmd/mc
