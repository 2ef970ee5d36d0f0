#!/bin/bash
# Build the harness (plain and race instrumented) from the committed files.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
build_harness || exit 1
build_harness 1 || exit 1
build_server || exit 1
