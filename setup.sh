#!/bin/bash
# Nothing to install: every check rebuilds its harness from /repo's working tree with the
# Go toolchain that is present. This only confirms the toolchain works and warms its cache.
cd "$(dirname "$0")" || exit 1
go version || exit 1
VERIF_BUILD_ONLY=1 bash run.sh C04
