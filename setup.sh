#!/bin/bash
# Builds everything the checks need, so that each check only rebuilds what depends on /repo.
set -eu
HERE="$(cd "$(dirname "$0")" && pwd)"
. "$HERE/env.sh"
(cd "$HERE/harness" && cargo build --offline --bins)
for s in "$HERE"/checks/*.setup.sh; do [ -e "$s" ] && . "$s"; done
exit 0
