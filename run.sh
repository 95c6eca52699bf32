#!/bin/bash
# run.sh PROPERTY: rebuilds the harness against /repo's working tree and runs one check.
# exit 0: held; 1: violated (VIOLATION line printed); anything else: the check itself failed.
set -u
P="$1"
HERE="$(cd "$(dirname "$0")" && pwd)"
. "$HERE/env.sh"
export VERIF_ROOT="$HERE" VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
mkdir -p "$HERE/evidence"
LOWER=$(echo "$P" | tr 'A-Z' 'a-z')
SPECIAL="$HERE/checks/$LOWER.sh"
if [ -x "$SPECIAL" ]; then . "$SPECIAL"; exit $?; fi
build_or_judge "$P" "$HERE/harness" --bin "$LOWER" || exit $?
run_judged "$P" "$CARGO_TARGET_DIR/debug/$LOWER" || exit $?
# thorough: the same exploration again as users build the code, without assertions
if [ "$VERIF_TIER" = thorough ]; then
  build_or_judge "$P" "$HERE/harness" --profile nodebug --bin "$LOWER" || exit $?
  VERIF_TIER=quick VERIF_EVIDENCE="$HERE/evidence/.nodebug-$P.json" run_judged "$P" "$CARGO_TARGET_DIR/nodebug/$LOWER" || exit $?
fi
exit 0
