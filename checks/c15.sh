# The declaration space lives in its own crates, built in parallel.
build_or_judge C15 "$HERE/harness" -p fmcheck-c15 || exit $?
run_judged C15 "$CARGO_TARGET_DIR/debug/c15"
