(cd "$HERE/harness" && cargo build --offline -p fmcheck-c15)
