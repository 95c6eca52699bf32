(cd "$HERE/harness" && cargo build --offline -p fmcheck-c16 -p fmcheck-probe)
