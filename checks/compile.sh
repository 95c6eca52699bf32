# Sourced with P and LOWER set: programs are compiled against the library as it is now.
(cd "$HERE/harness" && cargo build -q --offline -p fmcheck-c16) || { echo "build failed" >&2; exit 2; }
build_or_judge "$P" "$HERE/harness" -p fmcheck-probe || exit $?
C16_RLIB=$(cd "$HERE/harness" && cargo build --offline -p fmcheck-probe --message-format=json 2>/dev/null | grep '"compiler-artifact"' | grep -oE '"[^"]*/lib(fixed_map|fmcheck_probe)(-[0-9a-f]+)?\.rlib"' | tr -d '"')
C16_PROBE=$(echo "$C16_RLIB" | grep fmcheck_probe | tail -1)
C16_RLIB=$(echo "$C16_RLIB" | grep libfixed_map- | tail -1)
[ -n "$C16_RLIB" ] && [ -e "$C16_RLIB" ] || { echo "the library is not where cargo put it" >&2; exit 2; }
export C16_RLIB C16_PROBE C16_DEPS="$CARGO_TARGET_DIR/debug/deps" C16_RUSTC="$(rustc --print sysroot)/bin/rustc"
export C16_DIR="$(mktemp -d)"
trap 'rm -rf "$C16_DIR"' EXIT
run_judged "$P" "$CARGO_TARGET_DIR/debug/$LOWER"
