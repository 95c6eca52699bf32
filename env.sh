# Sourced by run.sh and setup.sh.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$HERE/target" CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS RUSTDOCFLAGS

# build_or_judge PROPERTY CRATE_DIR CARGO_ARGS...: builds. If only the harness crate fails to compile
# while fixed-map itself compiles, a supported key declaration or a public operation no longer
# compiles: that breaks the property for those programs.
build_or_judge() {
  local p="$1" dir="$2"; shift 2
  local log="$HERE/evidence/.build-$p.log"
  if (cd "$dir" && cargo build --offline "$@") >"$log" 2>&1; then return 0; fi
  if (cd "$dir" && cargo build --offline -p fixed-map) >"$log.lib" 2>&1 \
     && grep -qE '^error: could not compile `fmcheck' "$log" \
     && grep -qE '^error(\[E[0-9]+\])?: ' "$log" && ! grep -qE 'No space left|signal: [0-9]+|internal compiler error' "$log"; then
    mkdir -p "$HERE/evidence/replay"
    { echo "property $p"; echo "supported declarations or public operations do not compile any more:"; grep -vE '^\s*(Compiling|Finished)' "$log" | head -150; } >"$HERE/evidence/replay/$p-build.txt"
    grep -E '^error' -A6 "$log" | head -20
    echo "VIOLATION property=$p replay=$HERE/evidence/replay/$p-build.txt"
    return 1
  fi
  cat "$log" >&2
  echo "build failed" >&2
  return 2
}

# run_judged PROPERTY BINARY: runs a check; a crash of the process (not a panic) inside the code under
# test is replayed once with a journal of the trace being executed, and reported if it happens again.
run_judged() {
  local p="$1" bin="$2" rc
  "$bin"; rc=$?
  case $rc in
    132|134|135|136|139)
      local j="$HERE/evidence/replay/$p-crash.txt"
      mkdir -p "$HERE/evidence/replay"; : >"$j"
      VERIF_JOURNAL="$j" timeout 600 "$bin" >/dev/null 2>&1; local rc2=$?
      case $rc2 in
        132|134|135|136|139)
          echo "the process died (exit $rc, again $rc2) while executing:"; cat "$j"
          echo "VIOLATION property=$p replay=$j"; return 1;;
      esac
      echo "crash (exit $rc) did not repeat (exit $rc2)" >&2; return 3;;
  esac
  return $rc
}
