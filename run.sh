#!/bin/bash
# run.sh PROPERTY | setup | replay FILE | build : build the monitors against /repo's working tree and run one check.
# VERIF_TIER (quick, thorough) and VERIF_SEED are taken from the environment.
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
export XDMON_ROOT="$ROOT"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTC_WRAPPER RUSTFLAGS CARGO_BUILD_TARGET_DIR CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
H="$ROOT/harness"

# build VARIANT: core (without the parser) or parser; prints the path of the binary.
build() {
  local dir="$H/target/$1" args=()
  [ "$1" = parser ] && args=(--features parser)
  mkdir -p "$dir" || return 1
  (
    flock 9 || exit 1
    # cargo looks at modification times, which say little in a copy: look at the contents.
    local now; now="$(cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)"
    if [ "$(cat "$dir/.xml_dom.hash" 2>/dev/null)" != "$now" ]; then
      rm -f "$dir/.xml_dom.hash"
      cargo clean --release --manifest-path "$H/Cargo.toml" --target-dir "$dir" -p xml_dom >/dev/null 2>&1
    fi
    cargo build --release --offline --locked --manifest-path "$H/Cargo.toml" --target-dir "$dir" "${args[@]}" >"$dir/build.log" 2>&1 || {
      grep -E '^error' -A8 "$dir/build.log" >&2 || tail -30 "$dir/build.log" >&2
      exit 1
    }
    echo "$now" >"$dir/.xml_dom.hash"
  ) 9>"$dir/.lock" || return 1
  echo "$dir/release/xdmon"
}

variant() {
  case "$1" in
    C21 | C22 | C23) echo parser ;;
    *) echo core ;;
  esac
}

case "${1:-}" in
  setup | build)
    build core >/dev/null && build parser >/dev/null || { echo "cannot build the monitors" >&2; exit 2; }
    ;;
  replay)
    prop="$(sed -n 's/^# property: //p' "$2" | head -1)"
    bin="$(build "$(variant "$prop")")" || { echo "cannot build the monitors" >&2; exit 2; }
    exec "$bin" replay "$2"
    ;;
  C[0-9]*)
    bin="$(build "$(variant "$1")")" || { echo "cannot build the monitors against /repo" >&2; exit 2; }
    exec "$bin" check "$1"
    ;;
  *)
    echo "usage: $0 PROPERTY | setup | replay FILE" >&2
    exit 2
    ;;
esac
