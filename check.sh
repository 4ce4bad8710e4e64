#!/bin/bash
# check.sh <ID> [quick|thorough]        build against /repo's working tree and decide the property
# check.sh one <ID> <case> [tier]       run one case and print what was observed
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" VERIF_REPO=/repo VERIF_SEED="${VERIF_SEED:-1}"
export RUST_BACKTRACE=0 CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
unset RUST_LOG CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_BUILD_TARGET
mkdir -p evidence

one=""
if [ "$1" = one ]; then one=1; shift; id="$1"; idx="$2"; tier="${3:-quick}"; else id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; fi

build() { # build <target dir> <cargo args...>
  local dir="$1"; shift
  if ! CARGO_TARGET_DIR="$dir" cargo "$@" >evidence/build-$id.log 2>&1; then
    cat evidence/build-$id.log >&2
    echo "the harness does not build against /repo" >&2
    exit 2
  fi
}

features=""
[ "$id" = C16 -o "$id" = C17 ] && features="--features shapes"
RUSTFLAGS=-Awarnings build "$PWD/harness/target" build --release --offline --locked --manifest-path harness/Cargo.toml --bin harness $features
bin="$PWD/harness/target/release/harness"

if [ "$id" = C29 ]; then
  # Eight builds with every combination of the crate's features.
  pids=""
  for k in 0 1 2 3 4 5 6 7; do
    f=""
    [ $((k & 1)) != 0 ] && f="$f f_filters"
    [ $((k & 2)) != 0 ] && f="$f f_serde"
    [ $((k & 4)) != 0 ] && f="$f f_unicode"
    (
      id="C29-$k"
      RUSTFLAGS=-Awarnings build "$PWD/harness/target-f$k" build --profile serve --offline --locked \
        --manifest-path harness/Cargo.toml --bin serve --no-default-features --features "$f"
    ) &
    pids="$pids $!"
  done
  for p in $pids; do wait $p || exit 2; done
fi

tsan=""
if [ "$id" = C27 ] && { [ -z "$one" ] || [ -n "$VERIF_TSAN" ]; }; then
  # The same check once more, built (with the standard library) for ThreadSanitizer.
  host=x86_64-unknown-linux-gnu
  RUSTFLAGS="-Zsanitizer=thread -Awarnings" build "$PWD/harness/target-tsan" +nightly build --release --offline --locked \
    -Zbuild-std --target $host --manifest-path harness/Cargo.toml --bin harness
  tsan="$PWD/harness/target-tsan/$host/release/harness"
  export TSAN_OPTIONS="halt_on_error=1:exitcode=66:log_path=$PWD/evidence/tsan.log"
fi
if [ -n "$one" ]; then
  [ -n "$tsan" ] && bin="$tsan"
  exec "$bin" one "$id" "$idx" "$tier"
fi
if [ -n "$tsan" ]; then
  find evidence -maxdepth 1 -name 'tsan.log*' -delete
  # The detector is alive: it reports a race planted in the harness itself.
  VERIF_TSAN=1 "$tsan" probe race >/dev/null 2>&1
  [ $? = 66 ] || { echo "ThreadSanitizer does not report a known race" >&2; exit 2; }
  find evidence -maxdepth 1 -name 'tsan.log*' -delete
  n=600; [ "$tier" = thorough ] && n=6000
  VERIF_TSAN=1 VERIF_CASES=$n "$tsan" check "$id" "$tier"
  code=$?
  [ $code = 0 ] || exit $code
  mv "evidence/$id.json" "evidence/$id.tsan.json"
  export VERIF_EXTRA="$PWD/evidence/$id.tsan.json"
fi
exec "$bin" check "$id" "$tier"
