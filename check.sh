#!/bin/bash
# check.sh <ID> [quick|thorough] | check.sh <ID> --replay FILE | check.sh --build
# Rebuilds the harness against /repo's working tree, then decides one property.
# Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else: the check could not answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here CARGO_TARGET_DIR=$here/target CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER 2>/dev/null
mkdir -p "$here/target" "$here/evidence" "$here/replays"

build() {
  exec 9>"$here/target/.build-lock"
  flock 9
  # cargo goes by modification times; go by content instead, so that no change is ever missed
  local now
  now=$( { cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cd "$here/harness" && sha256sum Cargo.toml Cargo.lock; } | sha256sum | cut -d' ' -f1)
  if [ ! -x "$here/target/release/vharness" ] || [ "$(cat "$here/target/.repo-stamp" 2>/dev/null)" != "$now" ]; then
    rm -f "$here/target/.repo-stamp" "$here/target/.cov-stamp"
    (cd "$here/harness" && cargo clean --release --offline -p layered-nlp -p layered-amount -p layered-clauses -p layered-part-of-speech -p vharness >/dev/null 2>&1)
  fi
  if ! (cd "$here/harness" && cargo build --release --offline --locked) >"$here/target/build.log" 2>&1; then
    echo "the harness does not build against /repo:" >&2
    grep -A8 '^error' "$here/target/build.log" | head -60 >&2
    exit 3
  fi
  echo "$now" >"$here/target/.repo-stamp"
  flock -u 9
}

# the same harness and code with coverage counters, for the coverage-guided stage of the thorough tier
build_cov() {
  exec 9>"$here/target/.build-lock"
  flock 9
  export RUSTC_WRAPPER=$here/harness/cov-rustc.sh CARGO_TARGET_DIR=$here/target/cov
  if [ ! -f "$here/target/.cov-stamp" ]; then
    (cd "$here/harness" && cargo clean --release --offline -p layered-nlp -p layered-amount -p layered-clauses -p layered-part-of-speech -p vharness >/dev/null 2>&1)
  fi
  if ! (cd "$here/harness" && cargo build --release --offline --locked) >"$here/target/build-cov.log" 2>&1; then
    echo "the coverage build failed; no coverage-guided stage" >&2
    flock -u 9
    return 1
  fi
  touch "$here/target/.cov-stamp"
  flock -u 9
}

if [ "${1:-}" = --build ]; then build; exit 0; fi
id=${1:?property id}
case "${2:-}" in quick|thorough) export VERIF_TIER=$2 ;; esac
build
bin=$here/target/release/vharness
if [ "${2:-}" = --replay ]; then exec "$bin" "$id" --replay "$3"; fi
"$bin" "$id"
rc=$?
if [ $rc -ge 128 ]; then
  # killed by a signal (a stack overflow, an abort): find the case by writing each one down first
  trace=$here/replays/$id-crash.json
  VERIF_TRACE=$trace "$bin" "$id"
  rc=$?
  if [ $rc -ge 128 ] && [ -s "$trace" ]; then
    echo "the process died (exit $rc) on the case in the replay file"
    printf '{"property": "%s", "tier": "%s", "seed": %s, "level": "exploration", "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "note": "the process died, see the replay file"}, "wall_s": 0, "violations": 1}\n' "$id" "${VERIF_TIER:-quick}" "${VERIF_SEED:-1}" >"$here/evidence/$id.json"
    echo "VIOLATION property=$id replay=$trace"
    exit 1
  fi
fi
if [ $rc -eq 0 ] && [ "${VERIF_TIER:-quick}" = thorough ] && build_cov; then
  "$here/target/cov/release/vharness" "$id" --guided
  rc=$?
fi
[ $rc -le 1 ] && exit $rc
exit 3
