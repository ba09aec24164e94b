#!/bin/bash
# check.sh ID quick|thorough: builds the checker of one property against the
# current tree of /repo and runs it. Exit 0: held, 1: VIOLATION, 2: no answer.
cd "$(dirname "$0")/harness" || exit 2
id=$1 tier=${2:-quick}
bin=$(echo "$id" | tr 'A-Z' 'a-z')
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
log=$(mktemp)
trap '/bin/rm -f "$log"' EXIT
if ! cargo build --release --offline --bin "$bin" >"$log" 2>&1; then
  cat "$log"
  # C37 and C40 are about which programs of users compile: the checker is one
  if [[ $id = C37 || $id = C40 ]] && cargo build --release --offline -p rusty-rtree 2>/dev/null; then
    { echo "the library compiles, but programs that use it no longer do:"; cat "$log"; } >"../replays/$id.txt"
    echo "VIOLATION property=$id replay=replays/$id.txt"
    exit 1
  fi
  echo "ENGINE-ERROR the checker of $id does not build"
  exit 2
fi
target/release/"$bin" "$tier"
code=$?
if [ "$code" = 0 ] && [ -f "../extra/$id.sh" ]; then
  bash "../extra/$id.sh" "$tier"
  code=$?
fi
grep "^KNOWN-FINDING: property=$id " ../known_findings.txt
exit $code
