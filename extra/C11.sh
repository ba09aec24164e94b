#!/bin/bash
# Further stages of C11: the same executions under AddressSanitizer, and, in the
# thorough tier, under Miri. Run by check.sh in /verif/harness.
tier=$1
tmp=$(mktemp -d)
trap '/bin/rm -rf "$tmp"' EXIT
ev=../evidence/C11.json

stage() { # name, result
  python3 - "$ev" "$1" "$2" <<'P'
import json,sys
p,n,r=sys.argv[1:]
d=json.load(open(p)); d["coverage"][n]=r; json.dump(d,open(p,"w"),indent=1)
P
}
bad() { # name, log
  mkdir -p ../replays
  { echo "property: C11"; echo "case: whole=1"; echo "stage: $1"; cat "$2"; } >../replays/C11-$1.txt
  head -c 3000 "$2"
  stage "$1" "violation"
  echo "VIOLATION property=C11 replay=$(cd .. && pwd)/replays/C11-$1.txt"
  exit 1
}

T=x86_64-unknown-linux-gnu
if RUSTFLAGS=-Zsanitizer=address cargo +nightly build --release --offline --features plain --target $T --target-dir target-asan --bin c11 >"$tmp/b" 2>&1; then
  ASAN_OPTIONS=abort_on_error=0:exitcode=77:detect_leaks=0 MC_EVIDENCE_DIR=$tmp MC_LITE=1 \
    timeout 600 target-asan/$T/release/c11 worker C11 quick >"$tmp/o" 2>&1
  code=$?
  if [ $code = 0 ]; then stage asan "$(grep ^OK "$tmp/o")"
  elif grep -q "failed to allocate\|ReserveShadowMemoryRange\|Shadow memory range" "$tmp/o"; then stage asan "skipped: no room for the shadow memory here"
  elif [ $code = 1 ] || grep -q "ERROR: AddressSanitizer" "$tmp/o"; then bad asan "$tmp/o"
  else cat "$tmp/o" | tail -5; stage asan "skipped: ended with $code"; fi
else
  stage asan "skipped: no build with the sanitizer here"
fi

[ "$tier" = thorough ] || exit 0
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows" MC_EVIDENCE_DIR=$tmp MC_LITE=2
miri() { timeout 3600 cargo +nightly miri run --offline --features plain --target-dir target-miri --bin c11 -- "$@"; }
miri help >"$tmp/b" 2>&1
if ! grep -q "^usage:" "$tmp/b"; then
  stage miri "skipped: not available here"
  exit 0
fi
for i in 0 1 2 3 4 5 6 7; do MC_PART=$i/8 miri worker C11 quick >"$tmp/m$i" 2>&1 & done
wait
for i in 0 1 2 3 4 5 6 7; do
  if grep -q "Undefined Behavior\|^VIOLATION" "$tmp/m$i"; then bad miri "$tmp/m$i"; fi
done
stage miri "$(grep -h ^OK "$tmp"/m? | tr '\n' ';')"
exit 0
