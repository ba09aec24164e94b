#!/bin/bash
# Further stage of C24: enumerated schedules under ThreadSanitizer. The threads
# pass the turn on without ordering their memory accesses, so an access of the
# tree to shared memory that is not synchronised shows as a race in every
# schedule. Run by check.sh in /verif/harness.
tmp=$(mktemp -d)
trap '/bin/rm -rf "$tmp"' EXIT
ev=../evidence/C24.json
stage() {
  python3 - "$ev" "$1" "$2" <<'P'
import json,sys
p,n,r=sys.argv[1:]
d=json.load(open(p)); d["coverage"][n]=r; json.dump(d,open(p,"w"),indent=1)
P
}
T=x86_64-unknown-linux-gnu
if ! RUSTFLAGS="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer" \
  cargo +nightly build --release --offline --features plain --target $T --target-dir target-tsan --bin c24 >"$tmp/b" 2>&1; then
  stage tsan "skipped: no build with the sanitizer here"
  exit 0
fi
TSAN_OPTIONS="exitcode=0 halt_on_error=0" MC_THREADS=1 MC_LITE=1 MC_EVIDENCE_DIR=$tmp \
  timeout 600 target-tsan/$T/release/c24 worker C24 quick >"$tmp/o" 2>&1
code=$?
# only races with a frame in the tree's own code count
if python3 - "$tmp/o" >"$tmp/r" <<'P'
import sys,re
n=0
for b in open(sys.argv[1],errors="replace").read().split("=================="):
    if "WARNING: ThreadSanitizer: data race" not in b: continue
    acc=re.split(r"\n\s*\n",b)[:2]
    if any("rusty_rtree::" in "\n".join(a.splitlines()[:14]) for a in acc):
        n+=1
        if n==1: print(b[:2500])
sys.exit(0 if n else 1)
P
then
  mkdir -p ../replays
  { echo "property: C24"; echo "case: whole=1"; echo "stage: tsan"; cat "$tmp/r"; } >../replays/C24-tsan.txt
  cat "$tmp/r"
  stage tsan violation
  echo "VIOLATION property=C24 replay=$(cd .. && pwd)/replays/C24-tsan.txt"
  exit 1
fi
if [ $code = 0 ]; then stage tsan "no race in the tree's code; $(grep ^OK "$tmp/o")"
else tail -3 "$tmp/o"; stage tsan "skipped: ended with $code"; fi
exit 0
