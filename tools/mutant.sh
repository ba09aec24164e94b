#!/bin/bash
# mutant.sh PATCH ID[:tier]...: runs checks against a scratch copy of /repo with
# a patch applied. Prints one line per check. The copies are kept under
# /tmp/mut for the next run; remove that directory when done.
patch=$(realpath "$1" 2>/dev/null || echo "$1"); [ "$1" = - ] && patch=-; shift
m=/tmp/mut
mkdir -p $m/verif
cd /verif || exit 2
tar cf - --exclude=./seeded --exclude=./.git --exclude='./harness/target*' --exclude=./evidence . | tar xf - -C $m/verif
sed -i "s#path = \"/repo\"#path = \"$m/repo\"#" $m/verif/harness/Cargo.toml
mkdir -p $m/repo
( cd /repo && git archive HEAD ) > $m/r.tar
/bin/rm -rf /tmp/mut/repo.new
mkdir -p $m/repo.new && tar xf $m/r.tar -C $m/repo.new
if [ "$patch" != - ]; then ( cd $m/repo.new && git apply --unsafe-paths --directory=$m/repo.new "$patch" 2>/dev/null || patch -p1 -s <"$patch" ) || { echo "patch does not apply"; exit 2; }; fi
# keep unchanged files' times
rsync -rc --delete --exclude=/target $m/repo.new/ $m/repo/ 2>/dev/null || { /bin/rm -rf /tmp/mut/repo/src; cp -r $m/repo.new/. $m/repo/; }
for c in "$@"; do
  id=${c%%:*} tier=quick
  case $c in *:*) tier=${c#*:};; esac
  out=$(cd $m/verif && MC_QUIET=1 ./check.sh $id $tier 2>&1)
  code=$?
  echo "$(basename "$(dirname "$patch")") $id $tier exit=$code $(echo "$out" | grep -E '^(  |VIOLATION|ENGINE|OK)' | head -3 | cut -c1-300 | tr '\n' '|')"
done
