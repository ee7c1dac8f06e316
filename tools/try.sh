#!/bin/bash
# try.sh PATCH [-R] PROP...: run checks against a scratch copy of /repo with a patch applied.
patch=$(realpath "$1"); shift
rev=; [ "$1" = -R ] && { rev=-R; shift; }
T=${TRY_DIR:-/tmp/try}; mkdir -p $T/verif
case $T in /tmp/*) rm -rf "$T/repo";; *) exit 3;; esac
mkdir -p $T/repo; (cd /repo && tar cf - --exclude=./target --exclude=./.git .) | tar xf - -C $T/repo
(cd $T/repo && git init -q . 2>/dev/null; git -C $T/repo apply $rev "$patch") || { echo "patch does not apply"; exit 3; }
(cd /verif && tar cf - --exclude=target --exclude=.git --exclude=seeded --exclude=evidence --exclude=replays .) | tar xf - -C $T/verif
sed -i "s#path = \"/repo\"#path = \"$T/repo\"#" $T/verif/symex/Cargo.toml $T/verif/kani/Cargo.toml
for p in "$@"; do
  s=$(date +%s)
  timeout 890 python3 $T/verif/check.py $p --tier ${TIER:-quick} > $T/$p.log 2>&1
  rc=$?
  echo "$(basename $(dirname $patch))/$(basename $patch) $p -> $rc ($(( $(date +%s)-s )) s) $(grep -B1 -E '^VIOLATION' $T/$p.log | head -1 | cut -c1-220) $( [ $rc = 2 ] && tail -2 $T/$p.log | cut -c1-400)"
done
