#!/bin/bash
# try_iso.sh PATCH PROPERTY...: run checks with PATCH applied, on private copies of /repo and /verif mounted over the
# originals in a namespace of its own (the live trees stay as they are). PATCH "-" means none.
p=$1; shift
w=$(mktemp -d /tmp/iso.XXXXXX)
cp -a /repo "$w/repo"
mkdir "$w/verif"
cp -a /verif/. "$w/verif/"
[ "$p" = - ] || git -C "$w/repo" apply "$p" || exit 1
unshare -rm bash -s "$w" "$(basename "$(dirname "$p")")" "$@" <<'S'
w=$1; b=$2; shift 2
mount --bind "$w/repo" /repo && mount --bind "$w/verif" /verif || exit 1
cd /verif
for i in "$@"; do
  s=$(date +%s)
  out=$(VERIF_SEED=${VERIF_SEED:-1} timeout 1500 ./check.sh $i 2>&1); rc=$?
  echo "$b $i rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -E "VIOLATION|^ERROR|HARNESS|^  [a-z_0-9]+:" | cut -c1-200 | tr '\n' '|')"
done
S
case $w in /tmp/iso.*) rm -rf "$w";; esac
