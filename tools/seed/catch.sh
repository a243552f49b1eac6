#!/bin/bash
# catch.sh [-jN] [ids]: runs, for each planted change, the check of its property against a copy of /repo with the change.
# The copy is mounted over /repo in a mount namespace of its own, so /repo itself stays as it is.
cd /verif/seeded || exit 1
J=2; case "$1" in -j*) J="${1#-j}"; shift;; esac
one() {
  i="$1"
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")}
  d="$(mktemp -d /tmp/catch-XXXXXX)"
  git clone -q /repo "$d/repo" && git -C "$d/repo" apply "/verif/seeded/$i/patch.diff" || { echo "$i DOES NOT APPLY"; rm -rf "$d"; return; }
  t0=$(date +%s)
  out=$(unshare -m bash -c "mount --bind '$d/repo' /repo && cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py '$p' $TIER 2>&1"); rc=$?
  echo "$i $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(($(date +%s)-t0))s :: $(echo "$out" | grep '^#' | head -3 | cut -c1-300 | tr '\n' ' ')$( [ $rc -gt 1 ] && echo "$out" | tail -5)"
  rm -rf "$d"
}
export -f one
ids="$*"; [ -n "$ids" ] || ids="$(ls)"
printf '%s\n' $ids | xargs -P "$J" -I{} bash -c 'one {}'
