#!/bin/bash
# tools/unfix.sh PROPS SECS COMMIT...: surveys the properties on a copy of /repo with each commit reverted
P=$1; S=$2; shift 2
D=$(mktemp -d /tmp/unfix.XXXXXX); trap 'rm -rf "$D"' EXIT
for c in "$@"; do
  rm -rf "$D/repo"; git clone -q --shared /repo "$D/repo"
  if ! git -C "$D/repo" revert --no-edit -n "$c" >/dev/null 2>&1; then echo "=== $c does not revert: $(git -C /repo log -1 --format=%s "$c")"; continue; fi
  echo "=== reverted $c $(git -C /repo log -1 --format=%s "$c")"
  VSIM_REPO="$D/repo" "$(dirname "$0")/../check.sh" survey "$P" "$S" 2>&1 | cut -c1-300 | head -12
done
