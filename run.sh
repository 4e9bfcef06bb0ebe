#!/bin/bash
# run.sh <PROPERTY-ID> : build the harness against /repo's working tree and decide one property.
# Exit 0: held on everything explored; 1 + VIOLATION line: broken; anything else: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
. /opt/vp/env.sh
[ "$id" = C23 ] && export VERIF_RT=1
tmp=$(mktemp -d /tmp/vmc.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
bash "$here/build.sh" "$tmp" 1>&2 || { echo "build failed" >&2; exit 3; }
mkdir -p "$here/evidence"
export VERIF_PROP=$id VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
export VERIF_EVIDENCE=${VERIF_EVIDENCE:-$here/evidence/$id.json} VERIF_REPLAY=${VERIF_REPLAY:-$here/evidence/replay-$id.json}
export VERIF_KNOWN=$here/known_findings.txt HOME="$tmp" TMPDIR="$tmp"
rm -f "$VERIF_REPLAY"
"$tmp/mc"
rc=$?
exit $rc
