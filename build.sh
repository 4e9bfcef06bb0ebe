#!/bin/bash
# build.sh <OUTDIR> [REPO]: builds OUTDIR/mc from the working tree of /repo plus /verif/mc (through an overlay).
# Generated sources (*.pb.go, statik) are regenerated into OUTDIR and laid over, so that nothing in /repo changes.
here=$(cd "$(dirname "$0")" && pwd)
out=$1; repo=${2:-/repo}
set -eo pipefail
. /opt/vp/env.sh
cd "$repo"
gen=$out/gen; mkdir -p "$gen"
for dir in $(find ./proto -name '*.proto' -printf '%h\n' | sort -u); do
  protoc -I proto -I third_party/proto \
    --gocosmos_out=plugins=interfacetype+grpc,Mgoogle/protobuf/any.proto=github.com/cosmos/cosmos-sdk/codec/types:"$gen" \
    --grpc-gateway_out=logtostderr=true:"$gen" \
    $(find "$dir" -maxdepth 1 -name '*.proto' | sort) 2> "$out/protoc.err" || { cat "$out/protoc.err" >&2; exit 1; }
done
g=$gen/github.com/arterynetwork/artr
mkdir -p "$g/client/docs"
statik -src=client/docs/swagger-ui -dest="$g/client/docs" -f -m -ns=swagger > /dev/null
python3 - "$repo" "$g" "$here/mc" "$out/overlay.json" <<'P'
import json, os, sys
repo, g, mc, out = sys.argv[1:]
r = {}
# stale generated files are hidden
for top in ("x", "util"):
    for d, _, fs in os.walk(os.path.join(repo, top)):
        for f in fs:
            if f.endswith(".pb.go") or f.endswith(".pb.gw.go"):
                r[os.path.join(d, f)] = ""
for d, _, fs in os.walk(g):
    for f in fs:
        p = os.path.join(d, f)
        r[os.path.join(repo, os.path.relpath(p, g))] = p
for f in sorted(os.listdir(mc)):
    if f.endswith(".go"):
        r[os.path.join(repo, "zz_verifmc", f)] = os.path.join(mc, f)
json.dump({"Replace": r}, open(out, "w"))
P
tags=testing
if [ -n "$VERIF_RT" ] && [ "$(python3 "$here/rt_overlay.py" "$(go env GOROOT)" "$out" "$out/overlay.json")" = yes ]; then
  tags=testing,verifrt
fi
go build -tags=$tags -overlay "$out/overlay.json" -o "$out/mc" ./zz_verifmc
