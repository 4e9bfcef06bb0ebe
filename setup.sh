#!/bin/bash
# Warms the Go build cache and proves that the harness builds.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/vmc.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
bash "$here/build.sh" "$tmp" && "$tmp/mc" list
