#!/bin/bash
# Makes sure the toolchain works: parses the specification and builds the driver
# (every check builds its own from /repo's working tree).
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
work=$(mktemp -d)
trap 'find "$work" -depth -delete' EXIT
cp driver/*.go "$work/"
sed 's#^module .*#module verif/driver#' /repo/go.mod > "$work/go.mod"
printf 'require github.com/freerware/negotiator v0.0.0\nreplace github.com/freerware/negotiator => /repo\n' >> "$work/go.mod"
cp /repo/go.sum "$work/"
(. /opt/vp/env.sh; cd "$work"; go build -o drv .)
cd spec
for m in MC MCCodec MCPool Trace TraceCodec TracePool; do
  java -Djava.io.tmpdir="$work" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m.tla" > "$work/$m.log" || { cat "$work/$m.log"; exit 1; }
done
echo ready
