#!/bin/bash
# tlc.sh MODULE [args]: TLC with the CommunityModules, metadata outside the tree
d=$(mktemp -d /tmp/tlcmeta.XXXXXX); trap 'rm -rf "$d"' EXIT
java -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -metadir "$d" "${@:2}" "$1"
