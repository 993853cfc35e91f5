#!/bin/bash
# mut.sh PROP FILE SED-EXPR : try a mutation in a scratch copy (development aid)
set -e
D=$(mktemp -d /tmp/mut.XXXX); cp -a /repo/include "$D/include"
sed -i -E "$3" "$D/include/fitoria/$2"; diff -r /repo/include "$D/include" || true
FITORIA_REPO=$D python3-vt /verif/check.py "$1" quick || true
rm -rf "$D"
