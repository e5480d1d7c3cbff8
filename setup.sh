#!/bin/bash
# warms the build cache; every check builds what it needs by itself
. /opt/vp/env.sh 2>/dev/null
cd "${VERIF_REPO:-/repo}" || exit 1
go build ./... || exit 1
t=$(mktemp -d)
for p in fribidi fontconfig pango pango/fcfonts; do go test -c -vet=off -o "$t/bin" "./$p" >/dev/null 2>&1; done
rm -rf "$t"
exit 0
