#!/bin/bash
# exit 0 when the property holds; the database lives in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/work"
gcc -std=gnu17 -O1 -g -w -I"$PWD/monotone/main/api" -I"$here" -o "$T/demo" "$here/demo.c" "$PWD/_build/libmonotone.a" \
	-lcurl -lssl -lcrypto -lzstd -llz4 -lm -ldl -lpthread || exit 2
timeout 250 "$T/demo" "$T/work"
