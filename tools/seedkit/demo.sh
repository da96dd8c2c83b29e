#!/bin/bash
set -e
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
tar xzf "$here/kit.tgz" -C "$w"
bash "$w/kit/make.sh" "$w" "$here/demo.cpp" @SRCS@
cd "$w/run"
timeout 200 "$w/demo"
