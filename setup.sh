#!/bin/bash
# Builds the MIR driver and the analyser into build/, when they are missing or older than their source.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
b=$here/build
mkdir -p "$b" || exit 1
key=$(cat "$here"/sa/*.rs "$here"/driver/*.rs | sha1sum | cut -d' ' -f1)
[ -f "$b/key" ] && [ "$(cat "$b/key")" = "$key" ] && [ -x "$b/mirdump" ] && [ -x "$b/sa" ] && exit 0
rustc +nightly -O --edition 2021 "$here/driver/mirdump.rs" -o "$b/mirdump.new" || exit 1
rustc +stable -O -Awarnings --edition 2021 "$here/sa/main.rs" -o "$b/sa.new" || exit 1
mv "$b/mirdump.new" "$b/mirdump" && mv "$b/sa.new" "$b/sa" && echo "$key" > "$b/key"
