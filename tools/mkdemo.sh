#!/bin/bash
# mkdemo.sh ID: save the change in /repo's working tree as planted bug ID, with
# the demonstration kit.  main.rs and meta.json are written by hand.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
d="$here/../seeded/$1"
mkdir -p "$d"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
cp -r "$here/demokit/." "$T/"; rm "$T/demo.sh"
for x in core isal simrt shims; do cp -r "$here/../sim/$x" "$T/"; done
grep -v '^name = "dst"' "$here/../sim/Cargo.lock" >/dev/null
sed 's/^name = "dst"/name = "demo"/' "$here/../sim/Cargo.lock" > "$T/Cargo.lock"
tar --sort=name --mtime=@0 --owner=0 --group=0 -C "$T" -cf - . | gzip -n9 > "$d/kit.tgz"
cp "$here/demokit/demo.sh" "$d/demo.sh"; chmod +x "$d/demo.sh"
if [ -n "$(git -C /repo diff)" ]; then git -C /repo diff > "$d/patch.diff"; fi
ls -la "$d"
