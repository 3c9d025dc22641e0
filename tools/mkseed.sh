#!/bin/bash
# mkseed.sh <id>: puts the demonstration kit beside seeded/<id>/src/main.rs
d=/verif/seeded/$1
for f in Cargo.toml Cargo.lock demo.sh; do cp /verif/tools/seedkit/$f "$d"/; done
cp /verif/tools/seedkit/src/kit.rs /verif/mc/src/vm.rs /verif/mc/src/proto.rs "$d"/src/
rm -rf "$d"/pwstub "$d"/shim
cp -r /verif/pwstub /verif/shim "$d"/
rm -rf "$d"/pwstub/target "$d"/shim/target
chmod +x "$d"/demo.sh
