#!/bin/bash
# development aid: mkseed.sh <id> <kind core|lib|mac> <edit.py> <main.rs> <property> <needs> <breaks>
# edit.py is run in a copy of /repo; the diff becomes the patch.
set -eu
S=/verif/seeded/$1; R=/tmp/seedrepo
if [ ! -d $R ]; then cp -a /repo $R; fi
git -C $R checkout -q -- . ; git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
mkdir -p $S
(cd $R && python3 $3) ; git -C $R diff > $S/patch.diff; git -C $R checkout -q -- .
cp $4 $S/main.rs; cp /verif/tools/demo_template.sh $S/demo.sh
case $2 in
 core) D='stylist-core = { path = "@REPO@/packages/stylist-core", features = ["parser"] }';;
 lib) D='stylist-core = { path = "@REPO@/packages/stylist-core", features = ["parser"] }
stylist = { path = "@REPO@/packages/stylist", features = ["parser", "ssr", "hydration"] }
serde_json = "1"';;
 mac) D='stylist = { path = "@REPO@/packages/stylist", features = ["parser", "ssr", "macros"] }';;
esac
cat > $S/Cargo.toml.in <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
$D
T
python3 - "$S/meta.json" "$5" "$6" "$7" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'))
P
wc -l $S/patch.diff
