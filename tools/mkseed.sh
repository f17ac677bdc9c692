#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks": makes seeded/ID from the uncommitted change in /repo, and undoes it.
cd "$(dirname "$0")/.." || exit 2
mkdir -p "seeded/$1"
git -C /repo diff > "seeded/$1/patch.diff"
git -C /repo checkout -- .
cp tools/seed_template/{Cargo.toml,Cargo.lock,demo.sh} "seeded/$1/"
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
ls "seeded/$1"
