#!/bin/bash
# mkseed.sh <id> rust|client|fetch|js|scripts <demo source> : assembles seeded/<id>/ around a demonstration source
set -e
v=$(cd "$(dirname "$0")/.." && pwd); d=$v/seeded/$1; k=$v/tools/seedkit
mkdir -p "$d"
case $2 in
 rust) mkdir -p "$d/src" "$d/vendor"; cp -r "$v/vendor/." "$d/vendor/"; cp "$v/harness/src/svm.rs" "$v/harness/src/world.rs" "$d/src/"
   cp "$3" "$d/src/main.rs"; cp "$k/Cargo-rust.toml" "$d/Cargo.toml"; cp "$v/harness/Cargo.lock" "$d/"; cp "$k/rustc-wrapper.sh" "$d/"; cp "$k/demo-rust.sh" "$d/demo.sh" ;;
 client) mkdir -p "$d/src"; cp "$3" "$d/src/main.rs"; cp "$k/Cargo-client.toml" "$d/Cargo.toml"; cp "$v/harness/Cargo.lock" "$d/"; cp "$k/demo-client.sh" "$d/demo.sh" ;;
 fetch) mkdir -p "$d/src"; cp "$3" "$d/src/main.rs"; cp "$k/Cargo-fetch.toml" "$d/Cargo.toml"; cp "$v/harness-fetch/Cargo.lock" "$d/"; cp "$k/demo-client.sh" "$d/demo.sh" ;;
 js) cp "$3" "$d/demo.ts"; cp "$v/js/kit.ts" "$v/js/host.ts" "$v/js/token.ts" "$d/"; cp "$k/demo-js.sh" "$d/demo.sh" ;;
 scripts) cp "$3" "$d/demo.ts"; cp "$v"/js/{kit,host,token,web3,spl,scripts}.ts "$d/"; cp "$k/demo-scripts.sh" "$d/demo.sh" ;;
esac
chmod +x "$d/demo.sh"
