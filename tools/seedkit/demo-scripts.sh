#!/bin/bash
# Bundles the operator scripts of the current directory, runs them against the stand-ins beside this file, and judges with demo.ts.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
ES=/opt/veriftools/node/node_modules/.bin/esbuild
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir "$work/scripts"
for s in initialize stake unstake withdraw set transfer-orca transfer-orca-to-vault update-xorca-mint-authority generate-keypair upload-image status pending-withdraws; do
  "$ES" "$repo/ts-scripts/$s.ts" --bundle --platform=node --format=cjs --target=node20 --log-level=warning --define:import.meta.url=XH_URL \
    --alias:@orca-so/xorca="$repo/js-client/src/index.ts" '--external:@solana/*' '--external:@solana-program/*' '--external:@irys/*' --outfile="$work/scripts/$s.cjs" || exit 2
done
"$ES" "$here/scripts.ts" --bundle --platform=node --format=esm --target=node20 --log-level=warning --outfile="$work/scripts.mjs" || exit 2
"$ES" "$here/demo.ts" --bundle --platform=node --format=esm --target=node20 --log-level=warning --outfile="$work/demo.mjs" || exit 2
timeout 60 node "$work/demo.mjs"
