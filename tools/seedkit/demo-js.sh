#!/bin/bash
# Bundles the JavaScript client of the current directory with the stand-ins beside this file and runs demo.ts.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
kit=$here/kit.ts
/opt/veriftools/node/node_modules/.bin/esbuild "$here/demo.ts" --bundle --platform=node --format=esm --target=node20 --log-level=warning \
  --alias:xorca-js-client="$repo/js-client/src/index.ts" \
  --alias:@solana/kit="$kit" --alias:@solana/addresses="$kit" --alias:@solana/codecs="$kit" \
  --alias:@solana/accounts="$kit" --alias:@solana/instructions="$kit" --alias:@solana/signers="$kit" \
  --alias:@solana-program/token="$here/token.ts" --outfile="$work/demo.mjs" || exit 2
timeout 60 node "$work/demo.mjs"
