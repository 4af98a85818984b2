#!/bin/bash
# build.sh <dir>: bundles /repo/js-client/src with the stand-ins into <dir>/driver.mjs,
# and with "scripts" as second argument /repo/ts-scripts into <dir>/scripts.mjs and <dir>/scripts/*.cjs
set -e
here=$(cd "$(dirname "$0")" && pwd)
ES=/opt/veriftools/node/node_modules/.bin/esbuild
kit="--alias:@solana/kit=$here/kit.ts --alias:@solana/addresses=$here/kit.ts --alias:@solana/codecs=$here/kit.ts
  --alias:@solana/accounts=$here/kit.ts --alias:@solana/instructions=$here/kit.ts --alias:@solana/signers=$here/kit.ts
  --alias:@solana-program/token=$here/token.ts"
if [ "$2" = scripts ]; then
  mkdir -p "$1/scripts"
  for s in initialize stake unstake withdraw set transfer-orca transfer-orca-to-vault update-xorca-mint-authority generate-keypair upload-image status pending-withdraws; do
    "$ES" /repo/ts-scripts/$s.ts --bundle --platform=node --format=cjs --target=node20 --log-level=warning --define:import.meta.url=XH_URL \
      --alias:@orca-so/xorca=/repo/js-client/src/index.ts '--external:@solana/*' '--external:@solana-program/*' '--external:@irys/*' --outfile="$1/scripts/$s.cjs"
  done
  exec "$ES" "$here/scripts.ts" --bundle --platform=node --format=esm --target=node20 --log-level=warning --outfile="$1/scripts.mjs"
fi
if [ "$2" = web ]; then
  # the client as a browser would run it: no Node globals (host.ts takes them away), every Node module empty
  none=
  for m in $(node -p 'require("module").builtinModules.filter((m) => /^[a-z]+$/.test(m)).join(" ")'); do
    none="$none --alias:$m=$here/absent.cjs --alias:node:$m=$here/absent.cjs"
  done
  exec "$ES" "$here/driver.ts" --bundle --platform=browser --format=esm --target=node20 --log-level=warning --define:XH_WEB=true \
    '--define:process.env.NODE_ENV="development"' --alias:xorca-js-client=/repo/js-client/src/index.ts $kit $none --outfile="$1/driver.web.mjs"
fi
exec "$ES" "$here/driver.ts" --bundle --platform=node --format=esm --target=node20 --log-level=warning \
  --alias:xorca-js-client=/repo/js-client/src/index.ts $kit --outfile="$1/driver.mjs"
