// Serves requests (one JSON line each) against the client bundled from /repo/js-client/src.
import { createInterface, input, NodeBuffer, output } from './host';
import { createNoopSigner, getBase58Decoder, SolanaError, SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM } from './kit';
import * as imported from 'xorca-js-client';

const client: any = imported;
console.error = () => {};
console.warn = () => {};
console.info = () => {};
console.log = () => {};

const hex = (b: any) => NodeBuffer.from(b).toString('hex');
const unhex = (s: string) => new Uint8Array(NodeBuffer.from(s, 'hex'));

/** bigint -> "n:1", bytes -> "x:00", signer -> {signer} and back */
function pack(v: any): any {
  if (typeof v === 'bigint') return `n:${v}`;
  if (v instanceof Uint8Array) return `x:${hex(v)}`;
  if (Array.isArray(v)) return v.map(pack);
  if (v && typeof v === 'object') {
    if (typeof v.signTransactions === 'function') return { signer: v.address };
    return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, pack(x)]));
  }
  if (v === undefined) return null;
  if (typeof v === 'function') return 'function';
  return v;
}
function unpack(v: any): any {
  if (typeof v === 'string') {
    if (v.startsWith('n:')) return BigInt(v.slice(2));
    if (v.startsWith('x:')) return unhex(v.slice(2));
    if (v.startsWith('f:')) return Number(v.slice(2));
    return v;
  }
  if (Array.isArray(v)) return v.map(unpack);
  if (v && typeof v === 'object') {
    if (typeof v.signer === 'string') return createNoopSigner(v.signer);
    return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, unpack(x)]));
  }
  return v;
}

// ---- node serving a generated ledger ------------------------------------------------------

let refused = false;
function node(l: any) {
  let served = 0;
  refused = false;
  const info = (a: string, c: any, dflt: string): any => {
    const x = l.accounts[a];
    if (!x) return null;
    let b = unhex(x.data);
    const full = b.length;
    if (c?.dataSlice) b = b.slice(c.dataSlice.offset, c.dataSlice.offset + c.dataSlice.length);
    const enc = c?.encoding ?? dflt;
    let data: any;
    if (enc === 'base64') data = [NodeBuffer.from(b).toString('base64'), 'base64'];
    else if (enc === 'jsonParsed') data = parsed(x.owner, unhex(x.data)) ?? [NodeBuffer.from(b).toString('base64'), 'base64'];
    else {
      if (b.length > 128) throw new Error('Encoded binary (base 58) data should be less than 128 bytes');
      const s = getBase58Decoder().decode(b);
      data = enc === 'base58' ? [s, 'base58'] : s;
    }
    return { executable: false, lamports: BigInt(x.lamports), owner: x.owner, rentEpoch: 0n, space: BigInt(full), data };
  };
  const T = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
  const b58 = (b: Uint8Array) => getBase58Decoder().decode(b);
  const amount = (b: Uint8Array, o: number) => NodeBuffer.from(b).readBigUInt64LE(o);
  const exact = (s: string, d: number) => `${s.slice(0, s.length - d)}.${s.slice(s.length - d)}`.replace(/\.?0*$/, '');
  const ui = (x: bigint, decimals: number) => ({ amount: `${x}`, decimals, uiAmount: null, uiAmountString: exact(`${x}`.padStart(decimals + 1, '0'), decimals) });
  function parsed(owner: string, b: Uint8Array) {
    if (owner !== T) return null;
    if (b.length === 165)
      return { program: 'spl-token', space: 165n, parsed: { type: 'account', info: {
        mint: b58(b.slice(0, 32)), owner: b58(b.slice(32, 64)), state: ['uninitialized', 'initialized', 'frozen'][b[108]],
        isNative: false, tokenAmount: ui(amount(b, 64), 6) } } };
    if (b.length === 82)
      return { program: 'spl-token', space: 82n, parsed: { type: 'mint', info: {
        supply: `${amount(b, 36)}`, decimals: b[44], isInitialized: b[45] === 1 } } };
    return null;
  }
  const send = (f: () => any) => ({
    send: async () => {
      served++;
      if (l.failAfter !== null && l.failAfter !== undefined && served > l.failAfter) {
        refused = true;
        throw new Error('node unavailable');
      }
      return { context: { slot: 1n }, value: f() };
    },
  });
  return {
    getAccountInfo: (a: string, c: any) => send(() => info(a, c, 'binary')),
    getMultipleAccounts: (as: string[], c: any) =>
      send(() => {
        // not an injected fault: a client that asks for too many is at fault itself
        if (l.limit && as.length > 100) {
          throw new Error('Too many inputs provided; max 100');
        }
        return as.map((a) => info(a, c, 'base64'));
      }),
    getTokenAccountBalance: (a: string) =>
      send(() => {
        const x = l.accounts[a];
        if (!x || x.owner !== T || x.data.length !== 330) {
          refused = true;
          throw new Error('could not find account');
        }
        return ui(amount(unhex(x.data), 64), 6);
      }),
    getTokenSupply: (a: string) =>
      send(() => {
        const x = l.accounts[a];
        if (!x || x.owner !== T || x.data.length !== 164) {
          refused = true;
          throw new Error('could not find mint');
        }
        return ui(amount(unhex(x.data), 36), unhex(x.data)[44]);
      }),
  };
}

const ops: Record<string, (q: any) => any> = {
  /** any exported function; a codec is applied to `value` or `bytes` */
  call: (q) => {
    const f = client[q.fn];
    if (typeof f !== 'function') throw new Error(`no exported function ${q.fn}`);
    return f(...unpack(q.args ?? []));
  },
  encode: (q) => client[q.fn]().encode(unpack(q.value)),
  decode: (q) => client[q.fn]().decode(unhex(q.bytes)),
  size: (q) => client[q.fn]().fixedSize ?? null,
  value: (q) => (q.name in client ? client[q.name] : null),
  names: () => Object.keys(client).sort(),
  /** instruction builder followed by its own parser */
  build: (q) => {
    const ix = client[`get${q.name}Instruction`](unpack(q.input), ...(q.config ? [q.config] : []));
    return { ix, parsed: q.parse ? client[`parse${q.name}Instruction`](ix) : null };
  },
  fetch: (q) => client[q.fn](node(q.ledger), ...unpack(q.args ?? [])),
  isError: (q) =>
    client.isXorcaStakingProgramError(
      new SolanaError(q.kind === 'custom' ? SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM : 'other', { index: q.index, code: q.code }),
      { instructions: Object.fromEntries(q.programs.map((p: string, i: number) => [i, { programAddress: p }])) },
      ...(q.want === null ? [] : [q.want])
    ),
  many: async (q) => {
    const out: any[] = [];
    for (const r of q.requests) out.push(await run(r));
    return { raw: out };
  },
};

async function run(q: any): Promise<any> {
  refused = false;
  try {
    const v = await ops[q.op](q);
    return { ok: q.op === 'many' ? v.raw : pack(v), refused };
  } catch (e: any) {
    return { err: String(e?.message ?? e).slice(0, 300), refused };
  }
}

(async () => {
  for await (const line of createInterface({ input })) {
    output.write(JSON.stringify(await run(JSON.parse(line))) + '\n');
  }
})();
