// Stand-in for the parts of @solana/web3.js an operator script can use. Nothing leaves the process:
// the ledger is the case's, and a sent transaction is handed to the harness, which executes it.
import { createHash, createPrivateKey, createPublicKey, randomBytes } from 'node:crypto';
import { b58dec, b58enc, compressedPointBytesAreOnCurve, pdaSync } from './kit';

export interface World {
  accounts: Record<string, { lamports: string; data: string; owner: string }>;
  failAfter: number | null;
  /** after that many requests: 0 all fail, 1 one fails, 2 one is carried out and its answer is lost */
  failKind?: number;
  done?: Set<string>;
  served: number;
  refused: boolean;
  sent: any[];
  /** executes a transaction, replies {err, accounts} */
  execute: (tx: any) => Promise<any>;
}
let world: World;
export const setWorld = (w: World) => (world = w);

export const PUBLIC_KEY_LENGTH = 32;
export const LAMPORTS_PER_SOL = 1000000000;
export class PublicKey {
  static default: PublicKey;
  static unique(): PublicKey {
    return new PublicKey(randomBytes(32));
  }
  b: Uint8Array;
  constructor(v: any) {
    if (v instanceof PublicKey) this.b = v.b;
    else if (typeof v === 'string') {
      let d;
      try {
        d = b58dec(v);
      } catch {
        throw new Error('Non-base58 character');
      }
      if (d.length !== 32) throw new Error('Invalid public key input');
      this.b = Uint8Array.from(d);
    } else if (typeof v === 'number' || typeof v === 'bigint') {
      const h = BigInt(v).toString(16).padStart(64, '0');
      this.b = new Uint8Array(Buffer.from(h, 'hex'));
    } else {
      const d = Uint8Array.from(v);
      if (d.length > 32) throw new Error('Invalid public key input');
      this.b = new Uint8Array(32);
      this.b.set(d, 32 - d.length);
    }
  }
  equals(o: any) {
    return Buffer.from(this.b).equals(Buffer.from(o.b));
  }
  toBase58(): string {
    return b58enc(this.b);
  }
  toString(): string {
    return this.toBase58();
  }
  toJSON() {
    return this.toBase58();
  }
  toBytes() {
    return Uint8Array.from(this.b);
  }
  toBuffer() {
    return Buffer.from(this.b);
  }
  get [Symbol.toStringTag]() {
    return `PublicKey(${this})`;
  }
  static findProgramAddressSync(seeds: any[], program: PublicKey): [PublicKey, number] {
    for (const s of seeds) if (s.length > 32) throw new TypeError('Max seed length exceeded');
    const [a, bump] = pdaSync({ programAddress: program.toBase58(), seeds: seeds.map((s) => Uint8Array.from(s)) });
    return [new PublicKey(a), bump];
  }
  static async findProgramAddress(seeds: any[], program: PublicKey) {
    return PublicKey.findProgramAddressSync(seeds, program);
  }
  static createProgramAddressSync(seeds: any[], program: PublicKey): PublicKey {
    const h = createHash('sha256');
    for (const s of seeds) {
      if (s.length > 32) throw new TypeError('Max seed length exceeded');
      h.update(Buffer.from(s));
    }
    const b = new Uint8Array(h.update(Buffer.from(program.b)).update('ProgramDerivedAddress').digest());
    if (compressedPointBytesAreOnCurve(b)) throw new Error('Invalid seeds, address must fall off the curve');
    return new PublicKey(b);
  }
  static async createProgramAddress(seeds: any[], program: PublicKey) {
    return PublicKey.createProgramAddressSync(seeds, program);
  }
  static isOnCurve(k: any): boolean {
    return compressedPointBytesAreOnCurve(new PublicKey(k).b);
  }
}
PublicKey.default = new PublicKey('11111111111111111111111111111111');

const PKCS8 = Buffer.from('302e020100300506032b657004220420', 'hex');
export function ed25519Public(seed: Uint8Array): Uint8Array {
  const priv = createPrivateKey({ key: Buffer.concat([PKCS8, Buffer.from(seed)]), format: 'der', type: 'pkcs8' });
  const spki = createPublicKey(priv).export({ format: 'der', type: 'spki' });
  return new Uint8Array(spki.subarray(spki.length - 32));
}
export class Keypair {
  constructor(public _k: { publicKey: Uint8Array; secretKey: Uint8Array }) {}
  get publicKey() {
    return new PublicKey(this._k.publicKey);
  }
  get secretKey() {
    return Uint8Array.from(this._k.secretKey);
  }
  static fromSecretKey(sk: Uint8Array, opts: any = {}): Keypair {
    if (sk.byteLength !== 64) throw new Error('bad secret key size');
    const publicKey = sk.slice(32, 64);
    // the keys of wallets the case did not generate (the deployer) have no known seed
    const stand = sk.slice(0, 32).every((x) => x === 0xfa);
    if (!opts.skipValidation && !stand) {
      const p = ed25519Public(sk.slice(0, 32));
      if (!Buffer.from(p).equals(Buffer.from(publicKey))) throw new Error('provided secretKey is invalid');
    }
    return new Keypair({ publicKey, secretKey: Uint8Array.from(sk) });
  }
  static fromSeed(seed: Uint8Array): Keypair {
    const publicKey = ed25519Public(seed);
    return new Keypair({ publicKey, secretKey: Uint8Array.from([...seed, ...publicKey]) });
  }
  static generate() {
    return Keypair.fromSeed(randomBytes(32));
  }
}

export class TransactionInstruction {
  keys: any[];
  programId: PublicKey;
  data: Buffer;
  constructor(o: any) {
    this.keys = o.keys;
    this.programId = o.programId;
    this.data = o.data ?? Buffer.alloc(0);
  }
}
export class Transaction {
  instructions: TransactionInstruction[] = [];
  feePayer?: PublicKey;
  recentBlockhash?: string;
  lastValidBlockHeight?: number;
  signed = new Set<string>();
  constructor(o: any = {}) {
    this.feePayer = o.feePayer;
    this.recentBlockhash = o.recentBlockhash ?? o.blockhash;
  }
  add(...items: any[]) {
    if (items.length === 0) throw new Error('No instructions');
    for (const i of items) {
      if (i instanceof Transaction) this.instructions.push(...i.instructions);
      else this.instructions.push(i instanceof TransactionInstruction ? i : new TransactionInstruction(i));
    }
    return this;
  }
  payer(): PublicKey {
    if (!this.feePayer) throw new Error('Transaction fee payer required');
    return this.feePayer;
  }
  required(): Set<string> {
    const s = new Set<string>([this.payer().toBase58()]);
    for (const i of this.instructions) for (const k of i.keys) if (k.isSigner) s.add(k.pubkey.toBase58());
    return s;
  }
  sign(...signers: Keypair[]) {
    this.signed.clear();
    this.partialSign(...signers);
  }
  partialSign(...signers: Keypair[]) {
    if (signers.length === 0) throw new Error('No signers');
    if (!this.recentBlockhash) throw new Error('Transaction recentBlockhash required');
    const req = this.required();
    for (const s of signers) {
      const k = s.publicKey.toBase58();
      if (!req.has(k)) throw new Error(`unknown signer: ${k}`);
      this.signed.add(k);
    }
  }
  setSigners() {}
  serialize(o: any = {}): Buffer {
    if (o.requireAllSignatures !== false) this.check();
    const b: any = Buffer.alloc(1);
    b.tx = this;
    return b;
  }
  check() {
    for (const k of this.required()) if (!this.signed.has(k)) throw new Error(`Signature verification failed.\nMissing signature for public key [\`${k}\`].`);
  }
}

export class SendTransactionError extends Error {
  logs: string[] = [];
}
const down = () => new Error('503 Service Unavailable');
/** counts a request; true: it is carried out, but the answer is lost */
const gate = (): boolean => {
  world.served++;
  const n = world.failAfter;
  if (n === null || n === undefined || (world.failKind ? world.served !== n + 1 : world.served <= n)) return false;
  world.refused = true;
  if (world.failKind !== 2) throw down();
  return true;
};
const call = <T>(f: () => T): T => {
  if (gate()) throw down();
  return f();
};
const blockhash = () => b58enc(Buffer.concat([Buffer.alloc(30, 0xcc), Buffer.from([world.served >> 8, world.served & 255])]));
const TOKEN = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
const key = (k: any): string => (k instanceof PublicKey ? k : new PublicKey(k)).toBase58();
function info(k: any): any {
  const a = world.accounts[key(k)];
  if (!a) return null;
  return {
    data: Buffer.from(a.data, 'hex'),
    executable: false,
    lamports: Number(a.lamports),
    owner: new PublicKey(a.owner),
    rentEpoch: 0,
    space: a.data.length / 2,
  };
}
const ctx = (value: any) => ({ context: { slot: 1 }, value });
const amount = (amount: bigint, decimals: number) => {
  const s = `${amount}`.padStart(decimals + 1, '0');
  const [whole, part] = [s.slice(0, s.length - decimals), s.slice(s.length - decimals).replace(/0+$/, '')];
  return { amount: `${amount}`, decimals, uiAmount: Number(amount) / 10 ** decimals, uiAmountString: part ? `${whole}.${part}` : whole };
};
export class Connection {
  commitment: any;
  rpcEndpoint: string;
  constructor(url: string, c?: any) {
    if (!/^https?:/.test(url)) throw new TypeError('Endpoint URL must start with `http:` or `https:`.');
    this.rpcEndpoint = url;
    this.commitment = typeof c === 'string' ? c : c?.commitment;
  }
  async getAccountInfo(k: PublicKey, _c?: any): Promise<any> {
    return call(() => info(k));
  }
  async getAccountInfoAndContext(k: PublicKey, _c?: any): Promise<any> {
    return call(() => ctx(info(k)));
  }
  async getMultipleAccountsInfo(ks: PublicKey[], _c?: any): Promise<any> {
    return call(() => {
      if (ks.length > 100) throw new Error('Too many inputs provided; max 100');
      return ks.map(info);
    });
  }
  async getParsedAccountInfo(k: PublicKey, _c?: any): Promise<any> {
    return call(() => {
      const i = info(k);
      if (i && i.owner.toBase58() === TOKEN) {
        const d: Buffer = i.data;
        const opt = (o: number) => (d.readUInt32LE(o) ? b58enc(d.subarray(o + 4, o + 36)) : null);
        const parsed = (type: string, v: any) => (i.data = { program: 'spl-token', space: d.length, parsed: { type, info: v } });
        if (d.length === 82)
          parsed('mint', { mintAuthority: opt(0), supply: `${d.readBigUInt64LE(36)}`, decimals: d[44], isInitialized: d[45] === 1, freezeAuthority: opt(46) });
        if (d.length === 165)
          parsed('account', {
            isNative: false,
            mint: b58enc(d.subarray(0, 32)),
            owner: b58enc(d.subarray(32, 64)),
            state: ['uninitialized', 'initialized', 'frozen'][d[108]],
            tokenAmount: amount(d.readBigUInt64LE(64), 6),
          });
      }
      return ctx(i);
    });
  }
  async getTokenAccountBalance(k: PublicKey, _c?: any): Promise<any> {
    return call(() => {
      const i = info(k);
      if (!i || i.owner.toBase58() !== TOKEN || i.data.length !== 165) throw new Error('failed to get token account balance: Invalid param: could not find account');
      return ctx(amount(i.data.readBigUInt64LE(64), 6));
    });
  }
  async getTokenSupply(k: PublicKey, _c?: any): Promise<any> {
    return call(() => {
      const i = info(k);
      if (!i || i.owner.toBase58() !== TOKEN || i.data.length !== 82) throw new Error('failed to get token supply: Invalid param: could not find mint');
      return ctx(amount(i.data.readBigUInt64LE(36), i.data[44]));
    });
  }
  async getBalance(k: PublicKey, _c?: any): Promise<number> {
    return call(() => info(k)?.lamports ?? 0);
  }
  async getMinimumBalanceForRentExemption(n: number, _c?: any): Promise<number> {
    return call(() => (n + 128) * 6960);
  }
  async getSlot(_c?: any) {
    return call(() => 1);
  }
  async getBlockHeight(_c?: any) {
    return call(() => 1);
  }
  async getMultipleAccountsInfoAndContext(ks: PublicKey[], _c?: any): Promise<any> {
    return ctx(await this.getMultipleAccountsInfo(ks));
  }
  async getLatestBlockhash(_c?: any) {
    return call(() => ({ blockhash: blockhash(), lastValidBlockHeight: 100 }));
  }
  async getRecentBlockhash(_c?: any) {
    return call(() => ({ blockhash: blockhash(), feeCalculator: { lamportsPerSignature: 5000 } }));
  }
  async simulateTransaction(): Promise<any> {
    throw new Error('simulation is not served');
  }
  async sendTransaction(tx: Transaction, signers: Keypair[], _o?: any): Promise<string> {
    if (!tx.feePayer && signers.length > 0) tx.feePayer = signers[0].publicKey;
    // as the real one: a new blockhash whatever the transaction holds, so sending twice executes twice
    tx.recentBlockhash = (await this.getLatestBlockhash()).blockhash;
    tx.sign(...signers);
    return this.sendRawTransaction(tx.serialize(), _o);
  }
  async sendRawTransaction(raw: any, _o?: any): Promise<string> {
    const tx: Transaction = raw.tx;
    const lost = gate();
    const msg = {
      feePayer: tx.payer().toBase58(),
      instructions: tx.instructions.map((i) => ({
        program: key(i.programId),
        keys: i.keys.map((k: any) => ({ key: key(k.pubkey), signer: !!k.isSigner, writable: !!k.isWritable })),
        data: Buffer.from(i.data).toString('hex'),
      })),
    };
    const id = tx.recentBlockhash + JSON.stringify(msg);
    world.done ??= new Set();
    if (world.done.has(id)) throw new SendTransactionError('failed to send transaction: Transaction simulation failed: This transaction has already been processed');
    const r = await world.execute(msg);
    if (!r.err) world.done.add(id);
    if (lost) {
      if (!r.err) world.accounts = r.accounts;
      throw down();
    }
    if (r.err) throw new SendTransactionError(`failed to send transaction: Transaction simulation failed: ${r.err}`);
    world.accounts = r.accounts;
    return '5VERv8NMvzbJMEkV8xnrLkEaWRtSz9CosKDYjCJjBRnbJLgp8uirBgmQpjKhoR4tjF3ZpRzrFmBV6UjKdiSZkQUW';
  }
  async confirmTransaction(_s: any, _c?: any): Promise<any> {
    return call(() => ctx({ err: null }));
  }
  async getSignatureStatus(_s: any): Promise<any> {
    return call(() => ctx({ err: null, confirmationStatus: 'confirmed', confirmations: 1, slot: 1 }));
  }
}
export async function sendAndConfirmTransaction(c: Connection, tx: Transaction, signers: Keypair[], o?: any): Promise<string> {
  const s = await c.sendTransaction(tx, signers, o);
  await c.confirmTransaction(s, o?.commitment);
  return s;
}
export async function sendAndConfirmRawTransaction(c: Connection, raw: any, o?: any): Promise<string> {
  const s = await c.sendRawTransaction(raw, o);
  await c.confirmTransaction(s);
  return s;
}
export class SystemProgram {
  static programId = PublicKey.default;
  static transfer(p: any) {
    const data = Buffer.alloc(12);
    data.writeUInt32LE(2, 0);
    data.writeBigUInt64LE(BigInt(p.lamports), 4);
    return new TransactionInstruction({
      keys: [
        { pubkey: p.fromPubkey, isSigner: true, isWritable: true },
        { pubkey: p.toPubkey, isSigner: false, isWritable: true },
      ],
      programId: SystemProgram.programId,
      data,
    });
  }
}
export class ComputeBudgetProgram {
  static programId = new PublicKey('ComputeBudget111111111111111111111111111111');
  static make(tag: number, n: bigint, size: number) {
    const data = Buffer.alloc(1 + size);
    data[0] = tag;
    size === 8 ? data.writeBigUInt64LE(n, 1) : data.writeUInt32LE(Number(n), 1);
    return new TransactionInstruction({ keys: [], programId: ComputeBudgetProgram.programId, data });
  }
  static setComputeUnitLimit(p: any) {
    return ComputeBudgetProgram.make(2, BigInt(p.units), 4);
  }
  static setComputeUnitPrice(p: any) {
    return ComputeBudgetProgram.make(3, BigInt(p.microLamports), 8);
  }
}
export const clusterApiUrl = (c = 'devnet') => `https://api.${c}.solana.com`;
export const SYSVAR_RENT_PUBKEY = new PublicKey('SysvarRent111111111111111111111111111111111');
export const SYSVAR_CLOCK_PUBKEY = new PublicKey('SysvarC1ock11111111111111111111111111111111');
