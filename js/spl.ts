// Stand-in for the parts of @solana/spl-token an operator script can use.
import { b58enc } from './kit';
import { Connection, PublicKey, SystemProgram, TransactionInstruction } from './web3';

export const TOKEN_PROGRAM_ID = new PublicKey('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA');
export const TOKEN_2022_PROGRAM_ID = new PublicKey('TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb');
export const ASSOCIATED_TOKEN_PROGRAM_ID = new PublicKey('ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL');
export const ACCOUNT_SIZE = 165;
export const MINT_SIZE = 82;
export enum AuthorityType {
  MintTokens = 0,
  FreezeAccount = 1,
  AccountOwner = 2,
  CloseAccount = 3,
}
export enum AccountState {
  Uninitialized = 0,
  Initialized = 1,
  Frozen = 2,
}
class TokenError extends Error {}
export class TokenAccountNotFoundError extends TokenError {
  name = 'TokenAccountNotFoundError';
}
export class TokenInvalidAccountOwnerError extends TokenError {
  name = 'TokenInvalidAccountOwnerError';
}
export class TokenInvalidAccountSizeError extends TokenError {
  name = 'TokenInvalidAccountSizeError';
}
export class TokenInvalidAccountError extends TokenError {
  name = 'TokenInvalidAccountError';
}
export class TokenOwnerOffCurveError extends TokenError {
  name = 'TokenOwnerOffCurveError';
}

export function getAssociatedTokenAddressSync(mint: any, owner: any, off = false, program = TOKEN_PROGRAM_ID, ata = ASSOCIATED_TOKEN_PROGRAM_ID) {
  if (!off && !PublicKey.isOnCurve(owner.toBuffer())) throw new TokenOwnerOffCurveError();
  return PublicKey.findProgramAddressSync([owner.toBuffer(), program.toBuffer(), mint.toBuffer()], ata)[0];
}
export async function getAssociatedTokenAddress(...a: any[]) {
  return (getAssociatedTokenAddressSync as any)(...a);
}
const createAta = (payer: any, ata: any, owner: any, mint: any, program: any, ataProgram: any, data: Buffer) =>
  new TransactionInstruction({
    keys: [
      { pubkey: payer, isSigner: true, isWritable: true },
      { pubkey: ata, isSigner: false, isWritable: true },
      { pubkey: owner, isSigner: false, isWritable: false },
      { pubkey: mint, isSigner: false, isWritable: false },
      { pubkey: SystemProgram.programId, isSigner: false, isWritable: false },
      { pubkey: program, isSigner: false, isWritable: false },
    ],
    programId: ataProgram,
    data,
  });
export const createAssociatedTokenAccountInstruction = (payer: any, ata: any, owner: any, mint: any, p = TOKEN_PROGRAM_ID, ap = ASSOCIATED_TOKEN_PROGRAM_ID) =>
  createAta(payer, ata, owner, mint, p, ap, Buffer.alloc(0));
export const createAssociatedTokenAccountIdempotentInstruction = (payer: any, ata: any, owner: any, mint: any, p = TOKEN_PROGRAM_ID, ap = ASSOCIATED_TOKEN_PROGRAM_ID) =>
  createAta(payer, ata, owner, mint, p, ap, Buffer.from([1]));

const u64 = (x: any) => {
  const b = Buffer.alloc(8);
  b.writeBigUInt64LE(BigInt(x));
  return b;
};
function withOwner(keys: any[], owner: any, multi: any[]) {
  keys.push({ pubkey: owner, isSigner: multi.length === 0, isWritable: false });
  for (const m of multi) keys.push({ pubkey: m.publicKey ?? m, isSigner: true, isWritable: false });
  return keys;
}
const w = (pubkey: any) => ({ pubkey, isSigner: false, isWritable: true });
const r = (pubkey: any) => ({ pubkey, isSigner: false, isWritable: false });
export const createTransferInstruction = (src: any, dst: any, owner: any, amount: any, multi: any[] = [], programId = TOKEN_PROGRAM_ID) =>
  new TransactionInstruction({ keys: withOwner([w(src), w(dst)], owner, multi), programId, data: Buffer.concat([Buffer.from([3]), u64(amount)]) });
export const createTransferCheckedInstruction = (src: any, mint: any, dst: any, owner: any, amount: any, decimals: number, multi: any[] = [], programId = TOKEN_PROGRAM_ID) =>
  new TransactionInstruction({
    keys: withOwner([w(src), r(mint), w(dst)], owner, multi),
    programId,
    data: Buffer.concat([Buffer.from([12]), u64(amount), Buffer.from([decimals])]),
  });
export const createBurnInstruction = (acc: any, mint: any, owner: any, amount: any, multi: any[] = [], programId = TOKEN_PROGRAM_ID) =>
  new TransactionInstruction({ keys: withOwner([w(acc), w(mint)], owner, multi), programId, data: Buffer.concat([Buffer.from([8]), u64(amount)]) });
export const createMintToInstruction = (mint: any, dst: any, authority: any, amount: any, multi: any[] = [], programId = TOKEN_PROGRAM_ID) =>
  new TransactionInstruction({ keys: withOwner([w(mint), w(dst)], authority, multi), programId, data: Buffer.concat([Buffer.from([7]), u64(amount)]) });
export const createSetAuthorityInstruction = (acc: any, current: any, type: AuthorityType, next: any, multi: any[] = [], programId = TOKEN_PROGRAM_ID) =>
  new TransactionInstruction({
    keys: withOwner([w(acc)], current, multi),
    programId,
    data: Buffer.concat([Buffer.from([6, type, next ? 1 : 0]), next ? next.toBuffer() : Buffer.alloc(0)]),
  });

function checked(i: any, size: number, programId: any): Buffer {
  if (!i) throw new TokenAccountNotFoundError();
  if (!i.owner.equals(programId)) throw new TokenInvalidAccountOwnerError();
  if (i.data.length !== size) throw new TokenInvalidAccountSizeError();
  return i.data;
}
const pk = (d: Buffer, o: number) => new PublicKey(d.subarray(o, o + 32));
export function unpackAccount(address: any, info: any, programId = TOKEN_PROGRAM_ID): any {
  const d = checked(info, 165, programId);
  return {
    address,
    mint: pk(d, 0),
    owner: pk(d, 32),
    amount: d.readBigUInt64LE(64),
    delegate: d.readUInt32LE(72) ? pk(d, 76) : null,
    delegatedAmount: d.readBigUInt64LE(121),
    isInitialized: d[108] !== 0,
    isFrozen: d[108] === 2,
    isNative: d.readUInt32LE(109) !== 0,
    rentExemptReserve: null,
    closeAuthority: d.readUInt32LE(129) ? pk(d, 133) : null,
    tlvData: Buffer.alloc(0),
  };
}
export function unpackMint(address: any, info: any, programId = TOKEN_PROGRAM_ID): any {
  const d = checked(info, 82, programId);
  return {
    address,
    mintAuthority: d.readUInt32LE(0) ? pk(d, 4) : null,
    supply: d.readBigUInt64LE(36),
    decimals: d[44],
    isInitialized: d[45] === 1,
    freezeAuthority: d.readUInt32LE(46) ? pk(d, 50) : null,
    tlvData: Buffer.alloc(0),
  };
}
export async function getAccount(c: Connection, address: any, _commitment?: any, programId = TOKEN_PROGRAM_ID): Promise<any> {
  return unpackAccount(address, await c.getAccountInfo(address), programId);
}
export async function getMint(c: Connection, address: any, _commitment?: any, programId = TOKEN_PROGRAM_ID): Promise<any> {
  return unpackMint(address, await c.getAccountInfo(address), programId);
}
export async function getMultipleAccounts(c: Connection, addresses: any[], _commitment?: any, programId = TOKEN_PROGRAM_ID): Promise<any> {
  const infos = await c.getMultipleAccountsInfo(addresses);
  return addresses.map((a, i) => unpackAccount(a, infos[i], programId));
}
export { b58enc };
