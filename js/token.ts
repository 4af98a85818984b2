// A stand-in for the parts of @solana-program/token the client uses: SPL Token account and mint layouts.
import * as k from './kit';

export const TOKEN_PROGRAM_ADDRESS = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
export const ASSOCIATED_TOKEN_PROGRAM_ADDRESS = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
export enum AccountState {
  Uninitialized,
  Initialized,
  Frozen,
}
const opt = (c: any) => ({ d: k.getOptionDecoder(c[1](), { prefix: k.getU32Decoder(), noneValue: 'zeroes' }), 
  e: k.getOptionEncoder(c[0](), { prefix: k.getU32Encoder(), noneValue: 'zeroes' }) });
const A = [k.getAddressEncoder, k.getAddressDecoder];
const U64 = [k.getU64Encoder, k.getU64Decoder];
export const getTokenDecoder = () =>
  k.getStructDecoder([
    ['mint', k.getAddressDecoder()],
    ['owner', k.getAddressDecoder()],
    ['amount', k.getU64Decoder()],
    ['delegate', opt(A).d],
    ['state', k.getEnumDecoder(AccountState)],
    ['isNative', opt(U64).d],
    ['delegatedAmount', k.getU64Decoder()],
    ['closeAuthority', opt(A).d],
  ]);
export const getTokenEncoder = () =>
  k.getStructEncoder([
    ['mint', k.getAddressEncoder()],
    ['owner', k.getAddressEncoder()],
    ['amount', k.getU64Encoder()],
    ['delegate', opt(A).e],
    ['state', k.getEnumEncoder(AccountState)],
    ['isNative', opt(U64).e],
    ['delegatedAmount', k.getU64Encoder()],
    ['closeAuthority', opt(A).e],
  ]);
export const getTokenCodec = () => k.combineCodec(getTokenEncoder(), getTokenDecoder());
export const getMintDecoder = () =>
  k.getStructDecoder([
    ['mintAuthority', opt(A).d],
    ['supply', k.getU64Decoder()],
    ['decimals', k.getU8Decoder()],
    ['isInitialized', k.getBooleanDecoder()],
    ['freezeAuthority', opt(A).d],
  ]);
export const getMintEncoder = () =>
  k.getStructEncoder([
    ['mintAuthority', opt(A).e],
    ['supply', k.getU64Encoder()],
    ['decimals', k.getU8Encoder()],
    ['isInitialized', k.getBooleanEncoder()],
    ['freezeAuthority', opt(A).e],
  ]);
export const getMintCodec = () => k.combineCodec(getMintEncoder(), getMintDecoder());
export const getTokenSize = () => 165;
export const getMintSize = () => 82;
export const decodeToken = (a: any) => k.decodeAccount(a, getTokenDecoder());
export const decodeMint = (a: any) => k.decodeAccount(a, getMintDecoder());
export const fetchMaybeToken = async (rpc: any, a: any, c?: any) => decodeToken(await k.fetchEncodedAccount(rpc, a, c));
export const fetchMaybeMint = async (rpc: any, a: any, c?: any) => decodeMint(await k.fetchEncodedAccount(rpc, a, c));
export const fetchToken = async (rpc: any, a: any, c?: any) => {
  const r = await fetchMaybeToken(rpc, a, c);
  k.assertAccountExists(r);
  return r;
};
export const fetchMint = async (rpc: any, a: any, c?: any) => {
  const r = await fetchMaybeMint(rpc, a, c);
  k.assertAccountExists(r);
  return r;
};
export const findAssociatedTokenPda = async (s: any, c: any = {}) =>
  k.getProgramDerivedAddress({
    programAddress: c.programAddress ?? ASSOCIATED_TOKEN_PROGRAM_ADDRESS,
    seeds: [s.owner, s.tokenProgram, s.mint].map((x) => k.getAddressEncoder().encode(x)),
  });
