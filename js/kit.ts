// A stand-in for the parts of @solana/kit, @solana/addresses and the codec packages that the client
// uses (and some it might). It follows the published behaviour: little-endian codecs with range
// checks, 32-byte base58 addresses, u8 enum and union tags, PDA search from bump 255 with the
// off-curve test, and the base64 account encoding of the RPC.
import { createHash, NodeBuffer } from './host';

export class SolanaError extends Error {
  context: any;
  constructor(code: number | string, context: any = {}) {
    super(`Solana error ${code} ${JSON.stringify(context, (_k, v) => (typeof v === 'bigint' ? `${v}` : v))}`);
    this.name = 'SolanaError';
    this.context = { __code: code, ...context };
  }
}
export const SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM = 4615026;
export function isSolanaError(e: any, code?: any): e is SolanaError {
  return e instanceof SolanaError && (code === undefined || e.context.__code === code);
}
export function isProgramError(error: any, message: any, programAddress: any, code?: number): boolean {
  if (!isSolanaError(error, SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM)) return false;
  const ix = message.instructions[error.context.index]?.programAddress;
  if (!ix || ix !== programAddress) return false;
  return typeof code === 'undefined' || error.context.code === code;
}
const fail = (m: string, c: any = {}) => {
  throw new SolanaError(m, c);
};

// ---- codecs -------------------------------------------------------------------------------

type Enc = any;
type Dec = any;

export function getEncodedSize(value: any, enc: Enc): number {
  return 'fixedSize' in enc ? enc.fixedSize : enc.getSizeFromValue(value);
}
export function createEncoder(e: any): Enc {
  return Object.freeze({
    ...e,
    encode: (value: any) => {
      const bytes = new Uint8Array(getEncodedSize(value, e));
      e.write(value, bytes, 0);
      return bytes;
    },
  });
}
export function createDecoder(d: any): Dec {
  return Object.freeze({ ...d, decode: (bytes: any, offset = 0) => d.read(bytes, offset)[0] });
}
export function createCodec(c: any) {
  return Object.freeze({
    ...c,
    decode: (bytes: any, offset = 0) => c.read(bytes, offset)[0],
    encode: (value: any) => {
      const bytes = new Uint8Array(getEncodedSize(value, c));
      c.write(value, bytes, 0);
      return bytes;
    },
  });
}
export const isFixedSize = (c: any) => 'fixedSize' in c && typeof c.fixedSize === 'number';
export const isVariableSize = (c: any) => !isFixedSize(c);
export function combineCodec(encoder: Enc, decoder: Dec): any {
  if (isFixedSize(encoder) !== isFixedSize(decoder)) fail('encoder/decoder size compatibility mismatch');
  if (isFixedSize(encoder) && encoder.fixedSize !== decoder.fixedSize) fail('encoder/decoder fixed size mismatch');
  return { ...decoder, ...encoder, decode: decoder.decode, encode: encoder.encode, read: decoder.read, write: encoder.write };
}
export function transformEncoder(e: Enc, unmap: any): Enc {
  return createEncoder({
    ...(isVariableSize(e) ? { ...e, getSizeFromValue: (v: any) => e.getSizeFromValue(unmap(v)) } : e),
    write: (v: any, b: any, o: number) => e.write(unmap(v), b, o),
  });
}
export function transformDecoder(d: Dec, map: any): Dec {
  return createDecoder({
    ...d,
    read: (b: any, o: number) => {
      const [v, n] = d.read(b, o);
      return [map(v, b, o), n];
    },
  });
}
export function transformCodec(c: any, unmap: any, map?: any): any {
  return createCodec({ ...transformEncoder(c, unmap), read: map ? transformDecoder(c, map).read : c.read });
}
function need(b: any, o: number, n: number) {
  if (b.length - o <= 0 && n > 0) fail('cannot decode empty byte array');
  if (b.length - o < n) fail('byte array too short', { expected: n, got: b.length - o });
}

function num(size: number, min: bigint, max: bigint, big: boolean) {
  const signed = min < 0n;
  const check = (v: any) => {
    if (typeof v !== 'number' && typeof v !== 'bigint') fail('not a number', { v });
    const x = typeof v === 'bigint' ? v : BigInt(v); // throws on fractions
    if (x < min || x > max) fail('number out of range', { v: String(v) });
    return x;
  };
  const enc = (cfg: any = {}) =>
    createEncoder({
      fixedSize: size,
      write: (v: any, b: any, o: number) => {
        let x = BigInt.asUintN(size * 8, check(v));
        for (let i = 0; i < size; i++) {
          b[o + (cfg.endian === 1 ? size - 1 - i : i)] = Number(x & 255n);
          x >>= 8n;
        }
        return o + size;
      },
    });
  const dec = (cfg: any = {}) =>
    createDecoder({
      fixedSize: size,
      read: (b: any, o = 0) => {
        need(b, o, size);
        let x = 0n;
        for (let i = size - 1; i >= 0; i--) x = (x << 8n) | BigInt(b[o + (cfg.endian === 1 ? size - 1 - i : i)]);
        if (signed) x = BigInt.asIntN(size * 8, x);
        return [big ? x : Number(x), o + size];
      },
    });
  return [enc, dec, (cfg: any = {}) => combineCodec(enc(cfg), dec(cfg))];
}
export enum Endian {
  Little,
  Big,
}
const U = (s: number, big: boolean) => num(s, 0n, (1n << BigInt(8 * s)) - 1n, big);
const I = (s: number, big: boolean) => num(s, -(1n << BigInt(8 * s - 1)), (1n << BigInt(8 * s - 1)) - 1n, big);
export const [getU8Encoder, getU8Decoder, getU8Codec]: any[] = U(1, false);
export const [getU16Encoder, getU16Decoder, getU16Codec]: any[] = U(2, false);
export const [getU32Encoder, getU32Decoder, getU32Codec]: any[] = U(4, false);
export const [getU64Encoder, getU64Decoder, getU64Codec]: any[] = U(8, true);
export const [getU128Encoder, getU128Decoder, getU128Codec]: any[] = U(16, true);
export const [getI8Encoder, getI8Decoder, getI8Codec]: any[] = I(1, false);
export const [getI16Encoder, getI16Decoder, getI16Codec]: any[] = I(2, false);
export const [getI32Encoder, getI32Decoder, getI32Codec]: any[] = I(4, false);
export const [getI64Encoder, getI64Decoder, getI64Codec]: any[] = I(8, true);
export const [getI128Encoder, getI128Decoder, getI128Codec]: any[] = I(16, true);

export const getBooleanEncoder = (c: any = {}) => transformEncoder(c.size ?? getU8Encoder(), (v: any) => (v ? 1 : 0));
export const getBooleanDecoder = (c: any = {}) => transformDecoder(c.size ?? getU8Decoder(), (v: any) => Number(v) === 1);
export const getBooleanCodec = (c: any = {}) => combineCodec(getBooleanEncoder(c), getBooleanDecoder(c));

export const getBytesEncoder = () =>
  createEncoder({
    getSizeFromValue: (v: any) => v.length,
    write: (v: any, b: any, o: number) => {
      b.set(v, o);
      return o + v.length;
    },
  });
export const getBytesDecoder = () =>
  createDecoder({
    read: (b: any, o: number) => {
      const s = b.slice(o);
      return [s, o + s.length];
    },
  });
export const getBytesCodec = () => combineCodec(getBytesEncoder(), getBytesDecoder());

export const fixEncoderSize = (e: Enc, n: number) =>
  createEncoder({
    fixedSize: n,
    write: (v: any, b: any, o: number) => {
      const x = e.encode(v);
      b.set(x.length > n ? x.slice(0, n) : x, o);
      return o + n;
    },
  });
export const fixDecoderSize = (d: Dec, n: number) =>
  createDecoder({
    fixedSize: n,
    read: (b: any, o: number) => {
      need(b, o, n);
      let s = b;
      if (o > 0 || b.length > n) s = b.slice(o, o + n);
      if (isFixedSize(d)) s = fixBytes(s, d.fixedSize);
      return [d.read(s, 0)[0], o + n];
    },
  });
export const fixCodecSize = (c: any, n: number) => combineCodec(fixEncoderSize(c, n), fixDecoderSize(c, n));
export function padBytes(b: any, n: number) {
  if (b.length >= n) return b;
  const r = new Uint8Array(n);
  r.set(b);
  return r;
}
export const fixBytes = (b: any, n: number) => padBytes(b.length <= n ? b : b.slice(0, n), n);
export function mergeBytes(bs: any[]) {
  const r = new Uint8Array(bs.reduce((a, b) => a + b.length, 0));
  let o = 0;
  for (const b of bs) {
    r.set(b, o);
    o += b.length;
  }
  return r;
}
export function containsBytes(data: any, bytes: any, offset: number): boolean {
  const s = offset === 0 && data.length === bytes.length ? data : data.slice(offset, offset + bytes.length);
  return s.length === bytes.length && bytes.every((x: number, i: number) => x === s[i]);
}
export const bytesEqual = (a: any, b: any) => a.length === b.length && a.every((x: number, i: number) => x === b[i]);

const sum = (xs: any[]) => xs.reduce((a: any, b: any) => (a === null || b === null ? null : a + b), 0);
const sz = (c: any) => (isFixedSize(c) ? c.fixedSize : null);

export function getStructEncoder(fields: any[]): Enc {
  const fixed = sum(fields.map(([, c]) => sz(c)));
  return createEncoder({
    ...(fixed === null
      ? { getSizeFromValue: (v: any) => fields.map(([k, c]) => getEncodedSize(v[k], c)).reduce((a, b) => a + b, 0) }
      : { fixedSize: fixed }),
    write: (v: any, b: any, o: number) => {
      for (const [k, c] of fields) o = c.write(v[k], b, o);
      return o;
    },
  });
}
export function getStructDecoder(fields: any[]): Dec {
  const fixed = sum(fields.map(([, c]) => sz(c)));
  return createDecoder({
    ...(fixed === null ? {} : { fixedSize: fixed }),
    read: (b: any, o: number) => {
      const r: any = {};
      for (const [k, c] of fields) [r[k], o] = c.read(b, o);
      return [r, o];
    },
  });
}
export const getStructCodec = (f: any[]) => combineCodec(getStructEncoder(f), getStructDecoder(f));

export function getTupleEncoder(items: any[]): Enc {
  const fixed = sum(items.map(sz));
  return createEncoder({
    ...(fixed === null
      ? { getSizeFromValue: (v: any) => items.map((c, i) => getEncodedSize(v[i], c)).reduce((a, b) => a + b, 0) }
      : { fixedSize: fixed }),
    write: (v: any, b: any, o: number) => {
      if (v.length !== items.length) fail('invalid number of items');
      items.forEach((c, i) => (o = c.write(v[i], b, o)));
      return o;
    },
  });
}
export function getTupleDecoder(items: any[]): Dec {
  const fixed = sum(items.map(sz));
  return createDecoder({
    ...(fixed === null ? {} : { fixedSize: fixed }),
    read: (b: any, o: number) => {
      const r: any[] = [];
      for (const c of items) {
        const [v, n] = c.read(b, o);
        r.push(v);
        o = n;
      }
      return [r, o];
    },
  });
}
export const getTupleCodec = (i: any[]) => combineCodec(getTupleEncoder(i), getTupleDecoder(i));

export function getArrayEncoder(item: Enc, cfg: any = {}): Enc {
  const size = cfg.size ?? getU32Encoder();
  const pre = (n: number) => (typeof size === 'object' ? getEncodedSize(n, size) : 0);
  return createEncoder({
    ...(typeof size === 'number' && isFixedSize(item)
      ? { fixedSize: size * item.fixedSize }
      : { getSizeFromValue: (v: any) => pre(v.length) + v.reduce((a: number, x: any) => a + getEncodedSize(x, item), 0) }),
    write: (v: any, b: any, o: number) => {
      if (typeof size === 'number' && v.length !== size) fail('invalid number of items');
      if (typeof size === 'object') o = size.write(v.length, b, o);
      for (const x of v) o = item.write(x, b, o);
      return o;
    },
  });
}
export function getArrayDecoder(item: Dec, cfg: any = {}): Dec {
  const size = cfg.size ?? getU32Decoder();
  return createDecoder({
    ...(typeof size === 'number' && isFixedSize(item) ? { fixedSize: size * item.fixedSize } : {}),
    read: (b: any, o: number) => {
      const r: any[] = [];
      let n: number;
      if (typeof size === 'object') {
        const [x, k] = size.read(b, o);
        n = Number(x);
        o = k;
      } else if (size === 'remainder') {
        while (o < b.length) {
          const [v, k] = item.read(b, o);
          r.push(v);
          o = k;
        }
        return [r, o];
      } else n = size;
      for (let i = 0; i < n; i++) {
        const [v, k] = item.read(b, o);
        r.push(v);
        o = k;
      }
      return [r, o];
    },
  });
}
export const getArrayCodec = (i: any, c: any = {}) => combineCodec(getArrayEncoder(i, c), getArrayDecoder(i, c));

const enumStats = (e: any) => {
  const keys = Object.keys(e).filter((k) => isNaN(Number(k)) || !(k in e && typeof e[e[k]] === 'number'));
  const entries = Object.entries(e).filter(([k]) => keys.includes(k));
  return { keys, entries };
};
export function getEnumEncoder(e: any, cfg: any = {}): Enc {
  const { entries } = enumStats(e);
  return transformEncoder(cfg.size ?? getU8Encoder(), (v: any) => {
    let i = -1;
    entries.forEach(([k, x], j) => {
      if (x === v) i = j;
    });
    if (i < 0) i = entries.findIndex(([k]) => k === v);
    if (i < 0) fail('invalid enum variant', { v });
    return cfg.useValuesAsDiscriminators ? entries[i][1] : i;
  });
}
export function getEnumDecoder(e: any, cfg: any = {}): Dec {
  const { entries } = enumStats(e);
  return transformDecoder(cfg.size ?? getU8Decoder(), (v: any) => {
    const n = Number(v);
    if (cfg.useValuesAsDiscriminators) {
      const x = entries.find(([, y]) => y === n);
      if (!x) fail('enum discriminator out of range', { n });
      return x![1];
    }
    if (n < 0 || n >= entries.length) fail('enum discriminator out of range', { n });
    return entries[n][1];
  });
}
export const getEnumCodec = (e: any, c: any = {}) => combineCodec(getEnumEncoder(e, c), getEnumDecoder(e, c));
export const [getScalarEnumEncoder, getScalarEnumDecoder, getScalarEnumCodec] = [getEnumEncoder, getEnumDecoder, getEnumCodec];

export function getDiscriminatedUnionEncoder(variants: any[], cfg: any = {}): Enc {
  const prop = cfg.discriminator ?? '__kind';
  const size = cfg.size ?? getU8Encoder();
  const idx = (v: any) => {
    const i = variants.findIndex(([k]) => k === v[prop]);
    if (i < 0) fail('invalid discriminated union variant', { v: v[prop] });
    return i;
  };
  const sizes = variants.map(([, c]) => sz(c));
  const fixed = sizes.every((s) => s !== null && s === sizes[0]) && isFixedSize(size) ? size.fixedSize + sizes[0] : null;
  return createEncoder({
    ...(fixed === null
      ? { getSizeFromValue: (v: any) => getEncodedSize(idx(v), size) + getEncodedSize(v, variants[idx(v)][1]) }
      : { fixedSize: fixed }),
    write: (v: any, b: any, o: number) => {
      const i = idx(v);
      o = size.write(i, b, o);
      return variants[i][1].write(v, b, o);
    },
  });
}
export function getDiscriminatedUnionDecoder(variants: any[], cfg: any = {}): Dec {
  const prop = cfg.discriminator ?? '__kind';
  const size = cfg.size ?? getU8Decoder();
  const sizes = variants.map(([, c]) => sz(c));
  const fixed = sizes.every((s) => s !== null && s === sizes[0]) && isFixedSize(size) ? size.fixedSize + sizes[0] : null;
  return createDecoder({
    ...(fixed === null ? {} : { fixedSize: fixed }),
    read: (b: any, o: number) => {
      const [n, k] = size.read(b, o);
      const v = variants[Number(n)];
      if (!v) fail('union variant out of range', { n: Number(n) });
      const [x, e] = v[1].read(b, k);
      return [{ [prop]: v[0], ...x }, e];
    },
  });
}
export const getDiscriminatedUnionCodec = (v: any[], c: any = {}) =>
  combineCodec(getDiscriminatedUnionEncoder(v, c), getDiscriminatedUnionDecoder(v, c));
export const [getDataEnumEncoder, getDataEnumDecoder, getDataEnumCodec] = [
  getDiscriminatedUnionEncoder,
  getDiscriminatedUnionDecoder,
  getDiscriminatedUnionCodec,
];
export const getUnitEncoder = () => createEncoder({ fixedSize: 0, write: (_v: any, _b: any, o: number) => o });
export const getUnitDecoder = () => createDecoder({ fixedSize: 0, read: (_b: any, o: number) => [undefined, o] });
export const getUnitCodec = () => combineCodec(getUnitEncoder(), getUnitDecoder());

export const some = (value: any) => ({ __option: 'Some', value });
export const none = () => ({ __option: 'None' });
export const isOption = (x: any) => !!x && typeof x === 'object' && '__option' in x;
export const isSome = (x: any) => x.__option === 'Some';
export const isNone = (x: any) => x.__option === 'None';
export const unwrapOption = (x: any, f?: any) => (isSome(x) ? x.value : f ? f() : null);
export const unwrapOptionRecursively = (x: any) => (isOption(x) ? (isSome(x) ? x.value : null) : x);
export const wrapNullable = (x: any) => (x !== null && x !== undefined ? some(x) : none());
export function getOptionDecoder(item: Dec, cfg: any = {}): Dec {
  const pre = cfg.prefix === null ? null : (cfg.prefix ?? getU8Decoder());
  const zero = cfg.noneValue === 'zeroes';
  return createDecoder({
    ...(zero && isFixedSize(item) ? { fixedSize: (pre ? pre.fixedSize : 0) + item.fixedSize } : {}),
    read: (b: any, o: number) => {
      let there = true;
      if (pre) {
        const [t, k] = pre.read(b, o);
        there = Number(t) === 1;
        o = k;
      }
      if (!there) {
        if (zero) {
          need(b, o, item.fixedSize);
          return [none(), o + item.fixedSize];
        }
        return [none(), o];
      }
      const [v, k] = item.read(b, o);
      return [some(v), k];
    },
  });
}
export function getOptionEncoder(item: Enc, cfg: any = {}): Enc {
  const pre = cfg.prefix === null ? null : (cfg.prefix ?? getU8Encoder());
  const zero = cfg.noneValue === 'zeroes';
  const get = (v: any) => (isOption(v) ? v : wrapNullable(v));
  return createEncoder({
    ...(zero && isFixedSize(item)
      ? { fixedSize: (pre ? pre.fixedSize : 0) + item.fixedSize }
      : {
          getSizeFromValue: (v: any) =>
            (pre ? pre.fixedSize : 0) + (isSome(get(v)) ? getEncodedSize(get(v).value, item) : zero ? item.fixedSize : 0),
        }),
    write: (v: any, b: any, o: number) => {
      const x = get(v);
      if (pre) o = pre.write(isSome(x) ? 1 : 0, b, o);
      if (isSome(x)) return item.write(x.value, b, o);
      return zero ? o + item.fixedSize : o;
    },
  });
}
export const getOptionCodec = (i: any, c: any = {}) => combineCodec(getOptionEncoder(i, c), getOptionDecoder(i, c));
export const [getNullableEncoder, getNullableDecoder, getNullableCodec] = [getOptionEncoder, 
  (i: any, c: any = {}) => transformDecoder(getOptionDecoder(i, c), (x: any) => unwrapOption(x)), getOptionCodec];

export const addEncoderSizePrefix = (e: Enc, p: Enc) =>
  createEncoder({
    getSizeFromValue: (v: any) => getEncodedSize(getEncodedSize(v, e), p) + getEncodedSize(v, e),
    write: (v: any, b: any, o: number) => {
      const x = e.encode(v);
      o = p.write(x.length, b, o);
      b.set(x, o);
      return o + x.length;
    },
  });
export const addDecoderSizePrefix = (d: Dec, p: Dec) =>
  createDecoder({
    read: (b: any, o: number) => {
      const [n, k] = p.read(b, o);
      need(b, k, Number(n));
      return [d.decode(b.slice(k, k + Number(n))), k + Number(n)];
    },
  });
export const addCodecSizePrefix = (c: any, p: any) => combineCodec(addEncoderSizePrefix(c, p), addDecoderSizePrefix(c, p));
export const reverseEncoder = (e: Enc) =>
  createEncoder({
    ...e,
    write: (v: any, b: any, o: number) => {
      b.set(e.encode(v).slice().reverse(), o);
      return o + e.fixedSize;
    },
  });
export const reverseDecoder = (d: Dec) =>
  createDecoder({ ...d, read: (b: any, o: number) => [d.decode(b.slice(o, o + d.fixedSize).reverse()), o + d.fixedSize] });

// strings
const ALPHA = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
export function b58enc(b: Uint8Array): string {
  let z = 0;
  while (z < b.length && b[z] === 0) z++;
  let x = 0n;
  for (const c of b) x = (x << 8n) | BigInt(c);
  let s = '';
  while (x > 0n) {
    s = ALPHA[Number(x % 58n)] + s;
    x /= 58n;
  }
  return '1'.repeat(z) + s;
}
export function b58dec(s: string): Uint8Array {
  let z = 0;
  while (z < s.length && s[z] === '1') z++;
  let x = 0n;
  for (const c of s) {
    const i = ALPHA.indexOf(c);
    if (i < 0) fail('invalid string for base 58', { s });
    x = x * 58n + BigInt(i);
  }
  const r: number[] = [];
  while (x > 0n) {
    r.unshift(Number(x & 255n));
    x >>= 8n;
  }
  return new Uint8Array([...new Array(z).fill(0), ...r]);
}
const strEnc = (f: (s: string) => Uint8Array) => () =>
  createEncoder({
    getSizeFromValue: (v: string) => f(v).length,
    write: (v: string, b: any, o: number) => {
      const x = f(v);
      b.set(x, o);
      return o + x.length;
    },
  });
const strDec = (f: (b: Uint8Array) => string) => () =>
  createDecoder({ read: (b: any, o = 0) => [f(b.slice(o)), b.length] });
const b64 = (s: string) => {
  if (!/^[A-Za-z0-9+/]*={0,2}$/.test(s)) fail('invalid string for base 64');
  return new Uint8Array(NodeBuffer.from(s, 'base64'));
};
export const getBase58Encoder = strEnc(b58dec);
export const getBase58Decoder = strDec(b58enc);
export const getBase58Codec = () => combineCodec(getBase58Encoder(), getBase58Decoder());
export const getBase64Encoder = strEnc(b64);
export const getBase64Decoder = strDec((b) => NodeBuffer.from(b).toString('base64'));
export const getBase64Codec = () => combineCodec(getBase64Encoder(), getBase64Decoder());
export const getBase16Encoder = strEnc((s) => new Uint8Array(NodeBuffer.from(s, 'hex')));
export const getBase16Decoder = strDec((b) => NodeBuffer.from(b).toString('hex'));
export const getBase16Codec = () => combineCodec(getBase16Encoder(), getBase16Decoder());
export const getUtf8Encoder = strEnc((s) => new TextEncoder().encode(s));
export const getUtf8Decoder = strDec((b) => new TextDecoder().decode(b));
export const getUtf8Codec = () => combineCodec(getUtf8Encoder(), getUtf8Decoder());

// ---- addresses ----------------------------------------------------------------------------

export type Address<T extends string = string> = string & { __t?: T };
export function isAddress(s: any): boolean {
  try {
    return typeof s === 'string' && s.length >= 32 && s.length <= 44 && b58dec(s).length === 32;
  } catch {
    return false;
  }
}
export function assertIsAddress(s: any): void {
  if (!isAddress(s)) fail('not a valid address', { s });
}
export function address(s: string): any {
  assertIsAddress(s);
  return s;
}
export const getAddressEncoder = () =>
  createEncoder({
    fixedSize: 32,
    write: (v: any, b: any, o: number) => {
      assertIsAddress(v);
      b.set(b58dec(v), o);
      return o + 32;
    },
  });
export const getAddressDecoder = () =>
  createDecoder({
    fixedSize: 32,
    read: (b: any, o = 0) => {
      need(b, o, 32);
      return [b58enc(b.slice(o, o + 32)), o + 32];
    },
  });
export const getAddressCodec = () => combineCodec(getAddressEncoder(), getAddressDecoder());
export const getAddressComparator = () => new Intl.Collator('en', { caseFirst: 'lower', usage: 'sort' }).compare;

const Pm = (1n << 255n) - 19n;
const D = 37095705934669439343138083508754565189542113879843219016388785533085940283555n;
const sq = (x: bigint, n: number) => {
  while (n-- > 0) x = (x * x) % Pm;
  return x;
};
/** x^((p-5)/8) */
function pow58(x: bigint): bigint {
  const x2 = (((x * x) % Pm) * x) % Pm;
  const x4 = (sq(x2, 2) * x2) % Pm;
  const x5 = (sq(x4, 1) * x) % Pm;
  const x10 = (sq(x5, 5) * x5) % Pm;
  const x20 = (sq(x10, 10) * x10) % Pm;
  const x40 = (sq(x20, 20) * x20) % Pm;
  const x80 = (sq(x40, 40) * x40) % Pm;
  const x160 = (sq(x80, 80) * x80) % Pm;
  const x240 = (sq(x160, 80) * x80) % Pm;
  const x250 = (sq(x240, 10) * x10) % Pm;
  return (sq(x250, 2) * x) % Pm;
}
export function compressedPointBytesAreOnCurve(b: Uint8Array): boolean {
  let y = 0n;
  for (let i = 31; i >= 0; i--) y = (y << 8n) | BigInt(i === 31 ? b[i] & 127 : b[i]);
  y %= Pm;
  const yy = (y * y) % Pm;
  const u = (yy - 1n + Pm) % Pm;
  const v = (D * yy + 1n) % Pm;
  const v3 = (((v * v) % Pm) * v) % Pm;
  const v7 = (((v3 * v3) % Pm) * v) % Pm;
  const r = (((u * v3) % Pm) * pow58((u * v7) % Pm)) % Pm;
  const c = (((v * r) % Pm) * r) % Pm;
  return c === u || c === (Pm - u) % Pm;
}
export const offCurveAddress = (a: any) => a;
export const isOnCurve = (a: any) => compressedPointBytesAreOnCurve(b58dec(a));

const cache = new Map<string, [string, number]>();
export async function getProgramDerivedAddress(q: any): Promise<any> {
  return pdaSync(q);
}
export function pdaSync({ programAddress, seeds }: any): any {
  if (seeds.length > 15) fail('too many seeds');
  const enc = new TextEncoder();
  const parts = seeds.map((s: any) => {
    const b = typeof s === 'string' ? enc.encode(s) : s;
    if (b.length > 32) fail('seed too long');
    return Uint8Array.from(b);
  });
  assertIsAddress(programAddress);
  const prog = b58dec(programAddress);
  const key = NodeBuffer.concat([...parts, prog]).toString('latin1');
  const hit = cache.get(key);
  if (hit) return Object.freeze([...hit]);
  for (let bump = 255; bump > 0; bump--) {
    const h = createHash('sha256');
    for (const p of parts) h.update(p);
    h.update(Uint8Array.of(bump));
    h.update(prog);
    h.update('ProgramDerivedAddress');
    const d = new Uint8Array(h.digest());
    if (!compressedPointBytesAreOnCurve(d)) {
      const r: [string, number] = [b58enc(d), bump];
      if (cache.size < 20000) cache.set(key, r);
      return Object.freeze([...r]);
    }
  }
  fail('could not find a viable program derived address bump seed');
}
export function isProgramDerivedAddress(v: any): boolean {
  return Array.isArray(v) && v.length === 2 && typeof v[1] === 'number' && v[1] >= 0 && v[1] <= 255 && isAddress(v[0]);
}

// ---- instructions -------------------------------------------------------------------------

export enum AccountRole {
  READONLY = 0,
  WRITABLE = 1,
  READONLY_SIGNER = 2,
  WRITABLE_SIGNER = 3,
}
export const isSignerRole = (r: number) => r >= 2;
export const isWritableRole = (r: number) => (r & 1) !== 0;
export const mergeRoles = (a: number, b: number) => a | b;
export const upgradeRoleToSigner = (r: number) => r | 2;
export const upgradeRoleToWritable = (r: number) => r | 1;
export const downgradeRoleToNonSigner = (r: number) => r & ~2;
export const downgradeRoleToReadonly = (r: number) => r & ~1;
export const isTransactionSigner = (v: any): boolean =>
  typeof v?.signTransactions === 'function' ||
  typeof v?.modifyAndSignTransactions === 'function' ||
  typeof v?.signAndSendTransactions === 'function';
export const createNoopSigner = (a: any) =>
  Object.freeze({ address: a, signMessages: async () => [], signTransactions: async () => [] });

// ---- accounts -----------------------------------------------------------------------------

export const lamports = (x: any) => x;
export function parseBase64RpcAccount(addr: any, a: any): any {
  if (!a) return Object.freeze({ address: addr, exists: false });
  return Object.freeze({
    address: addr,
    data: b64(a.data[0]),
    exists: true,
    executable: a.executable,
    lamports: a.lamports,
    programAddress: a.owner,
    space: a.space,
  });
}
export const parseBase58RpcAccount = parseBase64RpcAccount;
export function decodeAccount(a: any, d: Dec): any {
  try {
    if ('exists' in a && !a.exists) return a;
    return Object.freeze({ ...a, data: d.decode(a.data) });
  } catch {
    throw new SolanaError('failed to decode account', { address: a.address });
  }
}
export function assertAccountExists(a: any): void {
  if (!a.exists) fail('account not found', { address: a.address });
}
export function assertAccountsExist(as: any[]): void {
  const m = as.filter((a) => !a.exists);
  if (m.length > 0) fail('one or more accounts not found', { addresses: m.map((a) => a.address) });
}
export function assertAccountDecoded(a: any): void {
  if (!('exists' in a) || a.exists) if (a.data instanceof Uint8Array) fail('expected decoded account');
}
export const assertAccountsDecoded = (as: any[]) => as.forEach(assertAccountDecoded);
export async function fetchEncodedAccount(rpc: any, addr: any, config: any = {}): Promise<any> {
  const { abortSignal, ...c } = config;
  const r = await rpc.getAccountInfo(addr, { ...c, encoding: 'base64' }).send({ abortSignal });
  return parseBase64RpcAccount(addr, r.value);
}
export async function fetchEncodedAccounts(rpc: any, addrs: any[], config: any = {}): Promise<any[]> {
  const { abortSignal, ...c } = config;
  const r = await rpc.getMultipleAccounts(addrs, { ...c, encoding: 'base64' }).send({ abortSignal });
  return r.value.map((a: any, i: number) => parseBase64RpcAccount(addrs[i], a));
}
