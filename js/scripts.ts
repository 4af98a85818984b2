// Runs the operator scripts of /repo/ts-scripts, one JSON request per line, with every effect replaced:
// files, process, console, clock and the Solana libraries are stand-ins.
import { readFileSync } from 'node:fs';
import { createInterface } from 'node:readline';
import * as nodeBuffer from 'node:buffer';
import * as nodePath from 'node:path';
import * as nodeUtil from 'node:util';
import * as nodeAssert from 'node:assert';
import * as nodeCrypto from 'node:crypto';
import * as nodeOs from 'node:os';
import * as nodeUrl from 'node:url';
import * as kit from './kit';
import * as token from './token';
import * as spl from './spl';
import * as web3 from './web3';

const dir = nodePath.join(nodePath.dirname(nodeUrl.fileURLToPath(import.meta.url)), 'scripts');
const say = (v: any) => process.stdout.write(JSON.stringify(v) + '\n');
class Exit extends Error {}
process.on('unhandledRejection', (e) => current?.escaped(e));
process.on('uncaughtException', (e) => current?.escaped(e));

let current: any = null;
let reply: ((v: any) => void) | null = null;
const compiled = new Map<string, any>();

function script(name: string) {
  let f = compiled.get(name);
  if (!f) {
    const text = readFileSync(nodePath.join(dir, `${name}.cjs`), 'utf8').replace(/^#!.*/, '');
    f = new Function('require', 'module', 'exports', 'process', 'console', 'Date', 'setTimeout', 'fetch', '__filename', '__dirname', 'XH_URL', text);
    compiled.set(name, f);
  }
  return f;
}

async function runScript(q: any): Promise<any> {
  const out: string[] = [];
  let code: number | null = null;
  const written: Record<string, string> = {};
  const uploads: any[] = [];
  const world: web3.World = {
    accounts: q.accounts,
    failAfter: q.failAfter,
    failKind: q.failKind,
    served: 0,
    refused: false,
    sent: [],
    execute: (tx) =>
      new Promise((res) => {
        if (code !== null) return; // the process is gone
        reply = res;
        world.sent.push(tx);
        say({ tx });
      }),
  };
  web3.setWorld(world);
  const set = (c: any) => {
    if (code === null) code = c ?? 0;
  };
  const proc: any = {
    argv: ['/usr/bin/node', `/w/${q.script}.ts`, ...q.args],
    env: {},
    platform: 'linux',
    version: process.version,
    versions: process.versions,
    exitCode: undefined,
    exit: (c?: any) => {
      set(c ?? proc.exitCode ?? 0);
      throw new Exit();
    },
    on: () => proc,
    once: () => proc,
    cwd: () => '/w',
    nextTick: process.nextTick,
    hrtime: process.hrtime,
    stdout: { write: (s: any) => (code === null && out.push(String(s).replace(/\n$/, '')), true), isTTY: false },
    stderr: { write: () => true, isTTY: false },
  };
  const show = (...a: any[]) => void (code === null && out.push(nodeUtil.format(...a)));
  const con = { log: show, info: show, debug: show, dir: show, table: show, error: () => {}, warn: () => {}, group: show, groupEnd: () => {}, time: () => {}, timeEnd: () => {} };
  class FakeDate extends Date {
    constructor(...a: any[]) {
      if (a.length === 0) super(q.nowMs);
      else super(...(a as [any]));
    }
    static now() {
      return q.nowMs;
    }
  }
  const fs: any = {
    readFileSync: (p: any, enc: any) => {
      const blob = q.blobs?.[nodePath.normalize(String(p))];
      if (blob !== undefined) return enc ? Buffer.from(blob, 'hex').toString(enc.encoding ?? enc) : Buffer.from(blob, 'hex');
      const t = q.files[nodePath.normalize(String(p))];
      if (t === undefined) throw Object.assign(new Error(`ENOENT: no such file or directory, open '${p}'`), { code: 'ENOENT' });
      return enc ? t : Buffer.from(t);
    },
    existsSync: (p: any) => (q.files[nodePath.normalize(String(p))] ?? q.blobs?.[nodePath.normalize(String(p))]) !== undefined,
    statSync: (p: any) => ({ size: fs.readFileSync(p).length, isFile: () => true, isDirectory: () => false }),
    writeFileSync: (p: any, t: any) => {
      if (code === null) written[nodePath.normalize(String(p))] = typeof t === 'string' ? t : Buffer.from(t).toString('utf8');
    },
    mkdirSync: () => undefined,
  };
  fs.promises = { readFile: async (p: any, e: any) => fs.readFileSync(p, e), writeFile: async (p: any, t: any) => fs.writeFileSync(p, t), mkdir: async () => undefined };
  fs.default = fs;
  const mods: Record<string, any> = {
    fs, 'fs/promises': fs.promises, path: nodePath, util: nodeUtil, buffer: nodeBuffer, assert: nodeAssert, crypto: nodeCrypto, os: nodeOs, url: nodeUrl,
    process: Object.assign({ default: proc }, proc),
    '@solana/web3.js': web3, '@solana/spl-token': spl, '@solana/kit': kit, '@solana-program/token': token,
  };
  // the upload service: records what it is given
  class Irys {
    o: any;
    constructor(o: any) {
      this.o = o;
    }
    async ready() {
      return this;
    }
    async upload(data: any, opts: any) {
      if (code !== null) return new Promise(() => {}); // the process is gone
      uploads.push({
        url: String(this.o.url),
        token: String(this.o.token),
        key: typeof this.o.key === 'string' ? this.o.key : Buffer.from(this.o.key).toString('hex'),
        data: Buffer.from(data).toString('hex'),
        tags: opts?.tags ?? [],
      });
      if (q.uploadFails) throw new Error('402: insufficient balance');
      return { id: q.uploadId, timestamp: q.nowMs };
    }
  }
  mods['@irys/sdk'] = Object.assign(Irys, { default: Irys, NodeIrys: Irys });
  const req = (n: string) => {
    const m = mods[n.replace(/^node:/, '')] ?? (n.startsWith('@solana/') ? kit : undefined);
    if (!m) throw new Error(`Cannot find module '${n}'`);
    return m;
  };
  current = { escaped: (e: any) => void (e instanceof Exit || set(1)) };
  const timer = (f: any, _ms?: any, ...a: any[]) => setImmediate(f, ...a);
  const module = { exports: {} };
  try {
    script(q.script)(req, module, module.exports, proc, con, FakeDate, timer, undefined, `/w/${q.script}.ts`, '/w', `file:///w/${q.script}.ts`);
  } catch (e) {
    if (!(e instanceof Exit)) set(1);
  }
  // every stand-in settles within the current turn, except a transaction being executed
  for (let idle = 0; idle < 4; ) {
    const before = [world.served, out.length, code, reply];
    await new Promise((r) => setImmediate(r));
    const same = before.every((x, i) => x === [world.served, out.length, code, reply][i]);
    if (reply) idle = 0;
    else idle = same ? idle + 1 : 0;
  }
  current = null;
  return { code: code ?? proc.exitCode ?? 0, out, sent: world.sent.length, refused: world.refused, served: world.served, written, uploads };
}

const rl = createInterface({ input: process.stdin });
rl.on('line', async (line) => {
  const q = JSON.parse(line);
  if (reply && q.reply) {
    const f = reply;
    reply = null;
    f(q.reply);
    return;
  }
  try {
    if (q.op === 'keys') {
      const ks = q.seeds.map((s: string) => web3.Keypair.fromSeed(new Uint8Array(Buffer.from(s, 'hex'))));
      say({ ok: ks.map((k: any) => Buffer.from(k.secretKey).toString('hex')) });
    } else {
      say({ ok: await runScript(q) });
    }
  } catch (e: any) {
    say({ fail: String(e?.stack ?? e) });
  }
});
