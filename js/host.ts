// What the stand-ins and the drivers themselves need from Node. In the bundle that plays a browser (XH_WEB) everything
// Node adds to the web's globals is taken away here, before the client is loaded.
declare const XH_WEB: boolean;
const g: any = globalThis;
const proc = g.process;
export const NodeBuffer = g.Buffer;
export const createHash = proc.getBuiltinModule('node:crypto').createHash;
export const createInterface = proc.getBuiltinModule('node:readline').createInterface;
export const input = proc.stdin;
export const output = proc.stdout;
export const web = typeof XH_WEB !== 'undefined' && XH_WEB;
if (web) for (const k of ['Buffer', 'process', 'global', 'require', 'module', 'exports', '__dirname', '__filename', 'setImmediate', 'clearImmediate']) delete g[k];
