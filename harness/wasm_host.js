// Hosts the WebAssembly parser: node wasm_host.js wasm_exec.js parser.wasm.
// Reads one JSON string per line, calls the parser, and answers with one line.
'use strict';
globalThis.require = require;
globalThis.fs = require('fs');
globalThis.path = require('path');
globalThis.TextEncoder = require('util').TextEncoder;
globalThis.TextDecoder = require('util').TextDecoder;
globalThis.performance ??= require('perf_hooks').performance;
globalThis.crypto ??= require('crypto').webcrypto;
require(process.argv[2]);
const go = new Go();
let exited = null, parse = null;
go.exit = code => { exited = 'exit ' + code; };
const out = o => fs.writeSync(1, JSON.stringify(o).replace(/\u2028/g, '\\u2028').replace(/\u2029/g, '\\u2029') + '\n');
globalThis.parserLoaded = f => { parse = f; };
// What the instance prints.
let printed = '';
const realWrite = fs.writeSync;
const send = o => {
  let b = Buffer.from(JSON.stringify(o) + '\n'), p = 0;
  while (p < b.length) {
    try { p += realWrite(1, b, p); } catch (e) { if (e.code !== 'EAGAIN') throw e; }
  }
};
fs.writeSync = (fd, buf) => { printed += Buffer.from(buf).toString('latin1'); return buf.length; };
globalThis.fs.writeSync = fs.writeSync;
(async () => {
  const r = await WebAssembly.instantiate(fs.readFileSync(process.argv[3]), go.importObject);
  go.run(r.instance).then(() => { exited = exited || 'run ended'; }, e => { exited = 'run failed: ' + e; });
  await new Promise(r => setTimeout(r, 0));
  send({ready: typeof parse === 'function', exited});
  const rl = require('readline').createInterface({input: process.stdin, crlfDelay: Infinity});
  for await (const line of rl) {
    const src = JSON.parse(line);
    const a = {};
    try {
      const v = parse(src);
      a.kind = v === null ? 'null' : typeof v;
      if (a.kind === 'object') {
        a.keys = Object.keys(v).sort();
        if ('result' in v) { a.result = v.result; a.resultType = typeof v.result; }
        if ('error' in v) { a.error = v.error; a.errorType = typeof v.error; }
      }
    } catch (e) {
      a.threw = String(e && e.stack || e).slice(0, 2000);
    }
    a.exited = exited;
    if (printed) { a.printed = printed.slice(0, 2000); printed = ''; }
    send(a);
  }
  process.exit(0);
})().catch(e => { send({host: String(e && e.stack || e)}); process.exit(3); });
