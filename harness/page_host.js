// Hosts the demo page: node page_host.js DIST, where DIST is what web/build.sh
// made. Runs the real scripts of the real page, with the real WebAssembly
// module, over a document, a clock and a network of its own. Reads one JSON
// command per line and answers each with one line.
'use strict';
const fs = require('fs'), path = require('path'), vm = require('vm');
const dist = process.argv[2];
const realSetImmediate = setImmediate;
const turn = () => new Promise(r => realSetImmediate(r));
let page = null;
process.on('unhandledRejection', e => { if (page) page.uncaught.push('rejection: ' + (e && e.stack || e)); });
process.on('uncaughtException', e => { if (page) page.uncaught.push('exception: ' + (e && e.stack || e)); });

const modules = new Map();
function compiled(file) {
  if (!modules.has(file)) modules.set(file, new WebAssembly.Module(fs.readFileSync(file)));
  return modules.get(file);
}

class EventBase {
  constructor(type) { this.type = type; }
  preventDefault() {}
  stopPropagation() {}
}

class Target {
  constructor() { this.listeners = {}; }
  addEventListener(t, f) { const l = this.listeners[t] ||= []; if (!l.includes(f)) l.push(f); }
  removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] || []).filter(g => g !== f); }
  dispatchEvent(e) {
    e.target ??= this;
    for (const f of [...(this.listeners[e.type] || [])]) page.guard(() => typeof f === 'function' ? f.call(this, e) : f.handleEvent(e));
    const on = this['on' + e.type];
    if (typeof on === 'function') page.guard(() => on.call(this, e));
    return true;
  }
}

class Element extends Target {
  constructor(tag) {
    super();
    this.tagName = tag.toUpperCase(); this.style = {}; this.children = []; this.attributes = {};
    this._text = ''; this._value = ''; this.hidden = false; this.className = ''; this.selected = false;
    this.classList = {add() {}, remove() {}, toggle() {}, contains() { return false; }};
  }
  get innerText() { return this._text; }
  set innerText(s) { this._text = String(s); }
  get textContent() { return this._text; }
  set textContent(s) { this._text = s == null ? '' : String(s); }
  get innerHTML() { return this._text; }
  set innerHTML(s) { this._text = String(s).replace(/<[^>]*>/g, ''); }
  get value() { return this._value; }
  set value(s) {
    s = s == null ? '' : String(s);
    // What the API value of the control is: see the HTML standard.
    this._value = this.tagName === 'TEXTAREA' ? s.replace(/\r\n?/g, '\n') : s.replace(/[\r\n]/g, '');
  }
  setAttribute(k, v) { this.attributes[k] = String(v); if (k === 'hidden') this.hidden = true; }
  getAttribute(k) { return this.attributes[k] ?? null; }
  removeAttribute(k) { delete this.attributes[k]; if (k === 'hidden') this.hidden = false; }
  appendChild(c) { this.children.push(c); return c; }
  append(...c) { this.children.push(...c); }
  removeChild(c) { this.children = this.children.filter(d => d !== c); return c; }
  remove() {}
  select() { page.selected = this; }
  setSelectionRange() { page.selected = this; }
  focus() {}
  blur() {}
  get visible() { return this.style.display !== 'none' && !this.hidden && this.style.visibility !== 'hidden'; }
}

class Page {
  constructor(cmd) {
    this.uncaught = []; this.timers = []; this.now = 0; this.ids = 0; this.logs = [];
    this.parses = []; this.copied = null; this.navigated = null; this.busy = 0; this.exited = null;
    this.cmd = cmd; this.fetched = []; this.ready = false; this.missing = [];
  }
  guard(f) { try { return f(); } catch (e) { this.uncaught.push('exception: ' + (e && e.stack || e)); } }

  async open() {
    const P = this, cmd = this.cmd;
    const html = fs.readFileSync(path.join(dist, 'parser/index.html'), 'utf8');
    const byId = new Map();
    for (const m of html.replace(/<script[\s\S]*?<\/script>/g, '').matchAll(/<([a-z]+)\b[^>]*?\bid="([^"]+)"/g)) byId.set(m[2], new Element(m[1]));
    this.byId = byId;
    const body = new Element('body');
    const document = new Target();
    Object.assign(document, {
      body, documentElement: body, readyState: 'loading',
      getElementById: id => byId.get(id) ?? null,
      querySelector: q => q[0] === '#' ? byId.get(q.slice(1)) ?? null : null,
      createElement: t => new Element(t),
      execCommand: c => { if (c === 'copy') { P.copied = P.selected ? P.selected.value : null; } return true; },
    });
    const win = new Target();
    let url = new URL(cmd.url);
    const location = {
      get href() { return url.href; },
      set href(h) { P.navigated = new URL(h, url).href; },
      assign(h) { P.navigated = new URL(h, url).href; },
      replace(h) { P.navigated = new URL(h, url).href; },
      get search() { return url.search; }, get hash() { return url.hash; }, set hash(h) { url.hash = h; },
      get origin() { return url.origin; }, get pathname() { return url.pathname; }, get protocol() { return url.protocol; }, get host() { return url.host; },
      toString() { return url.href; },
    };
    this.setURL = u => { url = new URL(u); };
    const g = {};
    // The timers of the Go runtime run in real time, those of the page on the
    // clock of the host.
    const real = new Map();
    const timer = (f, ms, every, args) => {
      if (P.inGo) {
        const id = ++P.ids, short = ms <= 100;
        if (short) P.busy++;
        const end = () => { if (real.delete(id) && short) P.busy--; };
        const t = setTimeout(() => { end(); P.guard(() => f(...args)); }, ms);
        real.set(id, () => { clearTimeout(t); end(); });
        return id;
      }
      const id = ++P.ids;
      P.timers.push({id, at: P.now + Math.max(0, +ms || 0), f: () => f(...args), every: every ? Math.max(1, +ms || 0) : 0});
      return id;
    };
    const drop = id => { if (real.has(id)) return real.get(id)(); P.timers = P.timers.filter(t => t.id !== id); };
    Object.assign(g, {
      document, location, URL, URLSearchParams, TextEncoder, TextDecoder, crypto: globalThis.crypto,
      performance: {now: () => P.now + globalThis.performance.now() / 1e3, timeOrigin: globalThis.performance.timeOrigin},
      console: Object.fromEntries(['log', 'warn', 'error', 'info', 'debug'].map(k => [k, (...a) => P.logs.push(a.map(String).join(' ').slice(0, 300))])),
      setTimeout: (f, ms, ...a) => timer(f, ms, false, a), clearTimeout: drop,
      setInterval: (f, ms, ...a) => timer(f, ms, true, a), clearInterval: drop,
      requestAnimationFrame: f => timer(f, 16, false, [P.now + 16]), cancelAnimationFrame: drop,
      queueMicrotask, Event: EventBase, CustomEvent: EventBase, HashChangeEvent: EventBase,
      path: {resolve: (...s) => s.join('/')},
      navigator: {clipboard: {writeText: async s => { P.copied = String(s); }}, userAgent: ''},
      history: {replaceState: (a, b, u) => { if (u != null) url = new URL(u, url); }, pushState: (a, b, u) => { if (u != null) url = new URL(u, url); }, state: null},
      addEventListener: win.addEventListener.bind(win), removeEventListener: win.removeEventListener.bind(win), dispatchEvent: win.dispatchEvent.bind(win),
      alert: s => P.logs.push('alert ' + s),
    });
    this.win = win; this.document = document;
    // The network: answered by the command "load".
    g.fetch = u => new Promise((ok, no) => P.fetched.push({u: new URL(String(u.url || u), url).pathname, ok, no}));
    const W = {};
    for (const k of Object.getOwnPropertyNames(WebAssembly)) W[k] = WebAssembly[k];
    const count = async f => { P.busy++; try { return await f(); } finally { P.busy--; } };
    W.instantiate = (b, imp) => count(() => WebAssembly.instantiate(b, imp));
    delete W.instantiateStreaming;
    if (cmd.streaming) W.instantiateStreaming = (resp, imp) => count2(resp, imp);
    const count2 = async (resp, imp) => {
      const r = await resp;
      return count(async () => {
        if (!r.ok) throw new TypeError('HTTP status code is not ok');
        if (r.file && !r.broken) {
          const module = compiled(r.file);
          return {module, instance: new WebAssembly.Instance(module, imp)};
        }
        return WebAssembly.instantiate(await r.arrayBuffer(), imp);
      });
    };
    g.WebAssembly = W;
    vm.createContext(g);
    g.window = g.self = g.top = g.parent = vm.runInContext('globalThis', g);
    // Parsers handed to the page are counted.
    let loaded;
    Object.defineProperty(g.window, 'parserLoaded', {configurable: true, enumerable: true,
      set(f) { loaded = f; },
      get() {
        return loaded && (parse => {
          P.ready = true;
          return loaded.call(g.window, (...a) => {
            const e = {text: String(a[0]), at: P.now};
            P.parses.push(e);
            try {
              const v = parse(...a);
              e.kind = v == null ? String(v) : Object.keys(v).join();
              return v;
            } catch (x) { e.kind = 'threw'; throw x; }
          });
        });
      }});
    for (const m of html.matchAll(/<script([^>]*)>([\s\S]*?)<\/script>/g)) {
      const src = /\bsrc="([^"]*)"/.exec(m[1]);
      let code = m[2], name = 'page';
      if (src) {
        const f = path.join(dist, new URL(src[1], cmd.url).pathname);
        if (!fs.existsSync(f)) { this.missing.push(src[1]); continue; }
        code = fs.readFileSync(f, 'utf8'); name = src[1];
      }
      this.guard(() => vm.runInContext(code, g, {filename: name}));
      // The module may have been built by a newer Go than the glue code is
      // from; the functions are the same, but under another name.
      if (g.window.Go && !g.window.Go.patched) {
        const Go = g.window.Go;
        g.window.Go = class extends Go {
          static patched = true;
          constructor() {
            super();
            const o = this.importObject.gojs ??= this.importObject.go, f = o['runtime.scheduleTimeoutEvent'];
            o['runtime.scheduleTimeoutEvent'] = sp => { P.inGo = true; try { return f(sp); } finally { P.inGo = false; } };
            P.go = this;
          }
          run(inst) { const p = super.run(inst); p.catch(() => {}); return p; }
        };
      }
    }
    document.readyState = 'complete';
    document.dispatchEvent(new EventBase('DOMContentLoaded'));
    win.dispatchEvent(new EventBase('load'));
    if (typeof g.window.onload === 'function') this.guard(() => g.window.onload(new EventBase('load')));
    await this.settle();
  }

  async settle() {
    for (let i = 0, quiet = 0; i < 200000 && quiet < 5; i++) {
      await turn();
      quiet = this.busy ? 0 : quiet + 1;
    }
  }

  async advance(ms) {
    const end = this.now + ms;
    for (let i = 0; i < 100000; i++) {
      const due = this.timers.filter(t => t.at <= end).sort((a, b) => a.at - b.at || a.id - b.id)[0];
      if (!due) break;
      this.now = Math.max(this.now, due.at);
      if (due.every) due.at += due.every; else this.timers = this.timers.filter(t => t !== due);
      this.guard(due.f);
      await null;
    }
    this.now = end;
    await this.settle();
  }

  // load answers the requests of the page.
  async load(how) {
    const l = this.fetched; this.fetched = [];
    const names = [];
    for (const {u, ok, no} of l) {
      names.push(u);
      const file = path.join(dist, u);
      const there = fs.existsSync(file) && how !== 'missing';
      if (how === 'offline') { no(new TypeError('Failed to fetch')); continue; }
      const bytes = () => {
        if (!there) return Buffer.from('<html>not found');
        const b = fs.readFileSync(file);
        return how === 'cut' ? b.subarray(0, b.length >> 1) : b;
      };
      const arrayBuffer = async () => { const b = bytes(); return b.buffer.slice(b.byteOffset, b.byteOffset + b.length); };
      ok({ok: there, status: there ? 200 : 404, file, broken: how === 'cut' || !there, arrayBuffer, text: async () => bytes().toString()});
    }
    await this.settle();
    return names;
  }

  // exit ends the instance, through the function the instance calls for that.
  async exit(code) {
    const go = this.go, sp = 1 << 16;
    this.exited = code;
    this.guard(() => {
      const dv = new DataView(go._inst.exports.mem.buffer);
      dv.setInt32(sp + 8, code, true);
      const e = go.importObject.gojs['runtime.wasmExit'](sp);
      go._resolveExitPromise && go._resolveExitPromise();
      return e;
    });
    await this.settle();
  }

  state() {
    const el = id => { const e = this.byId.get(id); return e ? {text: e._text, value: e._value, visible: e.visible} : null; };
    const s = {input: el('input'), output: el('output'), success: el('success'), error: el('error'),
      parses: this.parses, uncaught: this.uncaught, logs: this.logs, ready: this.ready, timers: this.timers.length,
      copied: this.copied, navigated: this.navigated, missing: this.missing};
    this.parses = []; this.uncaught = []; this.logs = [];
    return s;
  }
}

const out = o => {
  const b = Buffer.from(JSON.stringify(o).replace(/[\ud800-\udfff]/g, c => '\\u' + c.charCodeAt(0).toString(16)) + '\n');
  for (let p = 0; p < b.length;) {
    try { p += fs.writeSync(1, b, p); } catch (e) { if (e.code !== 'EAGAIN') throw e; }
  }
};

(async () => {
  const rl = require('readline').createInterface({input: process.stdin, crlfDelay: Infinity});
  for await (const line of rl) {
    const answers = [];
    for (const c of JSON.parse(line)) {
      let extra = {};
      try {
        switch (c.op) {
        case 'open': page = new Page(c); await page.open(); break;
        case 'type': { const e = page.byId.get('input'); e.value = c.text; e.dispatchEvent(new EventBase('input')); await page.settle(); break; }
        case 'advance': await page.advance(c.ms); break;
        case 'load': extra.names = await page.load(c.how); break;
        case 'exit': await page.exit(c.code); break;
        case 'share': page.copied = page.navigated = null; page.selected = null; page.byId.get('share').dispatchEvent(new EventBase('click')); await page.settle(); break;
        case 'hash': page.setURL(c.url); page.win.dispatchEvent(new EventBase('hashchange')); await page.settle(); break;
        }
      } catch (e) { extra.host = String(e && e.stack || e); }
      answers.push(Object.assign(c.quiet ? {} : page.state(), extra));
    }
    out(answers);
  }
  process.exit(0);
})().catch(e => { out([{host: String(e && e.stack || e)}]); process.exit(3); });
