// Reads one JSON request per line and answers with one JSON line.
const acorn = require(process.argv[2]);
const rl = require('readline').createInterface({input: process.stdin, crlfDelay: Infinity});
function strip(v) {
  if (Array.isArray(v)) { for (const e of v) strip(e); return; }
  if (v && typeof v === 'object') {
    delete v.start; delete v.end;
    if (v.regex) delete v.value;
    if (v.type === 'Literal' && typeof v.value === 'bigint') v.value = String(v.value);
    for (const k in v) strip(v[k]);
  }
}
// spans returns [type, detail, start, end] of all nodes of a tree.
function spans(ast) {
  const out = [];
  (function walk(n) {
    if (Array.isArray(n)) { for (const e of n) walk(e); return; }
    if (!n || typeof n !== 'object' || n instanceof RegExp) return;
    if (n.type) out.push([n.type, n.name ?? n.raw ?? '', n.start, n.end]);
    for (const k in n) if (k !== 'value' || n.type !== 'Literal') walk(n[k]);
  })(ast);
  return out;
}
// unwrap removes the nodes of parentheses.
function unwrap(v) {
  if (v && v.type === 'ParenthesizedExpression') return unwrap(v.expression);
  if (Array.isArray(v) || v && typeof v === 'object') for (const k in v) v[k] = unwrap(v[k]);
  return v;
}
const vm = require('vm');
function v8(q) {
  try {
    if (q.mode === 'module') new vm.SourceTextModule(q.src);
    else new vm.Script(q.mode === 'expression' ? '(' + q.src + '\n)' : q.src);
    return {ok: true};
  } catch (e) {
    return {ok: false, err: String(e.message), internal: !(e instanceof SyntaxError)};
  }
}
// pieces returns the statements and expressions of a program, each as its
// tokens with the gaps before them, and the token ranges of the expressions in
// it.
function pieces(q) {
  const toks = [];
  const opt = {ecmaVersion: 'latest', sourceType: q.mode === 'module' ? 'module' : 'script', onToken: t => toks.push(t),
    allowReturnOutsideFunction: true, allowHashBang: true, checkPrivateFields: false};
  let ast;
  try { ast = acorn.parse(q.src, opt); } catch (e) { return {ok: false, err: String(e.message)}; }
  const at = new Map(), to = new Map();
  toks.forEach((t, i) => { at.set(t.start, i); to.set(t.end, i); });
  const all = [];
  (function walk(n, parent) {
    if (Array.isArray(n)) { for (const e of n) walk(e, parent); return; }
    if (!n || typeof n !== 'object' || !n.type) return;
    const stmt = /Statement$|Declaration$/.test(n.type);
    const expr = /Expression$|^Literal$|^Identifier$/.test(n.type) && (/Expression$|Statement$|Property$|Declarator$|Pattern$/.test(parent.type)) && !(parent.key === n || parent.property === n || parent.id === n || parent.local === n);
    if ((stmt || expr) && at.has(n.start) && to.has(n.end)) all.push([n.start, n.end, stmt, at.get(n.start), to.get(n.end)]);
    for (const k in n) if (k !== 'start' && k !== 'end') walk(n[k], n);
  })(ast, {type: 'Program'});
  const fits = all.filter(p => p[1] - p[0] <= q.max && p[1] - p[0] >= (p[2] ? 3 : 12));
  let seed = q.seed >>> 0;
  const rnd = n => { seed = (Math.imul(seed, 1664525) + 1013904223) >>> 0; return Math.floor(seed / 4294967296 * n); };
  const out = [];
  while (out.length < q.count && fits.length) {
    const p = fits.splice(rnd(fits.length), 1)[0];
    const l = [];
    for (let i = p[3]; i <= p[4]; i++)
      l.push(i === p[3] ? '' : q.src.slice(toks[i - 1].end, toks[i].start), q.src.slice(toks[i].start, toks[i].end));
    out.push({stmt: p[2], toks: l, exprs: all.filter(e => !e[2] && e[0] >= p[0] && e[1] <= p[1] && (e[0] > p[0] || e[1] < p[1])).map(e => [e[3] - p[3], e[4] - p[3] + 1])});
  }
  return {ok: true, pieces: out};
}
rl.on('line', line => {
  const q = JSON.parse(line);
  let out;
  if (q.pieces) {
    process.stdout.write(JSON.stringify(pieces(q)) + '\n');
    return;
  }
  if (q.idtable) {
    // 1: may start an identifier, 2: may continue one; one digit per code point.
    const st = /^[\p{ID_Start}$_]$/u, co = /^[\p{ID_Continue}$\u200c\u200d]$/u;
    let s = '';
    for (let c = 0; c <= 0x10ffff; c++) {
      const x = String.fromCodePoint(c);
      s += (c >= 0xd800 && c < 0xe000) ? '0' : String((st.test(x) ? 1 : 0) + (co.test(x) ? 2 : 0));
    }
    process.stdout.write(JSON.stringify({ok: true, err: s}) + '\n');
    return;
  }
  if (q.v8) {
    process.stdout.write(JSON.stringify(v8(q)) + '\n');
    return;
  }
  try {
    const opt = {ecmaVersion: q.version || 2022, sourceType: q.mode === 'module' ? 'module' : 'script',
      allowReturnOutsideFunction: !!q.allowReturn, checkPrivateFields: false};
    const toks = q.tokens || q.spans ? [] : null;
    if (q.spans || q.parens) opt.preserveParens = true;
    let escaped = false, html = false;
    if (toks || q.src.includes('\\u'))
      opt.onToken = t => {
        if (toks) toks.push([t.start, t.end, t.type.label]);
        if (t.type.label !== 'string' && t.type.label !== 'regexp' && t.type.label !== 'template' && q.src.slice(t.start, t.end).includes('\\')) escaped = true;
      };
    if (q.src.includes('<!--') || q.src.includes('-->'))
      opt.onComment = (block, text, start) => { if (!block && q.src.slice(start, start + 2) !== '//') html = true; };
    let ast, end;
    if (q.mode === 'expression') {
      // Not parseExpressionAt, which does not tell where it stopped.
      const p = new acorn.Parser(opt, q.src, 0);
      p.nextToken();
      ast = p.parseExpression();
      if (p.type.label !== 'eof') throw Object.assign(new SyntaxError('Unexpected token after expression'), {pos: p.start});
      end = q.src.length;
    } else {
      ast = acorn.parse(q.src, opt);
      end = ast.end;
    }
    let sp;
    if (q.spans) {
      sp = spans(ast);
      ast = unwrap(ast);
    }
    if (!q.noast) strip(ast);
    out = {ok: true, end, escaped, html};
    if (sp) out.spans = sp;
    if (!q.noast) out.ast = ast;
    if (toks) out.tokens = toks;
  } catch (e) {
    out = {ok: false, err: String(e.message), pos: e.pos, raised: e.raisedAt};
    if (!(e instanceof SyntaxError)) out.internal = true;
  }
  process.stdout.write(JSON.stringify(out).replace(/\u2028/g, '\\u2028').replace(/\u2029/g, '\\u2029') + '\n');
});
