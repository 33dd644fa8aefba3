// dumps, from the syntax tree of the client library, the pool account layout, the curve type table and the primitive sizes
const path = require('path');
let ts;
for (const p of ['/opt/veriftools/node/node_modules/typescript', 'typescript']) { try { ts = require(p); break; } catch (e) {} }
const fs = require('fs');
const parse = f => ts.createSourceFile(f, fs.readFileSync(f, 'utf8'), ts.ScriptTarget.ES2020, true);
const out = {layout: null, curveType: {}, prims: {}};
const callee = e => ts.isPropertyAccessExpression(e.expression) ? e.expression.name.text : e.expression.getText();
const str = e => e && ts.isStringLiteralLike(e) ? e.text : null;
const consts = {}, busy = new Set();
const num = e => {
  if (!e) return null;
  if (ts.isNumericLiteral(e)) return Number(e.text);
  if (ts.isBinaryExpression(e)) { const a = num(e.left), b = num(e.right); if (a === null || b === null) return null;
    switch (e.operatorToken.kind) { case ts.SyntaxKind.PlusToken: return a + b; case ts.SyntaxKind.AsteriskToken: return a * b; case ts.SyntaxKind.MinusToken: return a - b; } }
  if (ts.isParenthesizedExpression(e) || ts.isAsExpression(e)) return num(e.expression);
  if (ts.isIdentifier(e) && consts[e.text] && !busy.has(e.text)) { busy.add(e.text); const v = num(consts[e.text]); busy.delete(e.text); return v; }
  return null;
};
const idx = parse(process.argv[2]), lay = parse(process.argv[3]);
const arr = e => { while (e && (ts.isAsExpression(e) || ts.isParenthesizedExpression(e))) e = e.expression;
  if (e && ts.isIdentifier(e) && consts[e.text]) return arr(consts[e.text]);
  if (!e || !ts.isArrayLiteralExpression(e)) return null;
  let r = []; for (const x of e.elements) { if (ts.isSpreadElement(x)) { const y = arr(x.expression); if (!y) return null; r = r.concat(y); } else r.push(x); } return r; };
(function visit(n) { if (ts.isVariableDeclaration(n) && n.initializer && ts.isIdentifier(n.name)) consts[n.name.text] = n.initializer; ts.forEachChild(n, visit); })(idx);
const L = consts['TokenSwapLayout'];
if (!L || !ts.isCallExpression(L)) { console.error('TokenSwapLayout'); process.exit(3); }
const els = arr(L.arguments[0]);
if (!els) { console.error('TokenSwapLayout fields'); process.exit(3); }
out.layout = els.map(e => { const k = callee(e); if (k === 'blob') return {kind: k, size: num(e.arguments[0]), name: str(e.arguments[1])}; return {kind: k, name: str(e.arguments[0])}; });
let ct = consts['CurveType'];
while (ct && ts.isCallExpression(ct)) ct = ct.arguments[0];
if (ct && ts.isObjectLiteralExpression(ct)) for (const p of ct.properties) if (ts.isPropertyAssignment(p)) out.curveType[p.name.getText().replace(/['"]/g, '')] = num(p.initializer);
(function visit(n) { // enum form
  if (ts.isEnumDeclaration(n) && n.name.text === 'CurveType') { let v = 0; for (const m of n.members) { if (m.initializer) v = num(m.initializer); out.curveType[m.name.getText()] = v++; } }
  ts.forEachChild(n, visit); })(idx);
(function visit(n, name) {
  if (ts.isVariableDeclaration(n) && ts.isIdentifier(n.name)) name = n.name.text;
  if (ts.isFunctionDeclaration(n) && n.name) name = n.name.text;
  if (name && ts.isCallExpression(n) && callee(n) === 'blob' && !(name in out.prims)) out.prims[name] = num(n.arguments[0]);
  ts.forEachChild(n, c => visit(c, name)); })(lay, null);
// loading: which decoded fields flow into which constructor parameter, and which parameter each property is set from
const isDecode = n => ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === 'decode' && n.expression.expression.getText() === 'TokenSwapLayout';
const has = (n, f) => f(n) || !!ts.forEachChild(n, c => has(c, f) || undefined);
let ctor = null;
(function visit(n) { if (ts.isClassDeclaration(n) && n.name && n.name.text === 'TokenSwap') for (const m of n.members) if (ts.isConstructorDeclaration(m)) ctor = m; ts.forEachChild(n, visit); })(idx);
out.props = {}; out.load = [];
if (ctor) {
  const params = ctor.parameters.map(q => q.name.getText());
  for (const q of ctor.parameters) if (q.modifiers && q.modifiers.length) out.props[q.name.getText()] = q.name.getText();
  (function visit(n) { if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.EqualsToken && ts.isPropertyAccessExpression(n.left) && n.left.expression.kind === ts.SyntaxKind.ThisKeyword)
    out.props[n.left.name.text] = n.right.getText(); ts.forEachChild(n, visit); })(ctor.body);
  (function fns(n) {
    if ((ts.isMethodDeclaration(n) || ts.isFunctionDeclaration(n)) && n.body && has(n.body, isDecode)) {
      const env = {}, dec = new Set(), direct = {};
      (function visit(x) {
        if (ts.isVariableDeclaration(x) && x.initializer) {
          const whole = isDecode(x.initializer) || ts.isIdentifier(x.initializer) && dec.has(x.initializer.text);
          if (ts.isIdentifier(x.name)) { if (whole) dec.add(x.name.text); else env[x.name.text] = x.initializer; }
          else if (ts.isObjectBindingPattern(x.name) && whole) for (const b of x.name.elements) direct[b.name.getText()] = (b.propertyName || b.name).getText();
          else if (ts.isArrayBindingPattern(x.name)) for (const b of x.name.elements) if (b.name) env[b.name.getText()] = x.initializer;
        }
        ts.forEachChild(x, visit);
      })(n.body);
      const flow = (e, acc, seen) => {
        if (ts.isPropertyAccessExpression(e) && (ts.isIdentifier(e.expression) && dec.has(e.expression.text) || isDecode(e.expression))) { acc.add(e.name.text); return; }
        if (ts.isElementAccessExpression(e) && ts.isIdentifier(e.expression) && dec.has(e.expression.text)) { acc.add(str(e.argumentExpression) || '?'); return; }
        if (ts.isPropertyAccessExpression(e)) { flow(e.expression, acc, seen); return; }
        if (ts.isPropertyAssignment(e)) { flow(e.initializer, acc, seen); return; }
        if (ts.isIdentifier(e)) {
          if (direct[e.text]) acc.add(direct[e.text]);
          else if (dec.has(e.text)) acc.add('*');
          else if (env[e.text] && !seen.has(e.text)) flow(env[e.text], acc, new Set([...seen, e.text]));
          return;
        }
        ts.forEachChild(e, c => flow(c, acc, seen));
      };
      (function visit(x) {
        if (ts.isNewExpression(x) && x.expression.getText() === 'TokenSwap') {
          const m = {};
          (x.arguments || []).forEach((a, i) => { const acc = new Set(); flow(a, acc, new Set()); m[params[i]] = [...acc].sort(); });
          out.load.push(m);
        }
        ts.forEachChild(x, visit);
      })(n.body);
    }
    ts.forEachChild(n, fns);
  })(idx);
}
// numbers: which byte of the stored eight is the most significant digit pair of Numberu64.fromBuffer, ... (null: form not understood)
const byteFn = (e, name, b) => {            // value of an expression over one byte
  if (ts.isParenthesizedExpression(e) || ts.isAsExpression(e)) return byteFn(e.expression, name, b);
  if (ts.isIdentifier(e)) return e.text === name ? b : undefined;
  if (ts.isNumericLiteral(e)) return Number(e.text);
  if (ts.isStringLiteralLike(e)) return e.text;
  if (ts.isPrefixUnaryExpression(e) && e.operator === ts.SyntaxKind.MinusToken) { const v = byteFn(e.operand, name, b); return typeof v === 'number' ? -v : undefined; }
  if (ts.isTemplateExpression(e)) { let r = e.head.text; for (const q of e.templateSpans) { const v = byteFn(q.expression, name, b); if (v === undefined) return undefined; r += v + q.literal.text; } return r; }
  if (ts.isBinaryExpression(e)) { const x = byteFn(e.left, name, b), y = byteFn(e.right, name, b); if (x === undefined || y === undefined) return undefined;
    switch (e.operatorToken.kind) { case ts.SyntaxKind.PlusToken: return x + y; case ts.SyntaxKind.LessThanToken: return x < y; case ts.SyntaxKind.GreaterThanToken: return x > y;
      case ts.SyntaxKind.LessThanEqualsToken: return x <= y; case ts.SyntaxKind.GreaterThanEqualsToken: return x >= y; } return undefined; }
  if (ts.isConditionalExpression(e)) { const c = byteFn(e.condition, name, b); return c === undefined ? undefined : byteFn(c ? e.whenTrue : e.whenFalse, name, b); }
  if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression)) {
    const o = byteFn(e.expression.expression, name, b), a = e.arguments.map(x => byteFn(x, name, b)), m = e.expression.name.text;
    if (o === undefined || a.includes(undefined)) return undefined;
    if (m === 'toString' && typeof o === 'number' && a.length === 1 && Number.isInteger(a[0]) && a[0] >= 2 && a[0] <= 36) return o.toString(a[0]);
    if (typeof o === 'string' && m === 'slice') return o.slice(...a);
    if (typeof o === 'string' && (m === 'padStart' || m === 'padEnd') && a.length === 2) return o[m](a[0], a[1]);
  }
  return undefined;
};
const bytesOf = (e, env) => {                // {k: 'bytes' | 'hexes' | 'hex' | 'wrong', o: byte numbers in order}
  if (ts.isParenthesizedExpression(e) || ts.isAsExpression(e)) return bytesOf(e.expression, env);
  if (ts.isIdentifier(e)) { const v = env[e.text]; return !v ? null : v.k ? v : bytesOf(v, env); }
  if (ts.isArrayLiteralExpression(e)) { if (e.elements.length !== 1 || !ts.isSpreadElement(e.elements[0])) return null; const v = bytesOf(e.elements[0].expression, env); return v && v.k === 'bytes' ? v : null; }
  if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression)) {
    const m = e.expression.name.text, on = e.expression.expression.getText(), a = e.arguments;
    if ((on === 'Array' || on === 'Buffer' || on === 'Uint8Array') && m === 'from' && a.length === 1) { const v = bytesOf(a[0], env); return v && v.k === 'bytes' ? v : null; }
    const v = bytesOf(e.expression.expression, env);
    if (!v || v.k === 'wrong') return v;
    if (m === 'reverse' && !a.length && v.k !== 'hex') return {k: v.k, o: [...v.o].reverse()};
    if ((m === 'slice' || m === 'subarray') && v.k !== 'hex') { const n = a.map(num); return n.includes(null) ? null : {k: v.k, o: v.o.slice(...n)}; }
    if (m === 'toString' && v.k === 'bytes' && a.length === 1 && str(a[0]) === 'hex') return {k: 'hex', o: v.o};
    if (m === 'join' && v.k === 'hexes' && a.length === 1 && str(a[0]) === '') return {k: 'hex', o: v.o};
    if (m === 'map' && v.k === 'bytes' && a.length === 1 && ts.isArrowFunction(a[0]) && a[0].parameters.length === 1) {
      let body = a[0].body;
      if (ts.isBlock(body)) { if (body.statements.length !== 1 || !ts.isReturnStatement(body.statements[0])) return null; body = body.statements[0].expression; }
      let ok = true;
      for (let b = 0; b < 256; b++) { const t = byteFn(body, a[0].parameters[0].name.getText(), b); if (t === undefined) return null;
        if (t !== (b < 16 ? '0' : '') + b.toString(16)) ok = false; }
      return ok ? {k: 'hexes', o: v.o} : {k: 'wrong', why: 'a byte is not written as its two hexadecimal digits'};
    }
  }
  return null;
};
out.u64 = null;
(function visit(n) {
  if (ts.isMethodDeclaration(n) && n.name.getText() === 'fromBuffer' && n.body && ts.isClassDeclaration(n.parent) && n.parent.name && n.parent.name.text === 'Numberu64' && n.parameters.length === 1) {
    const env = {[n.parameters[0].name.getText()]: {k: 'bytes', o: [0, 1, 2, 3, 4, 5, 6, 7]}};
    let ret = null, clean = true;
    (function w(x) { if (ts.isVariableDeclaration(x) && x.initializer && ts.isIdentifier(x.name)) env[x.name.text] = x.initializer;
      if (ts.isReturnStatement(x)) { if (ret) clean = false; ret = x.expression; }
      if (ts.isFunctionLike(x)) return;
      ts.forEachChild(x, w); })(n.body);
    if (ret && clean && ts.isNewExpression(ret)) {
      const a = ret.arguments || [], v = a.length ? bytesOf(a[0], env) : null, end = a.map(str).find(x => x === 'le' || x === 'be');
      if (v && v.k === 'wrong') out.u64 = {wrong: v.why};
      else if (v && v.k === 'hex') { const r = a.length > 1 ? num(a[1]) : 10; if (r !== null) out.u64 = r === 16 || str(a[1]) === 'hex' ? {o: end === 'le' ? null : v.o} : {wrong: 'hexadecimal digits are read in base ' + r};
        else if (str(a[1]) === 'hex') out.u64 = {o: v.o}; }
      else if (v && v.k === 'bytes') out.u64 = {o: end === 'le' ? [...v.o].reverse() : v.o};
    }
  }
  ts.forEachChild(n, visit);
})(idx);
// what loading refuses: for each of the two conditions, whether a throw is reached when it fails
const refuses = (files, lit, word) => {           // lit(node): true when the node is the wanted condition itself; result: 'yes', 'wrong', 'never' or null
  let res = [], mention = false;
  const sign = e => {                        // 1: e implies the condition fails, -1: e implies it holds, null: unknown
    if (ts.isParenthesizedExpression(e) || ts.isAsExpression(e)) return sign(e.expression);
    if (lit(e)) return -1;
    if (ts.isPrefixUnaryExpression(e) && e.operator === ts.SyntaxKind.ExclamationToken) { const s = sign(e.operand); return s === null ? null : -s; }
    if (ts.isBinaryExpression(e)) {
      const k = e.operatorToken.kind, eq = k === ts.SyntaxKind.EqualsEqualsToken || k === ts.SyntaxKind.EqualsEqualsEqualsToken,
        ne = k === ts.SyntaxKind.ExclamationEqualsToken || k === ts.SyntaxKind.ExclamationEqualsEqualsToken;
      if (eq || ne) { const t = e.right.getText(), s = sign(e.left), z = t === '0' || t === 'false', o = t === '1' || t === 'true';
        if (s === null || !(z || o)) return null; return (z ? -s : s) * (ne ? -1 : 1); }
      if (k === ts.SyntaxKind.BarBarToken) { const x = sign(e.left), y = sign(e.right); return x === 1 || y === 1 ? 1 : x === -1 || y === -1 ? -1 : null; }
    }
    return null;
  };
  const throws = n => n && (ts.isThrowStatement(n) || ts.isBlock(n) && n.statements.some(throws));
  for (const f of files) (function visit(n) {
    if (ts.isThrowStatement(n)) return;         // a message naming it is no test
    if (lit(n) || word(n)) mention = true;
    if (ts.isIfStatement(n) && has(n.expression, lit)) { const s = sign(n.expression), a = throws(n.thenStatement), b = throws(n.elseStatement);
      if (s === null || !a && !b) res.push(null); else res.push(a ? (s === 1 ? 'yes' : 'wrong') : (s === -1 ? 'yes' : 'wrong')); }
    else if (ts.isCallExpression(n) && n.expression.getText().startsWith('assert') && n.arguments.length && has(n.arguments[0], lit)) { const s = sign(n.arguments[0]); res.push(s === null ? null : s === -1 ? 'yes' : 'wrong'); }
    ts.forEachChild(n, visit);
  })(f);
  if (res.includes('yes')) return 'yes';
  if (res.includes('wrong')) return 'wrong';
  return mention ? null : 'never';
};
const util = fs.existsSync(path.join(path.dirname(process.argv[2]), 'util')) ? fs.readdirSync(path.join(path.dirname(process.argv[2]), 'util')).filter(f => f.endsWith('.ts')).map(f => parse(path.join(path.dirname(process.argv[2]), 'util', f))) : [];
const all = [idx, ...util];
out.checksFlag = refuses(all, n => ts.isPropertyAccessExpression(n) && n.name.text === 'isInitialized' || ts.isIdentifier(n) && n.text === 'isInitialized' && !ts.isPropertyAccessExpression(n.parent), n => ts.isIdentifier(n) && n.text === 'isInitialized');
out.checksOwner = refuses(all, n => ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === 'equals' && /program/i.test(n.getText()) && (/owner/.test(n.expression.expression.getText()) || n.arguments.length === 1 && /owner/.test(n.arguments[0].getText())),
  n => (ts.isCallExpression(n) || ts.isBinaryExpression(n)) && has(n, x => ts.isIdentifier(x) && /^owner$|Owner$/.test(x.text)) && has(n, x => ts.isIdentifier(x) && /program/i.test(x.text)));
// the bytes decoded start at the start of the account
out.cut = [];
for (const f of all) (function visit(n) {
  if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && (n.expression.name.text === 'slice' || n.expression.name.text === 'subarray') && /data$/i.test(n.expression.expression.getText())) {
    const v = n.arguments.length ? num(n.arguments[0]) : 0; if (v) out.cut.push(n.getText()); }
  if (isDecode(n) && n.arguments.length > 1 && num(n.arguments[1])) out.cut.push(n.getText());
  ts.forEachChild(n, visit); })(f);
// the authority of a loaded pool is derived from the pool's address alone
out.seeds = [];
(function visit(n) {
  if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && /^findProgramAddress(Sync)?$/.test(n.expression.name.text)) {
    const a = arr(n.arguments[0]); out.seeds.push({n: a ? a.length : null, seed: a ? a.map(x => x.getText()) : null, prog: n.arguments[1] ? n.arguments[1].getText() : null}); }
  ts.forEachChild(n, visit); })(idx);
console.log(JSON.stringify(out));
