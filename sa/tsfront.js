// tsfront: parses TypeScript (one JSON request per line on stdin: {path}|{text}) and prints the same small tree as rsfront.
const ts = require('/opt/veriftools/node/node_modules/typescript');
const fs = require('fs');
const S = ts.SyntaxKind;
let sf;
const ln = (n) => { try { return sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1; } catch (e) { return 0; } };
const txt = (n) => n ? n.getText(sf).replace(/\s+/g, ' ') : null;
function id(t) { return t === 'self' ? '$self' : t; }   // 'self' stands for `this`
function name(n) { return n ? (n.text !== undefined ? n.text : txt(n)) : null; }
function lit(t, v, n) { return { k: 'lit', t, v, l: ln(n) }; }
const plain = new Set();   // links of optional chains that were taken care of
function chained(e) {
  // a?.b.c() is: a === undefined ? undefined : a.b.c()
  let q = e;
  while (q) {
    if (q.questionDotToken && !plain.has(q)) return q;
    if (q.kind === S.PropertyAccessExpression || q.kind === S.ElementAccessExpression || q.kind === S.CallExpression || q.kind === S.NonNullExpression) q = q.expression;
    else return null;
  }
  return null;
}
function expr(e) {
  if (!e) return null;
  const l = ln(e);
  if (ts.isOptionalChain && ts.isOptionalChain(e)) {
    const q = chained(e);
    if (q) {
      const test = { k: 'bin', op: '==', a: expr(q.expression), b: { k: 'path', p: 'undefined', l }, l };
      plain.add(q);
      const r = { k: 'if', c: test, t: { k: 'path', p: 'undefined', l }, e: expr(e), l, tern: true };
      plain.delete(q);
      return r;
    }
  }
  switch (e.kind) {
    case S.NumericLiteral: return /^[0-9]+$/.test(e.text) ? lit('int', e.text, e) : lit('float', e.text, e);
    case S.BigIntLiteral: return lit('int', e.text.replace(/n$/, ''), e);
    case S.StringLiteral: case S.NoSubstitutionTemplateLiteral: return lit('str', e.text, e);
    case S.TrueKeyword: return lit('bool', true, e);
    case S.FalseKeyword: return lit('bool', false, e);
    case S.NullKeyword: return { k: 'path', p: 'null', l };
    case S.ThisKeyword: return { k: 'path', p: 'self', l };
    case S.SuperKeyword: return { k: 'path', p: 'super', l };
    case S.Identifier: return { k: 'path', p: id(e.text), l };
    case S.RegularExpressionLiteral: return { k: 'lit', t: 'regex', v: e.text, l };
    case S.ParenthesizedExpression: return expr(e.expression);
    case S.AsExpression: case S.TypeAssertionExpression: case S.NonNullExpression: case S.SatisfiesExpression: return expr(e.expression);
    case S.PropertyAccessExpression: return { k: 'field', e: expr(e.expression), n: e.name.text, l, opt: !!e.questionDotToken };
    case S.ElementAccessExpression: return { k: 'index', e: expr(e.expression), i: expr(e.argumentExpression), l };
    case S.CallExpression: {
      const a = e.arguments.map(expr);
      let f = e.expression; while (f.kind === S.ParenthesizedExpression || f.kind === S.NonNullExpression || f.kind===S.AsExpression) f = f.expression;
      if (f.kind === S.PropertyAccessExpression) return { k: 'mcall', e: expr(f.expression), n: f.name.text, a, l: ln(f.name), g: e.typeArguments ? e.typeArguments.map(txt).join(',') : undefined };
      return { k: 'call', f: expr(f), a, l };
    }
    case S.NewExpression: return { k: 'new', ty: txt(e.expression), g: e.typeArguments ? e.typeArguments.map(txt).join(',') : undefined, a: (e.arguments || []).map(expr), l };
    case S.PrefixUnaryExpression: {
      const op = ts.tokenToString(e.operator);
      if (op === '++' || op === '--') return { k: 'asgop', op: op[0], a: expr(e.operand), b: { k: 'lit', t: 'int', v: '1', l }, pre: true, l };
      return { k: 'un', op, e: expr(e.operand), l };
    }
    case S.PostfixUnaryExpression: return { k: 'asgop', op: ts.tokenToString(e.operator)[0], a: expr(e.operand), b: { k: 'lit', t: 'int', v: '1', l }, post: true, l };
    case S.BinaryExpression: {
      let op = ts.tokenToString(e.operatorToken.kind);
      if (op === '=') {
        if (e.left.kind===S.ArrayLiteralExpression || e.left.kind===S.ObjectLiteralExpression) return {k:'other',s:txt(e),l};
        return { k: 'asg', a: expr(e.left), b: expr(e.right), l };
      }
      if (/^(\+|-|\*|\/|%|&|\||\^|<<|>>|>>>|\*\*|&&|\|\||\?\?)=$/.test(op)) return { k: 'asgop', op: op.slice(0, -1), a: expr(e.left), b: expr(e.right), l };
      if (op === '===' || op === '==') op = '=='; if (op === '!==' || op === '!=') op = '!=';
      if (op === 'instanceof') return { k: 'bin', op, a: expr(e.left), b: { k: 'path', p: txt(e.right), l }, l };
      return { k: 'bin', op, a: expr(e.left), b: expr(e.right), l };
    }
    case S.ConditionalExpression: return { k: 'if', c: expr(e.condition), t: expr(e.whenTrue), e: expr(e.whenFalse), l, tern: true };
    case S.ArrowFunction: case S.FunctionExpression:
      return { k: 'closure', params: e.parameters.map((p) => param(p).pat), b: e.body.kind === S.Block ? block(e.body) : expr(e.body), exprBody: e.body.kind !== S.Block, l };
    case S.ArrayLiteralExpression: return { k: 'array', e: e.elements.map(expr), l };
    case S.SpreadElement: return { k: 'spread', e: expr(e.expression), l };
    case S.ObjectLiteralExpression: return {
      k: 'slit', p: '', l, f: e.properties.filter(p => p.kind !== S.SpreadAssignment).map((p) => {
        if (p.kind === S.PropertyAssignment) return [name(p.name), expr(p.initializer)];
        if (p.kind === S.ShorthandPropertyAssignment) return [p.name.text, { k: 'path', p: id(p.name.text), l: ln(p) }];
        return [name(p.name), fn(p)];
      }), rest: (e.properties.find(p => p.kind === S.SpreadAssignment) ? expr(e.properties.find(p => p.kind === S.SpreadAssignment).expression) : null)
    };
    case S.TemplateExpression: {
      const parts = [e.head.text]; const a = [];
      for (const s of e.templateSpans) { a.push(expr(s.expression)); parts.push(s.literal.text); }
      return { k: 'tmpl', parts, a, l };
    }
    case S.TypeOfExpression: return { k: 'un', op: 'typeof', e: expr(e.expression), l };
    case S.VoidExpression: return { k: 'un', op: 'void', e: expr(e.expression), l };
    case S.DeleteExpression: return { k: 'un', op: 'delete', e: expr(e.expression), l };
    case S.AwaitExpression: return { k: 'await', e: expr(e.expression), l };
    default: return { k: 'other', s: txt(e), l };
  }
}
function pat(n) {
  const l = ln(n);
  if (n.kind === S.Identifier) return { k: 'pid', n: id(n.text), l };
  if (n.kind === S.ObjectBindingPattern) return { k: 'pst', p: '', f: n.elements.map(x => [x.propertyName ? name(x.propertyName) : name(x.name), pat(x.name)]), rest: true, l };
  if (n.kind === S.ArrayBindingPattern) return { k: 'ptup', e: n.elements.map(x => x.name ? pat(x.name) : { k: 'pwild' }), l };
  return { k: 'pother', s: txt(n), l };
}
function param(p) {
  return { pat: Object.assign(pat(p.name), p.type ? { ty: txt(p.type) } : {}), ty: p.type ? txt(p.type) : null, init: p.initializer ? expr(p.initializer) : undefined, opt: !!p.questionToken, prop: !!(p.modifiers && p.modifiers.length) };
}
function block(b) {
  const s = []; for (const x of b.statements) { const v = stmt(x); if (v) (Array.isArray(v) ? s.push(...v) : s.push(v)); }
  return { k: 'block', s, l: ln(b) };
}
function asBlock(s) { if (!s) return null; if (s.kind === S.Block) return block(s); const v = stmt(s); return { k: 'block', s: v ? (Array.isArray(v) ? v : [v]) : [], l: ln(s) }; }
function decls(d) { return d.declarations.map((x) => ({ k: 'let', pat: Object.assign(pat(x.name), x.type ? { ty: txt(x.type) } : {}), init: x.initializer ? expr(x.initializer) : null, l: ln(x) })); }
function ex(e, l) { return { k: 'expr', e, semi: true, l }; }
function stmt(n) {
  const l = ln(n);
  switch (n.kind) {
    case S.VariableStatement: return decls(n.declarationList);
    case S.ExpressionStatement: return ex(expr(n.expression), l);
    case S.ReturnStatement: return ex({ k: 'ret', e: expr(n.expression), l }, l);
    case S.IfStatement: {
      const e = n.elseStatement ? (n.elseStatement.kind === S.IfStatement ? stmt(n.elseStatement).e : asBlock(n.elseStatement)) : null;
      return ex({ k: 'if', c: expr(n.expression), t: asBlock(n.thenStatement), e, l }, l);
    }
    case S.Block: return ex(block(n), l);
    case S.ThrowStatement: return ex({ k: 'throw', e: expr(n.expression), l }, l);
    case S.BreakStatement: return ex({ k: 'break', e: null, label: n.label ? n.label.text : null, l }, l);
    case S.ContinueStatement: return ex({ k: 'cont', label: n.label ? n.label.text : null, l }, l);
    case S.WhileStatement: return ex({ k: 'while', c: expr(n.expression), b: asBlock(n.statement), l }, l);
    case S.DoStatement: return ex({ k: 'dowhile', c: expr(n.expression), b: asBlock(n.statement), l }, l);
    case S.ForOfStatement: {
      const p = n.initializer.kind === S.VariableDeclarationList ? pat(n.initializer.declarations[0].name) : { k: 'pother' };
      return ex({ k: 'for', pat: p, e: expr(n.expression), b: asBlock(n.statement), l }, l);
    }
    case S.ForInStatement: {
      const p = n.initializer.kind === S.VariableDeclarationList ? pat(n.initializer.declarations[0].name) : { k: 'pother' };
      return ex({ k: 'for', pat: p, e: { k: 'mcall', n: 'keys', e: expr(n.expression), a: [], l }, b: asBlock(n.statement), l }, l);
    }
    case S.ForStatement: {
      const init = n.initializer ? (n.initializer.kind === S.VariableDeclarationList ? decls(n.initializer) : [ex(expr(n.initializer), l)]) : [];
      return ex({ k: 'cfor', init, c: n.condition ? expr(n.condition) : lit('bool', true, n), u: n.incrementor ? expr(n.incrementor) : null, b: asBlock(n.statement), l }, l);
    }
    case S.SwitchStatement: {
      const arms = []; let labels = []; 
      for (const c of n.caseBlock.clauses) {
        labels.push(c.kind === S.DefaultClause ? null : expr(c.expression));
        if (c.statements.length === 0) continue;
        arms.push({ labels, body: block(c), l: ln(c) }); labels = [];
      }
      if (labels.length) arms.push({ labels, body: { k: 'block', s: [], l }, l });
      return ex({ k: 'switch', e: expr(n.expression), arms, l }, l);
    }
    case S.TryStatement: return ex({ k: 'trycatch', b: block(n.tryBlock), pat: n.catchClause && n.catchClause.variableDeclaration ? pat(n.catchClause.variableDeclaration.name) : null, h: n.catchClause ? block(n.catchClause.block) : null, f: n.finallyBlock ? block(n.finallyBlock) : null, l }, l);
    case S.FunctionDeclaration: case S.ClassDeclaration: case S.InterfaceDeclaration: case S.EnumDeclaration: case S.TypeAliasDeclaration: case S.ModuleDeclaration: { const v = item(n); return v ? { k: 'item', item: v, l } : null; }
    case S.EmptyStatement: return null;
    case S.LabeledStatement: { const v = stmt(n.statement); if (v && v.e) v.e.label = n.label.text; return v; }
    default: return ex({ k: 'other', s: txt(n), l }, l);
  }
}
function mods(n) { return (n.modifiers || []).map(m => ts.tokenToString(m.kind)).filter(Boolean); }
function fn(f) {
  const m = mods(f);
  return { k: 'fn', n: f.kind === S.Constructor ? 'constructor' : (name(f.name) || ''), self: f.kind !== S.FunctionDeclaration && !m.includes('static'), params: f.parameters.map(param), ret: f.type ? txt(f.type) : null, body: f.body ? block(f.body) : null, mods: m, acc: f.kind === S.GetAccessor ? 'get' : (f.kind === S.SetAccessor ? 'set' : undefined), l: ln(f), el: sf.getLineAndCharacterOfPosition(f.getEnd()).line + 1 };
}
function item(n) {
  const l = ln(n);
  switch (n.kind) {
    case S.FunctionDeclaration: return fn(n);
    case S.ClassDeclaration: case S.ClassExpression: {
      const items = [], fields = [];
      for (const m of n.members) {
        if (m.kind === S.PropertyDeclaration) {
          if (m.initializer && (m.initializer.kind===S.ArrowFunction)) { const f=expr(m.initializer); items.push({k:'fn',n:name(m.name),self:true,params:m.initializer.parameters.map(param),ret:null,body:f.b.k==='block'?f.b:{k:'block',s:[{k:'expr',e:{k:'ret',e:f.b,l:f.l},semi:true}],l:f.l},mods:mods(m),l:ln(m)}); }
          else fields.push({ n: name(m.name), ty: txt(m.type), init: m.initializer ? expr(m.initializer) : null, mods: mods(m), l: ln(m) });
        }
        else if (m.kind === S.MethodDeclaration || m.kind === S.Constructor || m.kind === S.GetAccessor || m.kind === S.SetAccessor) items.push(fn(m));
      }
      let ext = null; const impl = [];
      for (const h of n.heritageClauses || []) for (const t of h.types) { if (h.token === S.ExtendsKeyword) ext = txt(t.expression); else impl.push(txt(t)); }
      return { k: 'class', n: name(n.name), ext, impl, items, fields, mods: mods(n), l };
    }
    case S.InterfaceDeclaration: return { k: 'interface', n: n.name.text, members: n.members.map(m => ({ n: name(m.name), ty: txt(m.type), opt: !!m.questionToken })), l };
    case S.EnumDeclaration: return { k: 'tsenum', n: n.name.text, v: n.members.map(m => [name(m.name), m.initializer ? expr(m.initializer) : null]), l };
    case S.TypeAliasDeclaration: return { k: 'type', n: n.name.text, ty: txt(n.type), l };
    case S.ModuleDeclaration: {
      let b = n.body, items = [];
      if (b && b.kind === S.ModuleBlock) items = list(b.statements); else if (b) { const v = item(b); if (v) items = [v]; }
      return { k: 'mod', n: name(n.name), items, l };
    }
    case S.VariableStatement: return { k: 'vars', d: decls(n.declarationList), l };
    case S.ImportDeclaration: {
      const c = n.importClause, u = []; const from = n.moduleSpecifier.text;
      if (c && c.name) u.push([c.name.text, from + '::default']);
      if (c && c.namedBindings) { if (c.namedBindings.kind === S.NamespaceImport) u.push([c.namedBindings.name.text, from]); else for (const e of c.namedBindings.elements) u.push([e.name.text, from + '::' + (e.propertyName ? e.propertyName.text : e.name.text)]); }
      return { k: 'use', u, from, l };
    }
    case S.ExportDeclaration: {
      const from = n.moduleSpecifier ? n.moduleSpecifier.text : null, u = [];
      if (n.exportClause && n.exportClause.elements) for (const e of n.exportClause.elements) u.push([e.name.text, e.propertyName ? e.propertyName.text : e.name.text]);
      else if (n.exportClause) u.push([n.exportClause.name.text, null]);
      else u.push(['*', null]);
      return { k: 'export', u, from, s: txt(n), l };
    }
    default: { const v = stmt(n); return v ? { k: 'stmt', s: v, l } : null; }
  }
}
function list(a) { const o = []; for (const x of a) { const v = item(x); if (v) o.push(v); } return o; }
const rl = require('readline').createInterface({ input: process.stdin, crlfDelay: Infinity });
rl.on('line', (line) => {
  if (!line.trim()) return;
  const q = JSON.parse(line);
  let src; try { src = q.path ? fs.readFileSync(q.path, 'utf8') : q.text; } catch (e) { console.log(JSON.stringify({ error: String(e) })); return; }
  sf = ts.createSourceFile(q.path || 'x.ts', src, ts.ScriptTarget.ES2020, true);
  if (sf.parseDiagnostics.length) {
    const d = sf.parseDiagnostics[0];
    const p = sf.getLineAndCharacterOfPosition(d.start || 0);
    console.log(JSON.stringify({ error: ts.flattenDiagnosticMessageText(d.messageText, ' ') + ' at ' + (p.line + 1) + ':' + p.character }));
    return;
  }
  console.log(JSON.stringify({ k: 'file', items: list(sf.statements) }));
});
