const ts = require('/opt/veriftools/node/node_modules/typescript');
const fs = require('fs'), path = require('path');
const R = '/tmp/rs/';
const files = [];
(function walk(d) { for (const f of fs.readdirSync(R + d)) { const p = d + '/' + f; fs.statSync(R + p).isDirectory() ? walk(p) : /\.ts$/.test(f) && files.push(p); } })('src');
files.push('tools/esbuild-plugin-minify-templates/src/transform.ts');
const out = [];
for (const f of files) {
  const text = fs.readFileSync(R + f, 'utf8');
  const sf = ts.createSourceFile(f, text, ts.ScriptTarget.Latest, true);
  const add = (node, rep, kind) => { const a = node.getStart(sf), b = node.getEnd(); const t = text.slice(a, b); if (t !== rep) out.push({ f, a, b, old: t, rep, kind, line: sf.getLineAndCharacterOfPosition(a).line + 1 }); };
  const T = (n) => n.getText(sf);
  (function visit(n, debug) {
    if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n)) return;
    if (ts.isLabeledStatement(n) && n.label.text === 'DEBUG') debug = true;
    if (ts.isModuleDeclaration(n) && !n.body) return;
    if (ts.isBinaryExpression(n)) {
      const op = n.operatorToken.getText(sf);
      const m = { '&&': ['||'], '||': ['&&'], '??': ['&&'], '===': ['!=='], '!==': ['==='], '<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '+': ['-'], '-': ['+'], '|=': ['='], '||=': ['='], '&=': ['='], '|': ['&'], '&': ['|'], '==': ['!='], '!=': ['=='] }[op];
      for (const r of m ?? []) add(n.operatorToken, r, 'op');
      if (op === '&&' || op === '||' || op === '??') { add(n, T(n.left), 'left'); add(n, T(n.right), 'right'); }
      if (op === '&' && T(n.right).startsWith('~')) add(n, T(n.left), 'left');
      if (op === '|') { add(n, T(n.left), 'left'); add(n, T(n.right), 'right'); }
    }
    if (ts.isIfStatement(n)) { add(n.expression, 'true', 'if-true'); add(n.expression, 'false', 'if-false'); }
    if (ts.isWhileStatement(n) && T(n.expression) !== 'true') add(n.expression, 'false', 'while-false');
    if (ts.isConditionalExpression(n)) { add(n, T(n.whenTrue), 'cond-true'); add(n, T(n.whenFalse), 'cond-false'); }
    if (ts.isExpressionStatement(n) && !/^super\(/.test(T(n))) add(n, ';', 'drop');
    if ((ts.isBreakStatement(n) || ts.isContinueStatement(n)) && !ts.isCaseClause(n.parent)) add(n, ';', 'drop');
    if (ts.isReturnStatement(n) && (!n.expression)) add(n, ';', 'drop');
    if (ts.isCallExpression(n) && n.arguments.length === 2 && !/^(new|addEvent)/.test(T(n))) { const [x, y] = n.arguments; add(n, T(n.expression) + '(' + T(y) + ', ' + T(x) + ')', 'swap'); }
    if (ts.isNumericLiteral(n) && n.text === '0') add(n, '1', 'num');
    if (ts.isNumericLiteral(n) && n.text === '1') add(n, '0', 'num');
    if (n.kind === ts.SyntaxKind.TrueKeyword) add(n, 'false', 'bool');
    if (n.kind === ts.SyntaxKind.FalseKeyword) add(n, 'true', 'bool');
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && ['slice', 'trim', 'toLowerCase', 'reverse', 'trimStart', 'trimEnd'].includes(n.expression.name.text)) add(n, T(n.expression.expression), 'unwrap');
    if (ts.isPropertyAccessExpression(n) && n.questionDotToken) add(n, T(n.expression) + '!.' + n.name.text, 'nonnull');
    ts.forEachChild(n, (c) => visit(c, debug));
  })(sf, false);
}
// deterministic shuffle
let s = Number(process.argv[2] ?? 1);
const rnd = () => (s = (s * 1103515245 + 12345) % 2147483648) / 2147483648;
for (let i = out.length - 1; i > 0; i--) { const j = Math.floor(rnd() * (i + 1)); [out[i], out[j]] = [out[j], out[i]]; }
fs.writeFileSync('/tmp/mc/mutants.json', JSON.stringify(out));
const c = {}; for (const m of out) c[m.f] = (c[m.f] ?? 0) + 1;
console.log(out.length, c);
