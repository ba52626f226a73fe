import { createRequire } from 'node:module';
import { mkdtempSync, writeFileSync, rmSync } from 'node:fs';
import { join } from 'node:path';
import { tmpdir } from 'node:os';

const require = createRequire('/opt/veriftools/node/node_modules/');
let esbuild = require('esbuild');
// esbuild itself may panic on a random program, which stops its service.
const stopped = (e) => /service (was stopped|is no longer)/.test(String(e?.message ?? e));
function restart() {
  delete require.cache[require.resolve('esbuild')];
  esbuild = require('esbuild');
}
let transformTemplates;
let minifyTemplates;
const TAGS = ['css', 'html', 'math', 'svg'];
const OTHER = ['text', 'htm', 'raw', 'HTML', 'xhtml'];

// Reference: text of a minified quasi (as seen in `raw`, where CRLF is LF).
function minified(raw) {
  let out = '';
  for (let i = 0; i < raw.length; ) {
    if (raw[i] === '\n') {
      let j = i + 1;
      while (j < raw.length && /\s/.test(raw[j])) j++;
      const edge = (c) => c === '<' || c === '>';
      if (!(edge(raw[i - 1]) || edge(raw[j]))) out += ' ';
      i = j;
    } else out += raw[i++];
  }
  return out;
}
const cook = (raw) => {
  try {
    return new Function('return `' + raw + '`')();
  } catch {
    return undefined; // invalid escapes cook to undefined in tagged templates
  }
};

const TEXTS = ['<div>', '</div>', '<p class="a', '">', '\n', '\n  ', '\n\n    ', ' \n', '\t\n\t', 'text', ' ', 'a b', '>', '<', '\\n', '\\\n  ', '\\`', '\\${x}', '\\u0041', '\\x41', '\\\\', '$', '{', '}', '$ {', '"', "'", '/* c */', '// no', '<!-- c -->', 'é', '\u00a0', '\n\u00a0\n', '\u2028', '😀', '<br>\n', '\n<hr>', '=\n', '\\u{1F600}', '\\0', '&amp;', '\\unicode', '@media {', ';'];

function template(g, depth) {
  const { rng } = g;
  if (--g.budget < 0) depth = 0;
  const tag = rng.weighted([[5, 'html'], [1, 'svg'], [1, 'math'], [1, 'css'], [1.5, rng.pick(OTHER)], [2, 'Partial.html'], [0.5, 'ns.deep.svg'], [0.8, 'String.raw'], [0.8, "Partial['html']"], [1, ''], [g.module ? 0 : 0.4, 'this.html'], [0.3, 'ns.htm']]);
  const n = g.budget < 0 ? 0 : rng.weighted([[2, 0], [3, 1], [2, 2], [1, 3]]);
  let s = '';
  for (let i = 0; i <= n; i++) {
    const m = rng.int(7);
    for (let j = 0; j < m; j++) {
      let t = rng.pick(TEXTS);
      if (tag === '' && t === '\\unicode') t = 'u';
      if (t === '{' && s.endsWith('$')) t = ' {';
      s += t;
    }
    if (i < n) {
      if (s.endsWith('$')) s += ' ';
      s += '${' + (rng.bool(0.2) ? '\n  ' : '') + expr(g, depth - 1) + (rng.bool(0.2) ? ' ' : '') + '}';
    }
  }
  g.templates++;
  if (depth < g.depth) g.nested++;
  return `${tag}\`${s}\``;
}
function expr(g, depth) {
  const { rng } = g;
  if (depth <= 0 || g.budget < 0) return rng.bool(0.6) ? template(g, 0) : rng.pick(['1', '"s"', "'\\n  x'", 'null', '/>\\n </', '[]', '({})', 'x', '`plain\n  text`', '1n', '-x', 'void 0', '.5', '0xff', '"é\\u2028"', '1_000', '(x, 2)', '!x', 'typeof y']);
  const e = () => expr(g, depth - 1);
  const T = () => template(g, depth - 1);
  const s = () => stmts(g, depth - 1);
  const pool = [
    () => T(), () => T(), () => T(),
    () => `R(${e()})`, () => `[${e()}, ...[${e()}]]`, () => `({ a: ${e()}, [${T()}]: 1, ...{ b: ${e()} } })`,
    () => `({ m(p = ${T()}) { return ${e()}; } }).m()`, () => `({ get g() { return ${e()}; } }).g`, () => `({ async *m() {}, 'quoted key': ${e()}, 0x10: 1 })`,
    () => `(() => ${e()})()`, () => `((a, { b = ${T()} } = {}, ...c) => { ${s()} return [a, b, c]; })(${e()})`, () => `(function () { ${s()} return ${e()}; }).call(this)`,
    () => `(x ? ${e()} : ${e()})`, () => `(${T()} ? ${e()} : 0)`, () => `(${e()} && ${e()})`, () => `((x ?? ${T()}) || ${e()})`, () => `(x || (y ?? ${e()}))`, () => `(${e()}, ${e()})`,
    () => `new Box(${e()}).v`, () => `${T()}.tag`, () => `${T()}?.tag?.length`, () => `({ k: 1 })[${T()}]`, () => `R(${T()}, ...[${e()}])`,
    () => `(!${T()})`, () => `(typeof ${T()})`, () => `(${T()} === ${T()})`, () => `('a' + ${T()})`, () => `(y = ${e()})`, () => `(y ??= ${e()})`,
    () => `(([q = ${T()}] = []) => q)()`, () => `new (class extends Box { f = ${T()}; static s = ${e()}; #p = ${e()}; get p() { return this.#p; } static { R(${T()}); } constructor() { super(${e()}); } ['m' + ${T()}.n]() {} })().p`,
    () => `[...(function* () { yield ${e()}; yield* [${T()}]; })()]`, () => `\`p \${${T()}}\n  q\``, () => `String.raw\`\n  \${${e()}}\``, () => `\`\${${T()}}\${\`\n \${${e()}}\`}\``,
    () => `(async () => { R(await ${T()}); })() && 0`, () => `(-1) ** 2 + -(-x)`, () => `[, ${T()}, ,].length`, () => `(function () { return new.target; })() ?? ${e()}`,
  ];
  if (g.ts) pool.push(() => `(${T()} as unknown as string)`, () => `(${e()} satisfies any)`, () => `R<any>(${T()}!)`, () => `((a: string | number, b?: any): any => ${e()})(1)`, () => `html<string>\`\n <i>\${${e()}}</i>\n \``);
  if (g.jsx) pool.push(() => `<a href={${T()}} {...{ t: ${e()} }}>text\n  {${T()}} &amp; <b.c x="y" /></a>`, () => `<>{${e()}}\n  {[${T()}]}</>`);
  return rng.pick(pool)();
}
let label = 0;
function stmts(g, depth) {
  const { rng } = g;
  const n = g.budget < 0 ? 0 : rng.range(0, 2);
  let out = '';
  const v = () => 'v' + label++;
  for (let i = 0; i < n; i++) {
    const e = () => expr(g, depth - 1);
    const T = () => template(g, depth - 1);
    const s = () => (depth > 0 ? stmts(g, depth - 1) : '');
    const a = v();
    const pool = [
      () => `R(${e()});`, () => `const ${a} = ${e()}; R(${a});`, () => `let { ${a} = ${T()} } = {}; R(${a});`, () => `if (${T()}) { ${s()} } else R(${e()});`, () => `if (!x) R(${T()}); else if (y) { R(${e()}); }`,
      () => `for (let i = 0, ${a} = ${T()}; i < 1; i++, R(${T()})) { ${s()} }`, () => `for (const ${a} of [${e()}]) R(${a});`, () => `for (const ${a} in { [${T()}.n]: 1 }) R(${a});`, () => `while (R(${T()}) && false) {}`, () => `do { R(${e()}); } while (!${T()} && false);`,
      () => `switch (${e()}) { case ${T()}: R(1); break; default: R(${T()}); }`, () => `try { throw ${T()}; } catch (${a}) { R(${a}); } finally { R(${e()}); }`, () => `try { ${s()} } catch { R(${T()}); }`,
      () => `l${a}: { R(${T()}); break l${a}; }`, () => `function ${a}(p = ${T()}) { ${s()} return p; } R(${a}());`, () => `class ${a} { static x = ${T()}; static m() { return ${e()}; } } R(${a}.x, ${a}.m());`,
      () => `var ${a} = ${e()}, ${a}b = ${T()}; R(${a}b);`, () => `{ ${s()} }`, () => `// comment html\`\n  <b>\n\`\nR(${T()});`, () => `/* ${'html`x`'} */ R(${T()});`, () => `"html\`\\n <b>\`"; R(${T()});`, () => `async function* ${a}() { yield ${T()}; } for (const z of [1]) R(${a}.name === '${a}');`,
    ];
    if (g.ts) pool.push(() => `interface I${a} { a: string; html?: () => void } const ${a}: any = ${T()}; R(${a});`, () => `type T${a} = \`x\n \${string}\`; R(${T()});`);
    if (g.ts && g.top) pool.push(() => `enum E${a} { A = 1, B = A << 1 } R(E${a}.B, ${T()});`, () => `namespace N${a} { export const q = ${T()}; } R(N${a}.q);`);
    if (g.module && g.top) pool.push(() => `export const ${a} = ${e()}; R(${a});`, () => `export function ${a}() { return ${T()}; } R(${a}());`, () => `export { R as ${a} }; R(${T()});`);
    const keep = g.top;
    const k = rng.pick(pool);
    g.top = false;
    out += k() + (rng.bool() ? '\n' : ' ');
    g.top = keep;
  }
  return out;
}

// Runs a program and records what its tags receive.
async function run(code) {
  const log = [];
  let ids = 0;
  const seen = new Map();
  const show = (v, d = 0) => {
    if (typeof v === 'function') return 'function ' + (v.tagName ?? v.name);
    if (typeof v === 'symbol' || typeof v === 'bigint') return typeof v + String(v);
    if (v instanceof RegExp) return String(v);
    if (v instanceof Promise) return 'promise';
    if (v && typeof v === 'object') {
      if (v.token !== undefined) return 'T' + v.token;
      if (d > 6 || seen.has(v)) return '…';
      if (Array.isArray(v)) return '[' + Array.from(v, (x) => show(x, d + 1)) + ']';
      return '{' + Object.keys(v).map((k) => k + ':' + show(v[k], d + 1)) + '}';
    }
    return Object.is(v, -0) ? '-0' : typeof v === 'string' ? JSON.stringify(v) : String(v);
  };
  const tagger = (name) => {
    const f = (strings, ...values) => {
      const id = ids++;
      if (!Array.isArray(strings) || !strings.raw) throw new TypeError('not a template call');
      log.push({ tag: name, raw: [...strings.raw], strings: [...strings], values: values.map((v) => show(v)) });
      return { token: id, tag: name, n: 'n' + id, toString: () => 'T' + id };
    };
    f.tagName = name;
    return f;
  };
  const names = [...TAGS, ...OTHER];
  const env = Object.fromEntries(names.map((n) => [n, tagger(n)]));
  const Partial = { html: tagger('Partial.html') };
  const ns = { deep: { svg: tagger('ns.deep.svg') }, htm: tagger('ns.htm') };
  const R = (...vs) => { log.push('R ' + vs.map((v) => show(v)).join(', ')); return vs[0]; };
  class Box { constructor(v) { this.v = v; } }
  const h = (t, p, ...k) => { log.push('JSX ' + show(t) + show(p) + k.map((x) => show(x))); return { token: ids++, n: 'j', toString: () => 'J' }; };
  const b = { c: 'b.c' };
  const module = { exports: {} };
  const scope = { ...env, Partial, ns, R, Box, h, b, Fragment: 'Fragment', module, exports: module.exports };
  const f = new Function(...Object.keys(scope), '"use strict"; let x = 1, y;\n' + code);
  let result;
  try {
    result = f.call({ html: tagger('this.html') }, ...Object.values(scope));
  } catch (e) {
    log.push('throws ' + (e?.token !== undefined ? 'T' + e.token : e?.name));
  }
  await new Promise((r) => setImmediate(r)); // async functions go on
  log.push('result ' + show(result) + Object.keys(module.exports).sort());
  return log;
}
// A custom set of names is possible, too.
const isNamed = (tag, names) => tag !== "Partial['html']" && names.includes(tag.split('.').pop()) ;

export default {
  id: 'C29',
  minifier: true,
  allowUnhandled: true,
  technique: 'runtime monitoring: programs are run before and after minification with recording tags, and the strings, values and results are compared with a reference whitespace rule',
  note: 'Random exploration of programs; Function.prototype.toString, comments and line numbers are not observed; lone carriage returns, decorators and parenthesised tags are not generated.',
  rule:
    'A case generates a JavaScript, TypeScript, JSX or TSX program with tagged templates in some 60 syntactic positions nested up to 4 levels, with escapes, CRLF, hole-like text, comments and non-ASCII text; both it and its minified form are executed. ' +
    'Named tags must receive the reference text (raw and cooked), everything else (other tags, values, results, exports) must be the same; minifying again changes nothing, sources without named tags come back unchanged, and the esbuild plugin gives the same for files. Non-trivial: some template text was changed.',
  quick: { cases: 1600, secs: 240 },
  thorough: { cases: 200000, secs: 600 },
  require: { programs: 1000, 'named template calls': 5000, 'other template calls': 1000, 'changed strings': 2000, 'nested templates': 3000, 'untouched sources': 50, 'typescript programs': 200, 'jsx programs': 100, 'files bundled by the plugin': 20, 'CRLF programs': 50 },
  minDistinct: 500,
  async setup({ dir }) {
    ({ transformTemplates } = await import(`file://${dir}/minify.mjs`));
    ({ minifyTemplates } = await import(`file://${dir}/minify-plugin.mjs`));
  },
  async run(ctx) {
    try {
      return await this.runCase(ctx);
    } catch (e) {
      if (!stopped(ctx.first ?? e)) throw e;
      restart();
      ctx.first = null;
      ctx.count('programs esbuild panics on');
      return { nontrivial: false };
    }
  },
  async runCase(ctx) {
    const { rng } = ctx;
    const loader = rng.pick(['js', 'js', 'ts', 'jsx', 'tsx']);
    const g = { rng, ts: loader.startsWith('ts'), jsx: loader.endsWith('x'), module: rng.bool(0.3), depth: rng.range(1, 4), templates: 0, nested: 0, budget: 150, crlf: rng.bool(0.15), top: true };
    label = 0;
    const strip = async (code) => (loader === 'js' && !g.module ? code : (await esbuild.transform(code, { loader, format: g.module ? 'cjs' : undefined, target: 'esnext', jsxFactory: 'h', jsxFragment: 'Fragment', tsconfigRaw: { compilerOptions: { experimentalDecorators: false, verbatimModuleSyntax: true } } })).code);
    let source;
    let plain;
    for (let i = 0; ; i++) {
      source = '';
      g.budget = 150;
      const n = rng.range(1, 4);
      for (let j = 0; j < n; j++) source += stmts(g, g.depth) + `R(${expr(g, g.depth)});\n`;
      if (g.crlf) source = source.replace(/\n/g, '\r\n');
      // A random program may be invalid (e.g. new.target outside a function).
      try {
        plain = await strip(source);
        new Function('"use strict"; let x, y;' + plain);
        break;
      } catch (e) {
        if (stopped(e)) throw e;
        if (i > 20) throw new Error('HARNESS: no valid program: ' + source);
      }
    }
    if (rng.bool(0.1)) source = '#!/usr/bin/env node\n' + source;
    const names = rng.weighted([[8, TAGS], [1, ['html']], [1, ['svg', 'htm', 'text']], [0.5, ['nothing']], [0.5, []]]);
    ctx.note(loader + ' ' + names);
    ctx.note(source);
    let output;
    try {
      output = await transformTemplates(source, loader, names);
    } catch (e) {
      // The external parser sometimes takes the text <!-- of a template for a
      // legacy comment; what it cannot parse is out of the library's hands.
      if (source.includes('<!--') && /[Ll]egacy comment/.test(String(e?.message ?? e))) {
        ctx.count('programs the external parser rejects');
        return { nontrivial: false };
      }
      ctx.fail(`minifying a valid program fails: ${String(e?.message ?? e).slice(0, 400)}`, source);
    }
    ctx.count('programs');
    if (g.ts) ctx.count('typescript programs');
    if (g.jsx) ctx.count('jsx programs');
    if (g.crlf) ctx.count('CRLF programs');
    ctx.count('nested templates', g.nested);
    const compare = (a, b, what, tags) => {
      let changed = 0;
      const n = Math.max(a.length, b.length);
      for (let i = 0; i < n; i++) {
        const x = a[i];
        const y = b[i];
        if (typeof x !== 'object' || typeof y !== 'object') {
          if (x !== y) ctx.fail(`${what}: event ${i} was ${typeof x === 'object' ? 'a call of ' + x.tag : x}, is ${typeof y === 'object' ? 'a call of ' + y.tag : y}`, output);
          continue;
        }
        if (x.tag !== y.tag) ctx.fail(`${what}: a call of ${x.tag} became one of ${y.tag}`, output);
        const named = tags !== null && isNamed(x.tag, tags) && !x.bracket;
        const raw = named ? x.raw.map(minified) : x.raw;
        const strings = named ? raw.map(cook) : x.strings;
        if (JSON.stringify(raw) !== JSON.stringify(y.raw)) {
          // Partial['html'] shares its function with Partial.html.
          if (!(x.tag === 'Partial.html' && JSON.stringify(x.raw) === JSON.stringify(y.raw) && source.includes("Partial['html']"))) {
            ctx.fail(`${what}: ${x.tag} receives ${JSON.stringify(y.raw)}, expected ${JSON.stringify(raw)} from ${JSON.stringify(x.raw)}`, output);
          }
        } else if (JSON.stringify(strings) !== JSON.stringify(y.strings) || strings.some((s, j) => (s === undefined) !== (y.strings[j] === undefined))) {
          ctx.fail(`${what}: ${x.tag} receives cooked ${JSON.stringify(y.strings)}, expected ${JSON.stringify(strings)}`, output);
        }
        if (JSON.stringify(x.values) !== JSON.stringify(y.values)) ctx.fail(`${what}: the values of ${x.tag} change from ${x.values} to ${y.values}`, output);
        ctx.count(named ? 'named template calls' : 'other template calls');
        if (JSON.stringify(x.raw) !== JSON.stringify(y.raw)) {
          changed++;
          ctx.count('changed strings');
        }
      }
      return changed;
    };
    let before;
    const execute = async (code, what) => {
      try {
        return await run(code);
      } catch (e) {
        ctx.fail(`${what} does not run: ${e}`, code);
      }
    };
    before = await execute(plain, 'the original program');
    let stripped;
    try {
      stripped = await strip(output);
    } catch (e) {
      ctx.fail(`the minified program is invalid: ${e.message.slice(0, 500)}`, output);
    }
    const after = await execute(stripped.replace(/^#!.*\n/, ''), 'the minified program');
    const changed = compare(before, after, 'after minifying', names);
    const again = await transformTemplates(output, loader, names);
    compare(after, await execute((await strip(again)).replace(/^#!.*\n/, ''), 'the program minified twice'), 'after minifying twice', null);
    // Without named tags the source is left as it is, byte for byte.
    if (names.length === 0 || names[0] === 'nothing') {
      ctx.count('untouched sources');
      if (output !== source) ctx.fail('a source without the named tags is changed', output);
    }
    // The plugin, on files.
    if (rng.bool(0.06) && !source.startsWith('#!')) {
      const dir = mkdtempSync(join(tmpdir(), 'bbverif-min-'));
      try {
        const file = join(dir, 'input.' + loader);
        writeFileSync(file, source);
        const tags = rng.bool(0.6) ? undefined : names;
        const r = await esbuild.build({ entryPoints: [file], bundle: false, write: false, format: g.module ? 'cjs' : undefined, target: 'esnext', jsxFactory: 'h', jsxFragment: 'Fragment', logLevel: 'silent', tsconfigRaw: { compilerOptions: { verbatimModuleSyntax: true } }, plugins: [minifyTemplates(tags ? { tagNames: tags } : undefined)] });
        compare(before, await execute(r.outputFiles[0].text, 'the bundled program'), 'after bundling with the plugin', tags ?? TAGS);
        ctx.count('files bundled by the plugin');
      } finally {
        if (dir.startsWith(join(tmpdir(), 'bbverif-min-'))) rmSync(dir, { recursive: true, force: true });
      }
    }
    if (ctx.i < 2) ctx.sample(source.slice(0, 400));
    return { sig: source, nontrivial: changed > 0 };
  },
};
