// Values: partial nodes {strings, kids}: kids are nested nodes or plain values.
const PIECES = ['', 'a', 'b', '<p>', '</p>', '<div class="x">', '</div>', '<', '>', ' title=', ' ', '<!-- ', ' -->', 'x y', '<br>', ',', 'a,', ',b', ',a', '\n'];
const eq = (a, b) => a.length === b.length && a.every((x, i) => Object.is(x, b[i]));

function genNode(rng, depth, pool) {
  if (depth < 3 && pool.length > 0 && rng.bool(0.35)) return rng.pick(pool);
  const n = rng.weighted([[2, 0], [3, 1], [3, 2], [1, 4]]);
  const node = {
    literal: n === 0 && rng.bool(0.6),
    strings: Object.freeze(Array.from({ length: n + 1 }, () => rng.pick(PIECES))),
    kids: [],
  };
  for (let i = 0; i < n; i++) node.kids.push(depth > 0 && rng.bool(0.5) ? { p: genNode(rng, depth - 1, pool) } : { v: rng.pick([1, 'v', null, undefined, NaN, 0, -0, {}, [], () => {}]) });
  pool.push(node);
  return node;
}
// Independent splice.
function flatten(node) {
  const strings = [node.strings[0]];
  const values = [];
  node.kids.forEach((k, i) => {
    if (k.p) {
      const f = flatten(k.p);
      strings[strings.length - 1] += f.strings[0];
      strings.push(...f.strings.slice(1));
      values.push(...f.values);
    } else {
      values.push(k.v);
      strings.push('');
    }
    strings[strings.length - 1] += node.strings[i + 1];
  });
  return { strings, values };
}
const hasPartials = (node) => node.kids.some((k) => k.p);
// What a composition is made of: the template literals and where they nest.
const flatOwn = (node) => JSON.stringify(flatten(node).strings);

export default {
  id: 'C30',
  technique: 'runtime monitoring: composed strings, values, template identities and re-rendered elements compared with an independent splice of the pieces',
  note: 'Random exploration; identity is claimed for compositions from the same template literals and the same pieces; template literals are never changed.',
  rule:
    'A case creates a pool of partials and literals nested up to 4 levels, with empty strings, hole-like text, empty and repeated pieces, and composes each 3 times in random order with html, svg, math and parse. Strings and values equal the splice; the same composition has the same template identity, compositions with ' +
    'different static text have different ones; a rendered composition is updated in place (same elements, new values) and its DOM equals that of the written-out template. Non-trivial: partials nested at least two levels.',
  quick: { cases: 1500, secs: 240 },
  thorough: { cases: 200000, secs: 500 },
  require: { compositions: 20000, 'nested deep': 5000, 'repeated compositions': 5000, 'distinct templates compared': 10000, 'renders in place': 1000, 'strings that look alike': 300, 'strings distributed differently': 300, 'strings joined alike': 300 },
  minDistinct: 500,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const pool = [];
    const n = rng.range(3, 10);
    const nodes = Array.from({ length: n }, () => genNode(rng, rng.range(0, 4), pool));
    // Near misses: the same concatenated text, cut differently.
    for (let i = 0; i < 3; i++) {
      const a = rng.pick(nodes);
      if (a.kids.length < 2) continue;
      const j = rng.int(a.kids.length);
      const s = a.strings.slice();
      const merged = s[j] + s[j + 1];
      const cut = rng.int(merged.length + 1);
      s[j] = merged.slice(0, cut);
      s[j + 1] = merged.slice(cut);
      nodes.push({ ...a, strings: rng.bool() ? Object.freeze(s) : a.strings, kids: rng.shuffle(a.kids) });
      ctx.count('strings that look alike');
    }
    // The same template literal around the same sequence of literal strings,
    // distributed differently over the partials.
    for (const a of [...nodes]) {
      const at = a.kids.map((k, i) => (k.p ? i : -1)).filter((i) => i >= 0);
      if (at.length < 2) continue;
      const strings = at.flatMap((i) => flatten(a.kids[i].p).strings);
      const cuts = rng.shuffle(Array.from({ length: strings.length - 1 }, (_, i) => i + 1)).slice(0, at.length - 1).sort((x, y) => x - y);
      const kids = a.kids.slice();
      at.forEach((i, j) => {
        const own = Object.freeze(strings.slice(cuts[j - 1] ?? 0, cuts[j] ?? strings.length));
        kids[i] = { p: { strings: own, kids: own.slice(1).map(() => ({ v: 'w' })) } };
      });
      const b = { ...a, kids };
      nodes.push(b);
      if (flatOwn(a) !== flatOwn(b)) ctx.count('strings distributed differently');
    }
    // The same again, with the same strings after joining them with some separator.
    for (const a of [...nodes]) {
      const at = a.kids.map((k, i) => (k.p ? i : -1)).filter((i) => i >= 0);
      if (at.length < 2 || !rng.bool(0.5)) continue;
      const sep = rng.pick([',', '', ' ', '\n', '|', '\0']);
      const x = rng.pick(['a', 'b', '']);
      const pair = (left, right) => {
        const kids = a.kids.slice();
        const leaf = (t) => ({ p: { literal: rng.bool(), strings: Object.freeze([t]), kids: [] } });
        kids[at[0]] = leaf(left);
        kids[at[1]] = leaf(right);
        return { ...a, kids };
      };
      nodes.push(pair('a' + sep + x, 'b'), pair('a', x + sep + 'b'));
      ctx.count('strings joined alike');
    }
    const depthOf = (x) => 1 + Math.max(0, ...x.kids.map((k) => (k.p ? depthOf(k.p) : 0)));
    const realize = (node) => (node.literal && rng.bool(0.7) ? B.Partial.literal(node.strings[0]) : B.Partial.parse(node.strings, ...node.kids.map((k) => (k.p ? realize(k.p) : k.v))));
    // A literal made by Partial.literal and by parse are equal pieces.
    const identities = { html: new Map(), svg: new Map(), math: new Map() }; // node -> strings identity, by mode
    const owners = new Map(); // strings identity -> text
    const modes = new Map(); // strings identity -> mode
    const order = rng.shuffle([...nodes, ...nodes, ...nodes]);
    let deep = 0;
    for (const node of order) {
      const tag = rng.pick(['html', 'svg', 'math', 'parse']);
      const args = node.kids.map((k) => (k.p ? realize(k.p) : k.v));
      const before = args.slice();
      const out = B.Partial[tag](node.strings, ...args);
      ctx.count('compositions');
      if (depthOf(node) > 2) {
        deep++;
        ctx.count('nested deep');
      }
      if (!eq(before, args)) ctx.fail('composing changed its arguments');
      const want = flatten(node);
      const got = tag === 'parse' ? { strings: out.strings, values: out.values } : { strings: out.type, values: out.children.map((c) => c) };
      if (!Array.isArray(got.strings) || !eq([...got.strings], want.strings)) ctx.fail(`Partial.${tag} gives strings ${JSON.stringify(got.strings)}, expected ${JSON.stringify(want.strings)}`);
      if (tag === 'parse') {
        if (!eq([...got.values], want.values)) ctx.fail(`Partial.parse gives values ${got.values.map(String)}, expected ${want.values.map(String)}`);
        if (!(out instanceof B.Partial)) ctx.fail('Partial.parse does not give a Partial');
        if (String(out) !== String.raw({ raw: want.strings }, ...want.values)) ctx.fail(`a partial converts to ${JSON.stringify(String(out))}`);
      } else {
        const plain = B[tag](want.strings, ...want.values);
        if (out.props.mode !== plain.props.mode) ctx.fail(`Partial.${tag} makes a template of mode ${out.props.mode}`);
        if (out.children.length !== plain.children.length) ctx.fail(`Partial.${tag} has ${out.children.length} children, expected ${plain.children.length}`);
        out.children.forEach((c, i) => {
          const p = plain.children[i];
          if (c.type !== p.type || !Object.is(c.props.value, p.props.value)) ctx.fail(`value ${i} of Partial.${tag} is ${String(c.props.value)}, expected ${String(p.props.value)}`);
        });
      }
      // identity
      const id = got.strings;
      const mode = tag === 'parse' ? 'html' : tag;
      if (!hasPartials(node) && id !== B[mode](node.strings, ...args).type) ctx.fail('a template without partials does not keep its own identity');
      const known = identities[mode];
      if (known.has(node)) {
        ctx.count('repeated compositions');
        if (known.get(node) !== id) ctx.fail(`repeating a composition gives another template identity: ${JSON.stringify(want.strings)}`);
      } else known.set(node, id);
      const text = flatOwn(node);
      if (owners.has(id)) {
        ctx.count('distinct templates compared');
        if (modes.get(id) !== mode) ctx.fail(`a template of mode ${modes.get(id)} and one of mode ${mode} share an identity: ${text}`);
        if (owners.get(id) !== text) ctx.fail(`templates ${owners.get(id)} and ${text} share an identity`);
      } else {
        owners.set(id, text);
        modes.set(id, mode);
      }
    }
    // Identities stay distinct and their strings unchanged after all of this.
    for (const [id, text] of owners) if (JSON.stringify([...id]) !== text) ctx.fail(`the strings ${text} of a template became ${JSON.stringify([...id])}`);
    // Rendering: a composition of well-formed pieces.
    const host = (await import('../lib/sched.mjs')).makeHost(B);
    const runtime = new B.Runtime(host);
    const { drain } = await import('../lib/sched.mjs');
    const box = document.createElement('div');
    const ref = document.createElement('div');
    const root = new B.DOMRoot(box, runtime);
    const refRoot = new B.DOMRoot(ref, runtime);
    const ROW = { strings: ['<li title=', '>', '</li>'], kids: [{ v: 0 }, { v: 1 }] };
    const EMPTYP = { strings: [''], kids: [], literal: true };
    const mk = (tagName, kids) => ({ strings: [`<${tagName} class="c">`, ...kids.slice(1).map(() => ''), `</${tagName}>`], kids });
    const shape = (d) => (d === 0 ? { p: rng.bool(0.8) ? ROW : EMPTYP } : { p: mk(rng.pick(['ul', 'ol', 'div']), Array.from({ length: rng.range(1, 3) }, () => shape(d - 1))) });
    const LIT = ['x', 'y', '<b>z</b>'].map((s) => ({ strings: [s], kids: [], literal: true }));
    const top = { strings: ['<main>', '', '</main>'], kids: [shape(rng.range(1, 3)), { p: rng.pick(LIT) }] };
    let seq = 0;
    const fresh = (node) => ({ ...node, kids: node.kids.map((k) => (k.p ? { p: fresh(k.p) } : { v: 'v' + seq++ })) });
    let first = null;
    for (let round = 0; round < 3; round++) {
      const t = fresh(top);
      const f = flatten(t);
      root.render(B.Partial.html(top.strings, ...t.kids.map((k) => realize(k.p))));
      refRoot.render(B.html(f.strings, ...f.values));
      await drain(host, rng, 'fifo');
      if (box.innerHTML !== ref.innerHTML) ctx.fail(`a composition renders ${box.innerHTML}, written out it renders ${ref.innerHTML}`);
      const els = [...box.querySelectorAll('*')];
      if (first === null) first = els;
      else if (!eq(first, els)) ctx.fail('rendering a composition again replaced its elements', box.innerHTML);
      else ctx.count('renders in place');
    }
    ctx.note(nodes.map(flatOwn).join(' '));
    if (ctx.i < 2) ctx.sample(ctx.trace[0].slice(0, 400));
    return { sig: ctx.trace.join('\n'), nontrivial: deep > 0 };
  },
};
