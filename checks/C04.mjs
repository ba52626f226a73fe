import { makeHost, drain } from '../lib/sched.mjs';

// The oracle numbers the holes: the same source with `?s<i>e` at hole i goes
// through the HTML parser; where each number ends up is where it was written.
const SENT = /\?s(\d+)e/g;
const sentinel = (i) => `?s${i}e`;

// ---------------------------------------------------------------- generator
// Pieces of source; '\0' marks a hole.
const H = '\0';
const HTML_TAGS = ['div', 'p', 'span', 'b', 'i', 'ul', 'li', 'section', 'a', 'em', 'h1', 'button', 'x-el', 'DIV', 'label', 'dl', 'dt', 'dd', 'pre', 'form', 'article', 'code', 'center', 'nobr', 'ruby', 'details', 'main'];
const VOIDS = ['br', 'hr', 'input', 'img', 'wbr'];
const ATTRS = ['title', 'id', 'data-x', 'DATA-Up', 'dataFoo', 'aria-label', ':bound', '[sq]', 'x.y', '(par)', 'href', 'xml:lang', 'Title2', 'é', 'a*', '#ref', 'v-on:click', '_u', 'q?'];
const TEXTS = ['text', ' a ', 'x y', '\n', '\n   ', 'foo\n', '\n bar', '&amp;', '&lt;b&gt;', '&nbsp;', 'é☃', '$', '{', '}', '"', "'", '>', '<', '< ', '&', '?', '-->', 'a\n\n b', '𝒳', '\u00a0', '`', '\\', '?$', '<!', 'a=b', ''];
const FOREIGN_ATTRS = { svg: ['viewBox', 'fill', 'preserveAspectRatio', 'width', 'stroke-width', 'pathLength', 'xlink:href', 'gradientUnits', 'baseProfile', 'x1', 'viewbox'], math: ['mathvariant', 'definitionURL', 'display', 'columnalign'] };

function attrPiece(rng, foreign, used) {
  const special = rng.bool(0.45);
  let name;
  do {
    if (special && foreign !== 'math') {
      name = rng.pick(['@click', '@myEvent', '@x:y', '.prop', '.innerProp', '.PROP', '$live', '$liveValue', 'class', 'style', 'CLASS', 'Style', '.a-b', '@a.b']);
    } else name = rng.pick(foreign ? [...FOREIGN_ATTRS[foreign], ...ATTRS] : ATTRS);
  } while (used.has(name.toLowerCase()) && rng.bool(0.97));
  used.add(name.toLowerCase());
  const eq = rng.weighted([[8, '='], [1, ' = '], [0.5, '=\n'], [0.5, '\t=']]);
  const q = rng.weighted([[4, ''], [3, '"'], [2, "'"]]);
  const sep = rng.weighted([[8, ' '], [1, '\n  '], [0.5, '\t'], [0.3, ' / ']]);
  return `${sep}${name}${eq}${q}${H}${q}`;
}
function staticAttr(rng, foreign, used) {
  let name;
  do {
    name = rng.pick(foreign ? [...FOREIGN_ATTRS[foreign], 'class', 'id'] : [...ATTRS, 'class', 'style', 'hidden']);
  } while (used.has(name.toLowerCase()) && rng.bool(0.97));
  used.add(name.toLowerCase());
  return ' ' + name + rng.pick(['="st"', "='s t'", '=st', '', '="a>b"', '="<i>"', '=""', "='\"'", '="&amp;"', '="x=y"', '="\n"']);
}
function badAttr(rng) {
  return ' ' + rng.pick([`title="x${H}"`, `title="${H}y"`, `title="${H}${H}"`, `title=" ${H}"`, `${H}="v"`, `data-${H}="v"`, `title=x${H}`, `class="a ${H}"`, `${H}x`, `title="${H} "`, `${H}=${H}`, `x${H}`]);
}
function attrs(rng, st, foreign) {
  let s = '';
  const used = new Set();
  const n = rng.weighted([[4, 0], [4, 1], [2, 2], [1, 3], [0.5, 5]]);
  let ref = false;
  for (let i = 0; i < n; i++) {
    const k = rng.weighted([[5, 'hole'], [3, 'static'], [1.2, 'ref'], [st.bad, 'bad'], [st.bad, 'dup']]);
    if (k === 'hole') s += attrPiece(rng, foreign, used);
    else if (k === 'static') s += staticAttr(rng, foreign, used);
    else if (k === 'bad') s += badAttr(rng);
    else if (k === 'dup') s += rng.pick([` id=${H} id=${H}`, ` id=x id=${H}`, ` ${H} ${H}`, ` ID=${H} id="y"`]);
    else if (!ref || rng.bool(st.bad)) {
      s += (rng.bool(0.8) ? ' ' : '\n') + H;
      ref = true;
    }
  }
  return s;
}
function open(rng, st, tag, foreign) {
  const a = attrs(rng, st, foreign);
  const end = rng.weighted([[10, '>'], [1, ' >'], [0.5, '\n>'], [foreign ? 3 : 0.3, a.endsWith(H) ? ' />' : '/>'], [st.bad * 0.3, '/>']]);
  return `<${tag}${a}${end}`;
}
const childHole = (rng) => rng.weighted([[8, `<${H}>`], [2, `<${H}/>`], [2, `<!--${H}-->`], [1, `<!-- ${H} -->`], [1, `<${H} >`], [1, `<${H} />`], [0.5, `<!--${H}/-->`]]);
const badChild = (rng) => rng.pick([`<x-${H}></x-${H}>`, `<!-- a ${H} -->`, `<${H} a=b>`, `<!--${H}${H}-->`, `</${H}>`, `<!${H}>`, `<${H}x>`]);

function content(rng, st, depth) {
  let s = '';
  const n = rng.weighted([[1, 0], [2, 1], [3, 2], [2, 3], [1, 5]]);
  for (let i = 0; i < n; i++) s += piece(rng, st, depth);
  return s;
}
function piece(rng, st, depth) {
  st.size++;
  const leaf = depth <= 0 || st.size > 25;
  const k = rng.weighted([
    [3, 'text'], [3, 'texthole'], [4, 'child'], [leaf ? 0 : 5, 'el'], [1, 'void'], [0.4, 'comment'],
    [leaf ? 0 : 0.7, 'svg'], [leaf ? 0 : 0.3, 'math'], [leaf ? 0 : 0.8, 'table'], [leaf ? 0 : 0.4, 'select'],
    [leaf ? 0 : 0.5, 'rawtext'], [leaf ? 0 : 0.4, 'unclosed'], [leaf ? 0 : st.misnest, 'misnest'], [0.2, 'stray'], [st.bad * 0.7, 'bad'], [st.bad * 0.4, 'template'],
    [0.15, 'pi'], [st.bad * 0.2, 'dropped'], [st.bad * 0.3, 'doubled'],
  ]);
  switch (k) {
    case 'text': return rng.pick(TEXTS);
    case 'texthole': return rng.pick(['', '', ' ', 'a', '\n ', 'x ']) + H + rng.pick(['', '', ' ', 'b', ' \n', H]);
    case 'child': return childHole(rng);
    case 'el': {
      const t = rng.pick(HTML_TAGS);
      return `${open(rng, st, t)}${content(rng, st, depth - 1)}</${t}>`;
    }
    case 'void': return open(rng, st, rng.pick(VOIDS));
    case 'comment': return `<!--c${rng.pick(['', ' ', 'x', '<b>', '?$', '/'])}-->`;
    case 'pi': return rng.pick(['<?php x ?>', '<?>', '<!x>', '</ x>']);
    case 'svg': return foreign(rng, st, depth, 'svg');
    case 'math': return foreign(rng, st, depth, 'math');
    case 'table': {
      const cell = () => `${open(rng, st, 'td')}${content(rng, st, depth - 2)}${rng.pick(['</td>', ''])}`;
      const row = () => rng.pick([
        () => `${open(rng, st, 'tr')}${cell()}${cell()}${rng.pick(['</tr>', ''])}`,
        () => `<tr>${rng.bool() ? childHole(rng) : ''}${cell()}${rng.bool() ? childHole(rng) : ''}</tr>`,
        () => childHole(rng),
      ])();
      const ws = rng.pick(['', '\n', ' ']);
      const foster = rng.bool(st.misnest * 0.5) ? rng.pick([H, 'text', `x${H}`, `<b title=${H}>q</b>`]) : '';
      return `${open(rng, st, 'table')}${ws}${foster}${rng.pick(['', '<tbody>', '<caption>c</caption>', '<colgroup><col></colgroup>'])}${row()}${ws}${row()}${ws}</table>`;
    }
    case 'select': return `${open(rng, st, 'select')}${childHole(rng)}${open(rng, st, 'option')}${rng.pick([H, 'opt', `a${H}`])}</option>${rng.bool() ? `<option value=${H}>` : ''}</select>`;
    case 'rawtext': {
      const t = rng.pick(['textarea', 'title', 'xmp', 'noframes', 'iframe']);
      return `${open(rng, st, t)}${rng.pick([H, `a ${H} b`, `${H}${H}`, '\n' + H, 'plain', ''])}</${t}>`;
    }
    case 'unclosed': {
      const t = rng.pick(['p', 'li', 'div', 'span', 'dt']);
      return `${open(rng, st, t)}${content(rng, st, depth - 1)}`;
    }
    case 'misnest': return rng.pick([
      () => `${open(rng, st, 'b')}${content(rng, st, 0)}<i>${content(rng, st, 0)}</b>${content(rng, st, 0)}</i>`,
      () => `${open(rng, st, 'p')}a<div>${content(rng, st, 0)}</div>b</p>`,
      () => `${open(rng, st, 'a')}x<p>${content(rng, st, 0)}</a>${content(rng, st, 0)}</p>`,
    ])();
    case 'stray': return rng.pick(['</div>', '</p>', '</b>', '</br>', '</svg>']);
    case 'bad': return badChild(rng);
    case 'template': return `<template>${rng.pick([H, `<${H}>`, `<b title=${H}></b>`, 'static'])}</template>`;
    case 'doubled': {
      // The parser drops a hole and repeats another one, so that their number stays.
      const dropped = rng.pick([`</div title=${H}>`, `</x ${H}>`, `<frame id=${H}>`, `<body ${H}>`]);
      const tag = rng.pick(['b', 'i', 'a', 'nobr']);
      const doubled = rng.pick([`<p><${tag} class=${H}></p><p>t</p></${tag}>`, `<${tag} title=${H}><p>x</${tag}>y</p>`, `<p><${tag} ${H}></p><p>t</p></${tag}>`]);
      return rng.bool() ? dropped + doubled : doubled + dropped;
    }
    case 'dropped': return rng.pick([`<body class=${H}>`, `<td title=${H}>`, `</div title=${H}>`, `<html ${H}>`, `<frame id=${H}>`]);
  }
}
function foreign(rng, st, depth, ns, bare) {
  const tags = ns === 'svg' ? ['g', 'circle', 'path', 'linearGradient', 'text', 'foreignObject', 'clipPath', 'a'] : ['mrow', 'mi', 'mo', 'mfrac', 'mtext'];
  const inner = (d) => {
    let s = '';
    const n = rng.int(3);
    for (let i = 0; i < n; i++) {
      const t = rng.pick(tags);
      s += rng.weighted([
        [4, () => `${open(rng, st, t, ns)}${d > 0 ? (t === 'foreignObject' ? content(rng, st, d - 1) : inner(d - 1)) : ''}</${t}>`],
        [2, () => childHole(rng)],
        [1, () => H],
        [1, () => rng.pick(TEXTS)],
        [0.3, () => '<![CDATA[cdata]]>'],
      ])();
    }
    return s;
  };
  return bare ? inner(depth) : `${open(rng, st, ns, ns)}${inner(depth - 1)}</${ns}>`;
}

// ---------------------------------------------------------------- oracle
function parseOracle(source, mode) {
  const t = document.createElement('template');
  source = source.replace(/^\s*\n\s*/, '').replace(/\s*\n\s*$/, '');
  if (mode === 'html') t.innerHTML = source;
  else {
    t.innerHTML = `<${mode}>${source}</${mode}>`;
    t.content.replaceChildren(...t.content.firstChild.childNodes);
  }
  return t.content;
}
// sentinel occurrences in document order: {i, kind, node, name}
function locate(root, strings) {
  const found = [];
  const scan = (s, where) => {
    for (const m of s.matchAll(SENT)) found.push({ i: Number(m[1]), kind: 'bad', where });
  };
  const exact = (s) => {
    const m = /^\?s(\d+)e$/.exec(s);
    return m ? Number(m[1]) : -1;
  };
  const walk = (node) => {
    if (node.nodeType === 1) {
      scan(node.localName, 'tag');
      for (const name of node.getAttributeNames()) {
        const value = node.getAttribute(name);
        if (exact(name) >= 0 && value === '') found.push({ i: exact(name), kind: 'element', node, name });
        else {
          scan(name, 'attribute name');
          if (exact(value) >= 0) {
            const i = exact(value);
            const m = /([^\s"'>/=]+)\s*=\s*["']?$/.exec(strings[i]);
            found.push({ i, kind: 'attr', node, name, written: m?.[1] });
          } else scan(value, 'attribute');
        }
      }
      if (node.content) {
        for (const m of node.innerHTML.matchAll(SENT)) found.push({ i: Number(m[1]), kind: 'bad', where: 'template' });
      }
    } else if (node.nodeType === 3) {
      for (const m of node.data.matchAll(SENT)) found.push({ i: Number(m[1]), kind: 'text', node });
    } else if (node.nodeType === 8) {
      let d = node.data;
      if (d.endsWith('/')) d = d.slice(0, -1);
      const i = exact(d.trim());
      if (i >= 0) found.push({ i, kind: 'child', node });
      else scan(node.data, 'comment');
    }
    for (let c = node.firstChild; c; c = c.nextSibling) walk(c);
  };
  walk(root);
  return found;
}
const norm = (s) => s.replace(/\s*\n\s*/g, '');
// flattened children: strings and elements; comments break text
function flat(parent) {
  const out = [];
  let text = '';
  const cut = () => {
    text = norm(text);
    if (text !== '') out.push(text);
    text = '';
  };
  for (let c = parent.firstChild; c; c = c.nextSibling) {
    if (c.nodeType === 3) text += c.data;
    else {
      cut();
      if (c.nodeType === 1) out.push(c);
      else if (c.nodeType === 8 && c.data[0] === 'c') out.push('<!--' + c.data);
    }
  }
  cut();
  return out;
}
function compare(exp, act, pairs, path) {
  const a = flat(exp);
  const b = flat(act);
  for (let i = 0; i < Math.max(a.length, b.length); i++) {
    const x = a[i];
    const y = b[i];
    const p = `${path}/${i}`;
    const d = (n) => (n === undefined ? 'nothing' : typeof n === 'string' ? JSON.stringify(n) : n.outerHTML);
    if (typeof x === 'string' || typeof y === 'string' || !x || !y) {
      if (x !== y) return `${p}: expected ${d(x)}, found ${d(y)}`;
      continue;
    }
    if (x.localName !== y.localName || x.namespaceURI !== y.namespaceURI) return `${p}: expected ${d(x)}, found ${d(y)}`;
    for (const n of new Set([...x.getAttributeNames(), ...y.getAttributeNames()])) {
      if (n === 'style' && x.style?.cssText !== undefined) {
        if (x.style.cssText === y.style.cssText) continue;
      }
      if (n === 'class') {
        if ([...x.classList].sort().join() === [...y.classList].sort().join()) continue;
      }
      if (x.getAttribute(n) !== y.getAttribute(n)) return `${p}<${x.localName}>: attribute ${n}: expected ${JSON.stringify(x.getAttribute(n))}, found ${JSON.stringify(y.getAttribute(n))}`;
    }
    pairs.set(x, y);
    if (x.content) {
      if (x.innerHTML !== y.innerHTML) return `${p}: content of <template> differs`;
    } else {
      const m = compare(x, y, pairs, p);
      if (m) return m;
    }
  }
  return null;
}

let uid = 0;
function makeValues(B, locs) {
  // -> {values, apply(map sentinel->node in a clone), verify(pairs)}
  const u = ++uid;
  return locs.map((l, i) => {
    switch (l.kind) {
      case 'text': return `t${i}x${u}`;
      case 'child': return B.html([`<hole-${i}-${u}></hole-${i}-${u}>`]);
      case 'element': {
        const log = [];
        const f = (el) => { log.push(el); };
        f.log = log;
        return f;
      }
      case 'attr': {
        const w = l.written;
        if (w[0] === '@') {
          const log = [];
          const f = (ev) => { log.push(ev.currentTarget); };
          f.log = log;
          return f;
        }
        if (w[0] === '.' || w[0] === '$') return `p${i}x${u}`;
        if (w.toLowerCase() === 'class') return `k${i}x${u}`;
        if (w.toLowerCase() === 'style') return { ['--h' + i]: String(u) };
        return `a${i}x${u}`;
      }
    }
  });
}

export default {
  id: 'C04',
  technique: 'runtime monitoring: rendered templates compared with an oracle that runs the numbered source through the HTML parser',
  note: 'Random exploration over sloppy HTML/SVG/MathML sources; the parser is the one of jsdom (parse5). A template whose holes the parser reorders may be rejected or bound where they end up.',
  rule:
    'A case is a random template source (unclosed, misnested, uppercase, foreign, table, raw-text, duplicate and partial constructs) with holes. ' +
    'The oracle parses the same source with numbered sentinels in place of the holes: if every number is found exactly once in a bindable place, the template must render, bind and ' +
    're-render there; otherwise it must be rejected in the debug and the production build without touching the document. Non-trivial: at least one hole.',
  quick: { cases: 9000, secs: 240 },
  thorough: { cases: 300000, secs: 600 },
  require: { bound: 2000, rejected: 400, 'attr holes': 500, 'child holes': 500, 'text holes': 500, 'element holes': 200, 'strings used in two modes': 300 },
  minDistinct: 1000,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const st = { size: 0, bad: rng.bool(0.25) ? 1 : 0, misnest: rng.bool(0.2) ? 0.7 : 0 };
    const mode = rng.weighted([[7, 'html'], [1, 'svg'], [0.5, 'math'], [0.4, 'textarea']]);
    let source =
      mode === 'html' ? content(rng, st, rng.range(1, 4))
        : mode === 'textarea' ? rng.bool(0.4) ? `${rng.pick(['<b>', '<p title="', 'a<i>', '<'])}${H}${rng.pick(['</b>', '">', '</i>' + H + '<br>', '<p>' + H + '</p>', '>'])}` : `${rng.pick(TEXTS.filter((t) => !t.includes('<')))}${H}${rng.pick([' ', H, '\n' + H, 'z', ''])}`
          : foreign(rng, st, rng.range(1, 3), mode, true);
    source = rng.pick(['', '', '\n  ', ' ']) + source + rng.pick(['', '', '\n', ' ']);
    const strings = source.split(H);
    Object.freeze(strings);
    const n = strings.length - 1;
    ctx.note(`${mode}: ${strings.join('${}')}`);
    const oracleSrc = strings.map((s, i) => s + (i < n ? sentinel(i) : '')).join('');
    const oracle = parseOracle(oracleSrc, mode);
    const found = locate(oracle, strings);
    const ok = found.length === n && new Set(found.map((f) => f.i)).size === n && found.every((f) => f.kind !== 'bad' && (f.kind !== 'attr' || f.written !== undefined));
    const inOrder = found.every((f, i) => f.i === i);
    // Inside raw text a tag is text: <${}> there means a text position between "<" and ">".
    const locs = [];
    for (const f of found) locs[f.i] = f;
    const host = makeHost(B);
    const runtime = new B.Runtime(host);
    const container = document.createElement('main');
    document.body.append(container);
    const root = new B.DOMRoot(container, runtime);
    const fail = (m) => ctx.fail(m, container.innerHTML);
    const tpl = (values) => B[mode === 'textarea' ? 'text' : mode](strings, ...values);
    try {
      if (rng.bool(0.12)) {
        // The tag of a template literal may vary: its strings were used in another mode before.
        const other = rng.pick(['html', 'svg', 'math', 'textarea'].filter((m) => m !== mode));
        let failed = false;
        root.render(B[other === 'textarea' ? 'text' : other](strings, ...Array.from({ length: n }, () => null))).finished.catch(() => { failed = true; });
        await drain(host, rng);
        if (!failed) {
          ctx.count('strings used in two modes');
          if (!ok || rng.bool()) {
            root.unmount();
            await drain(host, rng);
          }
        }
      }
      if (!ok) {
        // what the DOM showed before stays
        if (rng.bool()) {
          root.render(B.html`<before-el></before-el>`);
          await drain(host, rng);
        }
        const before = container.innerHTML;
        let err;
        const h = root.render(tpl(Array.from({ length: n }, (_, i) => rng.pick(['v', () => {}, null, 'v' + i]))));
        h.finished.catch((e) => { err = e; });
        await drain(host, rng);
        if (err === undefined) fail(`a template with a value that has no place was accepted: ${found.filter((f) => f.kind === 'bad').map((f) => f.where)} ${n} holes, ${found.length} found`);
        if (container.innerHTML !== before) fail('a rejected template changed the document');
        ctx.count('rejected');
        ctx.count(`rejected (${ctx.variant})`);
        return { sig: source, nontrivial: n > 0 };
      }
      for (const f of found) ctx.count(f.kind + ' holes');
      const rounds = 3;
      let prevValues;
      for (let round = 0; round < rounds; round++) {
        // 0: first render, 1: update, 2: second instance of the cached template
        if (round === 2) {
          root.render(null);
          await drain(host, rng);
          if (rng.bool()) await 0;
        }
        let values = makeValues(B, locs);
        if (round === 1) values = values.map((v, i) => (rng.bool(0.3) ? prevValues[i] : v));
        prevValues = values;
        const twin = round === 2 && rng.bool(0.5);
        const values2 = twin ? makeValues(B, locs) : null;
        let err;
        const h = root.render(twin ? B.html`<w-1><${tpl(values)}></w-1><w-2><${tpl(values2)}></w-2>` : tpl(values));
        h.finished.catch((e) => { err = e; });
        await drain(host, rng);
        if (err !== undefined && !inOrder) {
          // The parser moved a hole before another one: rejecting is fine, too.
          ctx.count('reordered and rejected');
          if (container.innerHTML !== '') fail('a rejected template changed the document');
          return { sig: source };
        }
        if (err !== undefined) fail(`a well-formed template was rejected: ${err.message}\n${err.cause?.message}`);
        const sets = twin ? [values, values2] : [values];
        const expected = document.createElement('main');
        const maps = [];
        for (const vs of sets) {
          const clone = parseOracle(oracleSrc, mode);
          const cf = locate(clone, strings);
          const map = [];
          for (const f of cf) {
            map[f.i] = f;
            const v = vs[f.i];
            switch (f.kind) {
              case 'attr': {
                f.node.removeAttribute(f.name);
                const w = f.written;
                if (/^[@.$]/.test(w)) break;
                if (w.toLowerCase() === 'class') f.node.classList.add(v);
                else if (w.toLowerCase() === 'style') f.node.style.setProperty('--h' + f.i, v['--h' + f.i]);
                else f.node.setAttribute(w, v);
                break;
              }
              case 'element': f.node.removeAttribute(f.name); break;
              case 'child': {
                const t = document.createElement('template');
                t.innerHTML = v.type[0] ?? v.strings?.[0];
                f.node.replaceWith(t.content);
                break;
              }
            }
          }
          for (const tn of new Set(cf.filter((f) => f.kind === 'text').map((f) => f.node))) {
            // line-break whitespace next to a value belongs to the source
            tn.data = tn.data.replace(SENT, (_, i) => vs[i]);
          }
          document.adoptNode(clone);
          if (twin) expected.append(document.createElement(`w-${maps.length + 1}`));
          (twin ? expected.lastChild : expected).append(clone);
          maps.push([map, vs]);
        }
        const pairs = new Map();
        const m = compare(expected, container, pairs, '');
        if (m) fail(`${['first render', 'update', 'second instance'][round]}: ${m}`);
        for (const [map, vs] of maps) {
          for (const f of map) {
            const el = pairs.get(f.node);
            const v = vs[f.i];
            if (f.kind === 'element') {
              if (v.log.at(-1) !== el || v.log.some((x) => x !== el)) fail(`element hole ${f.i} was called with ${v.log.map((x) => x?.nodeName)} instead of <${f.node.localName}>`);
              ctx.count('element refs verified');
            } else if (f.kind === 'attr') {
              const w = f.written;
              if (w[0] === '@') {
                v.log.length = 0;
                el.dispatchEvent(new window.Event(w.slice(1)));
                if (v.log.length !== 1 || v.log[0] !== el) fail(`event hole ${f.i} (${w}) was not reached on <${f.node.localName}>`);
                ctx.count('events verified');
              } else if (w[0] === '.' || w[0] === '$') {
                if (el[w.slice(1)] !== v) fail(`property hole ${f.i} (${w}) is ${String(el[w.slice(1)])} instead of ${v}`);
                ctx.count('properties verified');
              }
            }
          }
        }
        ctx.count('renders compared');
      }
      ctx.count('bound');
      if (ctx.i < 4) ctx.sample({ source: strings.join('${}'), kinds: found.map((f) => f.kind) });
      return { sig: source, nontrivial: n > 0 };
    } finally {
      container.remove();
    }
  },
};
