import { makeHost, drain } from '../lib/sched.mjs';

// Abstract nodes: {t:'fragment',kids}, {t:'el',tag,attrs:[{n,v}],kids}, {t:'text',v}, {t:'comment',v}, {t:'doctype'}.
// `good` marks holes without a mistake, `bad` the hole of the wrong value, \u0001 a hole inside of a name or text.
const HTML_TAGS = ['div', 'section', 'main', 'article', 'x-y', 'aside', 'input', 'br', 'img'];
const SVG_TAGS = ['g', 'path', 'linearGradient', 'rect'];
const VOID = new Set(['input', 'br', 'img']);
const NAMES = ['id', 'title', 'data-a', 'data-ab', 'class', 'lang', 'data'];
const VALUES = ['', 'a', 'b c', 'x > y', '<b>', '"q"', "'", 'a & b', 'id="1"', 'class="x"', '/>', '</div>', 'é', ' ', 'a=b', '\u00a0'];
const TEXTS = ['t', 'a & b', 'x < y', '>', '"', 'two words', 'é', '<!-- -->', '</div>', '^^^'];
const COMMENTS = ['', 'c', ' a & b ', ' <b> ', '^', '"', ' x="1" '];

const source = (s) => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/"/g, '&quot;').replace(/\u00a0/g, '&nbsp;');
const attrOut = (s) => s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/</g, '&lt;').replace(/>/g, '&gt;').replace(/"/g, '&quot;');
const textOut = (s) => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
// Markers of holes stand as [0], [1] ... until they are known.
let sub = (s) => s;
const attrText = (a) => sub(`${a.n}="${attrOut(a.v)}"`);
const openTag = (el) => `<${[sub(el.tag), ...el.attrs.map(attrText)].join(' ')}>`;

// Lines of a node; `mark` is the node or attribute that has to be pointed at.
function lines(node, mark, depth, out = []) {
  const pad = '  '.repeat(depth);
  const line = (s, from, length) => {
    out.push(pad + s);
    if (length > 0) out.push(pad + ' '.repeat(from) + '^'.repeat(length));
  };
  switch (node.t) {
    case 'el': {
      const open = openTag(node);
      const at = node.attrs.indexOf(mark);
      if (at >= 0) {
        const from = openTag({ ...node, attrs: node.attrs.slice(0, at) }).length;
        line(open, from, attrText(mark).length);
      } else line(open, 0, node === mark ? open.length : 0);
      if (!VOID.has(node.tag)) {
        for (const k of node.kids) lines(k, mark, depth + 1, out);
        line(`</${sub(node.tag)}>`, 0, 0);
      }
      break;
    }
    case 'fragment':
      line('<#document-fragment>', 0, node === mark ? 20 : 0);
      for (const k of node.kids) lines(k, mark, depth + 1, out);
      line('</#document-fragment>', 0, 0);
      break;
    case 'text': {
      const s = `"${sub(textOut(node.v))}"`;
      line(s, 0, node === mark ? s.length : 0);
      break;
    }
    case 'doctype':
      line('<!DOCTYPE html>', 0, 0);
      break;
    case 'comment': {
      const s = `<!--${sub(node.v)}-->`;
      line(s, 0, node === mark ? s.length : 0);
      break;
    }
  }
  return out;
}
// Empty elements may take one line or two.
function normalize(list) {
  const out = [];
  for (const l of list) {
    const m = l.match(/^( *)<\/([^ >]+)>$/);
    const last = out.at(-1);
    if (m && last !== undefined && last.startsWith(m[1] + '<' + m[2]) && /[ >]/.test(last[m[1].length + 1 + m[2].length] ?? '') && !last.endsWith(`</${m[2]}>`) && last.endsWith('>')) out[out.length - 1] += l.trim();
    else out.push(l);
  }
  return out.join('\n');
}
const weight = (n) =>
  n.t === 'el' ? 1 + n.attrs.length + n.attrs.filter((a) => a.n === 'class').flatMap((a) => a.v.split(' ')).length + n.kids.reduce((s, k) => s + weight(k), 0)
  : n.kids ? n.kids.reduce((s, k) => s + weight(k), 0) : 1;
// Ways to show `mark`: the whole of the tree or of a large part of it.
function frames(top, mark) {
  if (top === mark) return [() => lines(top, mark, 0)];
  const chain = [];
  const find = (n) => {
    if (n === mark || n.attrs?.includes(mark)) return true;
    for (const k of n.kids ?? []) if (find(k)) { if (n !== top) chain.push(n); return true; }
    return false;
  };
  find(top);
  const whole = () => top.kids.flatMap((k) => lines(k, mark, 0));
  if (weight(top) < 10) return [whole];
  return [whole, ...chain.filter((n) => weight(n) >= 10).map((n) => () => lines(n, mark, 0))];
}
// Whether the frame is this one, for some markers.
const isCarets = (l) => /^ *\^+$/.test(l);
function matches(got, frame) {
  sub = (s) => s;
  try {
    let pattern = '';
    const seen = new Set();
    for (const part of normalize(frame().filter((l) => !isCarets(l))).split(/(\[\d+\])/)) {
      const m = part.match(/^\[(\d+)\]$/);
      if (!m) pattern += part.replace(/[.*+?^${}()|[\]\\]/g, '\\$&');
      else if (seen.has(m[1])) pattern += `\\k<m${m[1]}>`;
      else {
        seen.add(m[1]);
        pattern += `(?<m${m[1]}>[^\n]{1,80}?)`;
      }
    }
    const m = normalize(got.filter((l) => !isCarets(l))).match(new RegExp(`^${pattern}$`));
    if (m === null) return false;
    const markers = m.groups ?? {};
    sub = (s) => s.replace(/\[(\d+)\]/g, (x, i) => markers['m' + i]);
    return normalize(frame()) === normalize(got);
  } finally {
    sub = (s) => s;
  }
}

// The real tree as abstract nodes.
function abstract(node, map) {
  const r =
    node.nodeType === 1 ? { t: 'el', tag: node.localName, attrs: [...node.attributes].map((a) => ({ n: a.name, v: a.value })), kids: [...node.childNodes].map((c) => abstract(c, map)) }
    : node.nodeType === 3 ? { t: 'text', v: node.data }
    : node.nodeType === 10 ? { t: 'doctype' }
    : node.nodeType === 8 ? { t: 'comment', v: node.data }
    : { t: 'fragment', kids: [...node.childNodes].map((c) => abstract(c, map)) };
  map.set(node, r);
  return r;
}

// ------------------------------------------------------------------ generator
function genKids(rng, st, depth) {
  const out = [];
  const n = rng.int(depth === st.depth ? 5 : 4) + (depth === st.depth ? 1 : 0);
  for (let i = 0; i < n; i++) {
    const k = rng.weighted([[depth > 0 ? 6 : 3, 'el'], [3, 'text'], [2, 'comment'], [1.5, 'hole']]);
    if (k === 'el') {
      const tag = rng.pick(st.mode === 'svg' ? SVG_TAGS : HTML_TAGS);
      out.push({ t: 'el', tag, attrs: genAttrs(rng), kids: VOID.has(tag) || depth === 0 ? [] : genKids(rng, st, depth - 1) });
    } else if (k === 'text') {
      if (out.at(-1)?.t !== 'text') out.push({ t: 'text', v: rng.pick(TEXTS) });
    } else if (k === 'comment') out.push({ t: 'comment', v: rng.pick(COMMENTS) });
    else out.push({ t: 'comment', v: '', good: true });
  }
  return out;
}
function genAttrs(rng) {
  return rng.shuffle([...NAMES]).slice(0, rng.weighted([[3, 0], [3, 1], [2, 2], [1, 3]])).map((n) => ({ n, v: rng.pick(VALUES), ...(rng.bool(0.12) ? { good: true } : {}) }));
}
const elements = (top, out = []) => {
  for (const k of top.kids ?? []) {
    if (k.t === 'el') out.push(k);
    elements(k, out);
  }
  return out;
};
// Source strings with a hole wherever \u0001 stands.
function toSource(top) {
  let s = '';
  const walk = (n) => {
    if (n.t === 'text') s += n.src ?? textOut(n.v).replace(/\u00a0/g, '&nbsp;');
    else if (n.t === 'comment') s += n.good ? '<\u0001>' : n.src ?? `<!--${n.v}-->`;
    else if (n.t === 'el') {
      s += '<' + (n.srcTag ?? n.tag);
      for (const a of n.attrs) s += a.src ? ` ${a.src}` : a.good ? ` ${a.n}="\u0001"` : ` ${a.n}="${source(a.v)}"`;
      s += '>';
      for (const k of n.kids) walk(k);
      if (!VOID.has(n.tag) && !n.open) s += `</${n.tag}>`;
      s += n.after ?? '';
    }
  };
  for (const k of top.kids) walk(k);
  const strings = s.split('\u0001');
  strings.raw = strings;
  return strings;
}
// The tree as it is when the parser stands at `stop`: the good holes before are
// empty, those after still hold their markers.
function atParse(top, stop) {
  let index = 0;
  let passed = false;
  const marker = (i) => `[${i}]`;
  const text = (s, i) => s.replace('\u0001', marker(i));
  const map = new Map();
  const copy = (n) => {
    let r;
    if (n === stop) passed = true;
    if (n.t === 'fragment') r = { t: 'fragment', kids: n.kids.map(copy) };
    else if (n.t === 'text') r = { t: 'text', v: n.v.includes('\u0001') ? text(n.v, index++) : n.v };
    else if (n.t === 'comment') {
      if (n.good) {
        const i = index++;
        r = { t: 'comment', v: passed ? marker(i) : '' };
      } else r = { t: 'comment', v: n.v.includes('\u0001') ? text(n.v, index++) : n.v };
    } else {
      const tag = n.tag.includes('\u0001') ? text(n.tag, index++) : n.tag;
      const attrs = [];
      for (const a of n.attrs) {
        if (a === stop) passed = true;
        if (a.good) {
          const i = index++;
          if (!passed) continue;
          const c = { n: a.n, v: marker(i) };
          map.set(a, c);
          attrs.push(c);
        } else if (a.gone) index++;
        else {
          const c = { n: a.n.includes('\u0001') ? text(a.n, index) : a.n, v: a.v.includes('\u0001') ? text(a.v, index) : a.v };
          if (a.n.includes('\u0001') || a.v.includes('\u0001')) index++;
          map.set(a, c);
          attrs.push(c);
        }
      }
      r = { t: 'el', tag, attrs, kids: n.kids.map(copy) };
    }
    map.set(n, r);
    return r;
  };
  const out = copy(top);
  return { top: out, mark: map.get(stop) };
}

const KINDS = ['attribute name', 'part of a value', 'comment', 'tag name', 'duplicate', 'foster', 'event value', 'element value', 'event update', 'element update', 'block', 'partial'];

export default {
  id: 'C35',
  technique: 'runtime monitoring: templates and values with one mistake in a random place; monitors record errors and everything written to the console and compare the shown piece of the tree with an independent rendering of it',
  note: 'Mistakes of templates and of values of event, element and non-child holes, in jsdom. Messages themselves are not judged, but the shown surroundings and the mark are. Nodes with line breaks are not generated.',
  rule:
    'A case puts one mistake of 12 kinds (value as attribute name, as part of a value, of a comment or of a tag name, twice the same attribute, moved by the parser, no listener for an event or no function for an element at mount or update, a template in an attribute, a Partial among values) into a random place of a random html or svg template with attributes, texts and comments full of markup characters and further holes, and renders it; then the same template without the mistake. ' +
    'Debug builds: the error (or the one warning) shows a whole piece of the tree as it is, indented, around the node or attribute in question, with carets below exactly that; small templates are shown whole; nothing else is written to the console; the document stays as it was. Production builds: a plain error without tree and nothing in the console. Without mistakes the console stays empty. Non-trivial: a mistake was reported.',
  quick: { cases: 6000, secs: 240 },
  thorough: { cases: 100000, secs: 500 },
  require: { 'frames compared': 2000, 'marked attributes': 300, 'marked elements': 500, 'marked comments': 100, 'marked fragments': 100, 'production errors': 1200, 'correct templates': 3000, 'warnings': 200, 'events and elements at update': 300 },
  minDistinct: 1500,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const debug = ctx.variant === 'debug';
    const host = makeHost(B);
    const runtime = new B.Runtime(host);
    const container = document.createElement('main');
    document.body.append(container);
    const root = new B.DOMRoot(container, runtime);
    try {
      const st = { mode: rng.bool(0.75) ? 'html' : 'svg', depth: rng.range(1, 3) };
      let kind = rng.pick(KINDS);
      const top = { t: 'fragment', kids: genKids(rng, st, st.depth) };
      if (elements(top).length === 0) top.kids.push({ t: 'el', tag: st.mode === 'svg' ? 'g' : 'div', attrs: genAttrs(rng), kids: [] });
      const place = rng.pick(elements(top));
      const NAME = rng.pick(['x', '@click', '.value', '$checked', 'data-z', '@x-ev']);
      const insert = (list, x) => list.splice(rng.int(list.length + 1), 0, x);
      // 1. the mistake
      const H = '\u0001';
      let bad = H; // a value that works everywhere
      let stop = null;
      let suffix = '';
      const withKids = rng.pick([top, ...elements(top).filter((e) => !VOID.has(e.tag))]);
      if (kind === 'foster' && st.mode === 'svg') kind = 'comment';
      switch (kind) {
        case 'attribute name': {
          const n = rng.pick(['x' + H, H + 'x', 'data-' + H, '@' + H, '.' + H + 'y', H]);
          const v = n === H ? 'v' : rng.pick(['', 'a', '>']);
          insert(place.attrs, (stop = { n, v, src: v === '' && rng.bool() ? n : `${n}="${source(v)}"` }));
          break;
        }
        case 'part of a value': {
          const v = rng.pick(['a ' + H, H + ' ', ' ' + H, 'x' + H + 'y', '>' + H, H + '"', '&' + H]);
          insert(place.attrs, (stop = { n: NAME, v, src: `${NAME}="${source(v)}"` }));
          break;
        }
        case 'comment': {
          const v = rng.pick(['a ' + H, H + ' b', 'x' + H, ' <' + H + '> ', H + '>']);
          insert(withKids.kids, (stop = { t: 'comment', v, src: `<!--${v}-->` }));
          break;
        }
        case 'tag name': {
          const tag = rng.pick(['x-' + H, 'a' + H, 'h' + H + '-y']);
          withKids.kids.push((stop = { t: 'el', tag, attrs: genAttrs(rng).filter((a) => !a.good), kids: [], open: true }));
          if (withKids === top) delete stop.open;
          break;
        }
        case 'duplicate': {
          const name = rng.pick(['data-d', '@click', '.x', '$y']);
          const i = rng.int(place.attrs.length + 1);
          place.attrs.splice(i, 0, { n: name, v: '', good: true, dup: true });
          place.attrs.splice(rng.range(i + 1, place.attrs.length), 0, { n: name, v: '', gone: true, src: `${name}="${H}"` });
          break;
        }
        case 'foster': {
          const tr = { t: 'el', tag: 'tr', attrs: [...genAttrs(rng).filter((a) => !a.good), { n: 'data-f', v: '', good: true }], kids: [] };
          const table = { t: 'el', tag: 'table', attrs: [], kids: [{ t: 'el', tag: 'tbody', attrs: [], kids: [tr] }], foster: true };
          top.kids.push({ t: 'el', tag: 'div', attrs: [], kids: [table] });
          suffix = rng.pick(['', '', ' & b', ' < c', '>']);
          break;
        }
        case 'event value':
        case 'event update': {
          insert(place.attrs, (stop = { n: '@' + rng.pick(['click', 'x-ev']), v: '', good: true, bad: true }));
          bad = rng.pick([5, 'listener', true, {}, Symbol.iterator, { handleEvent: 1 }]);
          break;
        }
        case 'element value':
        case 'element update': {
          place.attrs.push((stop = { n: H, v: '', good: true, bad: true, src: H }));
          bad = rng.pick([5, 'ref', true, {}, { handleEvent: () => {} }]);
          break;
        }
        case 'block':
          insert(place.attrs, (stop = { n: NAME.replace(/^[@$.]/, 'data-'), v: '', good: true, bad: true }));
          bad = B.html`<b>block</b>`;
          break;
        case 'partial':
          insert(place.attrs, (stop = { n: 'data-p', v: '', good: true, bad: true }));
          bad = B.Partial.literal('partial');
          break;
      }
      let strings = toSource(top);
      let nbad = null;
      // which of the holes is the bad one
      {
        let i = 0;
        const walk = (n) => {
          if (n.t === 'comment' && (n.good || n.v.includes(H))) i++;
          if (n.t === 'text' && n.v.includes(H)) i++;
          if (n.t === 'el') {
            if (n.tag.includes(H)) i++;
            for (const a of n.attrs) {
              if (a.bad) nbad = i;
              if (a.good || a.gone || a.n.includes(H) || a.v.includes(H)) i++;
            }
          }
          for (const k of n.kids ?? []) walk(k);
        };
        walk(top);
      }
      if (kind === 'foster') {
        const s = strings.join(H).replace('</tbody></table>', `</tbody>${H}${textOut(suffix)}</table>`).split(H);
        s.raw = s;
        strings = s;
      }
      const values = Array.from({ length: strings.length - 1 }, (_, i) => (i === nbad ? bad : null));
      const template = (v) => B[st.mode](strings, ...v);
      const render = async (v) => {
        let err;
        let rejected = false;
        const before = ctx.consoleLog.length;
        let handle;
        try {
          handle = root.render(v());
        } catch (e) {
          return { rejected: true, err: e, logs: ctx.consoleLog.slice(before) };
        }
        handle.finished.catch((e) => { rejected = true; err = e; });
        await drain(host, rng, rng.pick(['fifo', 'random']));
        return { rejected, err, logs: ctx.consoleLog.slice(before) };
      };
      const sig = `${kind}|${strings.join('${}')}|${String(bad?.toString?.() ?? bad).slice(0, 20)}`;
      ctx.note(sig);
      const where = () => `${ctx.variant} ${kind} in ${strings.join('${}')}`;
      const quiet = (logs) => {
        if (logs.length > 0) ctx.fail(`something is written to the console: ${String(logs[0][1][0]).slice(0, 300)}`, where());
      };
      const checkFrame = (message, want, what) => {
        const i = String(message).indexOf('\n');
        if (i < 0) ctx.fail(`${what} shows no node`, `${message}\n${where()}`);
        const got = message.slice(i + 1);
        const at = want.findIndex((f) => matches(got.split('\n'), f));
        if (at < 0) ctx.fail(`${what} does not show the place of the mistake:\n${got}\ninstead of\n${want[0]().join('\n')}`, where());
        ctx.count('frames compared');
        if (at > 0) ctx.count('pieces of trees');
      };
      const counted = (mark) => ctx.count(mark.t === 'el' ? 'marked elements' : mark.t === 'comment' ? 'marked comments' : mark.t === 'fragment' ? 'marked fragments' : mark.t === 'text' ? 'marked texts' : 'marked attributes');

      // 2. what has to be shown
      const dynamic = kind.startsWith('event') || kind.startsWith('element') || kind === 'block' || kind === 'partial';
      if (kind === 'partial') {
        const r = await render(() => template(values));
        if (r.rejected) ctx.fail(`rendering failed: ${r.err?.message}`, where());
        const about = r.logs.filter(([, a]) => a.includes(bad));
        if (debug ? r.logs.length !== 1 || about.length !== 1 : r.logs.length !== 0) ctx.fail(`${r.logs.length} messages about a Partial among the values`, where());
        ctx.count('warnings');
      } else if (kind === 'block') {
        const r = await render(() => template(values));
        if (r.rejected) ctx.fail(`rendering failed: ${r.err?.message}`, where());
        if (debug) {
          if (r.logs.length !== 1 || r.logs[0][0] !== 'warn') ctx.fail(`${r.logs.length} messages about a template in an attribute`, where());
          const want = dynamicFrames(top, place, null);
          checkFrame(r.logs[0][1][0], want, 'the warning');
          ctx.count('marked elements');
        } else quiet(r.logs);
        ctx.count('warnings');
      } else if (kind.endsWith('update')) {
        const good = rng.pick([null, undefined, () => {}]);
        const first = await render(() => template(values.map((v, i) => (i === nbad ? good : v))));
        if (first.rejected) ctx.fail(`rendering failed: ${first.err?.message}`, where());
        quiet(first.logs);
        const map = new Map();
        const doc = abstract(document, map);
        const html = document.documentElement.outerHTML;
        const r = await render(() => template(values));
        if (!r.rejected) ctx.fail('the mistake is accepted', where());
        quiet(r.logs);
        if (document.documentElement.outerHTML !== html) ctx.fail('reporting a mistake changes the document', `${html}\n${document.documentElement.outerHTML}`);
        // the element at the same place
        const els = [...container.querySelectorAll('*')];
        const node = els[elements(top).indexOf(place)];
        if (debug) {
          checkFrame(r.err?.message, frames(doc, map.get(node)), 'the error');
          ctx.count('marked elements');
        } else if (String(r.err?.message).includes('\n')) ctx.fail('production errors show nodes', r.err.message);
        else ctx.count('production errors');
        ctx.count('events and elements at update');
      } else {
        const html = document.documentElement.outerHTML;
        const r = await render(() => template(values));
        if (!r.rejected) ctx.fail('the mistake is accepted', where());
        if (!(r.err instanceof Error)) ctx.fail('the failure is not an error', where());
        quiet(r.logs);
        if (document.documentElement.outerHTML !== html) ctx.fail('reporting a mistake changes the document', `${html}\n${document.documentElement.outerHTML}`);
        if (!debug) {
          if (String(r.err.message).includes('\n')) ctx.fail('production errors show nodes', r.err.message);
          ctx.count('production errors');
        } else {
          let want;
          let mark;
          if (dynamic) {
            want = dynamicFrames(top, place, null);
            mark = place;
          } else {
            let s;
            if (kind === 'duplicate') {
              // The next hole is out of place: as an attribute it has the wrong
              // name, unless it is a duplicate of the same name itself.
              s = nextHole(top);
              if (s === null) {
                const all = atParse(top, null);
                want = frames(all.top, all.top);
                mark = all.top;
              } else if (s.owner) {
                const x = atParse(top, s.attr);
                mark = x.mark;
                want = frames(x.top, mark);
              } else {
                const x = atParse(top, s.node);
                mark = x.mark;
                want = frames(x.top, mark);
              }
            } else if (kind === 'foster') {
              // The text moves in front of the table.
              const div = top.kids.at(-1);
              const text = { t: 'text', v: H + suffix };
              const moved = { t: 'fragment', kids: [...top.kids.slice(0, -1), { ...div, kids: [text, ...div.kids] }] };
              const x = atParse(moved, text);
              mark = x.mark;
              want = frames(x.top, mark);
            } else {
              const x = atParse(top, stop);
              mark = x.mark;
              want = frames(x.top, mark);
            }
          }
          checkFrame(r.err.message, want, 'the error');
          counted(mark);
        }
      }
      // 3. the same without the mistake, at the same root
      const fine = rng.bool() ? top : null;
      const clean = { t: 'fragment', kids: structuredClone((fine ?? top).kids) };
      const scrub = (n) => {
        if (n.attrs) n.attrs = n.attrs.filter((a) => !a.gone && !a.n.includes(H) && !a.v.includes(H));
        if (n.kids) {
          n.kids = n.kids.filter((k) => !(k.tag?.includes(H) || k.v?.includes(H)));
          // texts that met must not merge
          n.kids = n.kids.filter((k, i, all) => !(k.t === 'text' && all[i - 1]?.t === 'text'));
          n.kids.forEach(scrub);
        }
      };
      scrub(clean);
      const cs = toSource(clean);
      const good = await render(() => B[st.mode](cs, ...Array.from({ length: cs.length - 1 }, () => null)));
      if (good.rejected) ctx.fail(`a correct template is rejected: ${good.err?.message}`, cs.join('${}'));
      quiet(good.logs);
      ctx.count('correct templates');
      if (ctx.i < 3) ctx.sample({ kind, template: strings, variant: ctx.variant });
      return { sig };
    } finally {
      container.remove();
    }

    // The tree before it is mounted, without the markers of its holes.
    function dynamicFrames(root, mark) {
      const map = new Map();
      const copy = (n) => {
        const r = { ...n, ...(n.attrs ? { attrs: n.attrs.filter((a) => !a.good) } : {}), ...(n.kids ? { kids: n.kids.map(copy) } : {}) };
        map.set(n, r);
        return r;
      };
      const t = copy(root);
      if (t.kids[0]?.good) t.kids.unshift({ t: 'comment', v: '' });
      return frames(t, map.get(mark));
    }
    // The first hole behind the doubled attribute.
    function nextHole(root) {
      let seen = null;
      let found = null;
      const walk = (n) => {
        if (found) return;
        if (n.t === 'comment' && n.good && seen) found ??= { node: n };
        for (const a of n.attrs ?? []) {
          if (a.dup) seen = a;
          else if (a.gone) gone = true;
          else if (a.good && seen) {
            if (gone) { found ??= { owner: n, attr: a }; return; }
          }
        }
        for (const k of n.kids ?? []) walk(k);
      };
      let gone = false;
      walk(root);
      return found;
    }
  },
};
