import { makeHost, drain } from '../lib/sched.mjs';
import { compile, HOLE, C, T, reconcile, newModelState, domOf, Comparer, World, show, visible } from '../lib/app.mjs';

const TAGS = ['div', 'p', 'span', 'b', 'textarea', 'title', 'a', 'td-x', 'pre', 'button', 'style'];
function genBody(rng, depth) {
  const n = rng.range(1, 3);
  const out = [];
  for (let i = 0; i < n; i++) {
    const k = rng.weighted([[3, 'el'], [2, 'C'], [2, 'T'], [1, 's']]);
    if (k === 'el' && depth > 0) {
      const tag = rng.pick(TAGS);
      const attrs = {};
      const names = rng.shuffle(['title', 'href', 'data-a', 'onclick', 'class', 'srcdoc', '.foo', '$bar', 'alt']).slice(0, rng.int(4));
      for (const a of names) attrs[a] = a[0] === '.' || a[0] === '$' || rng.bool(0.7) ? HOLE : 'st';
      if (rng.bool(0.3) && tag !== 'style') { attrs.style = HOLE; attrs['data-styled'] = ''; }
      const raw = tag === 'textarea' || tag === 'title' || tag === 'style';
      const kids = raw ? rng.pick([[T], ['x', T], ['s']]) : genBody(rng, depth - 1);
      if (tag === 'p' && JSON.stringify(kids).match(/"(div|p|pre|td-x)"/)) out.push(['div', attrs, ...kids]);
      else if (tag === 'a' || tag === 'button') out.push(['span', attrs, ...kids]);
      else if (tag === 'style') out.push(['div', attrs, 'st']);
      else out.push([tag, attrs, ...kids]);
    } else out.push(k === 'C' ? C : k === 'T' ? T : 's' + i);
  }
  return out;
}
let n = 0;
function hostile(rng, id) {
  const x = 'X' + n++;
  return rng.pick([
    '<img src=x onerror=alert(1)>', '"><script>alert(1)</script>', "' onmouseover='alert(1)", '--><i>z</i><!--', '--!><b>', '</textarea><b>x</b>', '</style><b>',
    '</title><u>', `?$${id}`, `?$${id}-0-`, `<?$${id}-0->`, `<?$${id}>`, `?$${id}-1-`, `" ${`?$${id}-0-`}="`, '<!--', '-->', '>', '<', '&lt;b&gt;', '&#60;b&#62;', '${alert(1)}', 'javascript:alert(1)', ']]>', '<![CDATA[x]]>',
    '<template><b></b></template>', '</div></div>', '\u0000<b>', '`', '\\', '<svg onload=alert(1)>', '{"type":"b"}', 'a\u2028b', '<b', '/>', '=', `<div ?$${id}-0- title="?$${id}-1-">`,
  ]) + (rng.bool(0.5) ? x : '');
}
function value(rng, id, kind) {
  if (kind === 'class') return hostile(rng, id);
  switch (rng.int(12)) {
    case 0: { const s = hostile(rng, id); return { toString: () => s, valueOf: () => 5, shown: s }; }
    case 1: { // an object that mimics a VNode
      const s = hostile(rng, id);
      return { type: ['<b>' + s, '</b>'], props: { mode: 'html' }, children: [], key: undefined, strings: [s], values: [], raw: [s], toString: () => s, shown: s };
    }
    default: return hostile(rng, id);
  }
}

export default {
  id: 'C05',
  technique: 'runtime monitoring: element, attribute and text census of the DOM under hostile values against a reference model',
  note: 'Random templates with markup, comment, marker and entity injections in every kind of hole; the DOM tree is checked, not its serialisation.',
  rule:
    'A case renders fresh random templates (text, attribute, class, style, property, live and child holes, also in textarea/title) whose values are markup, comment ends, hole markers of the ' +
    'running adapter, entities and objects that imitate virtual nodes, first as the very first values of the template and then as updates and in second instances. The whole DOM is compared with the reference: ' +
    'every element, attribute and text must come from the template or be the value itself. Non-trivial: at least one hostile value.',
  quick: { cases: 5000, secs: 240 },
  thorough: { cases: 150000, secs: 600 },
  require: { compared: 5000, 'hostile values': 10000, 'style attributes': 200 },
  minDistinct: 1000,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const host = makeHost(B);
    const runtime = new B.Runtime(host);
    const world = new World(ctx, B, { host, runtime });
    const container = document.createElement('main');
    document.body.append(container);
    const root = new B.DOMRoot(container, runtime);
    const id = host.getIdentifier();
    const scripts = document.querySelectorAll('script').length;
    try {
      const defs = Array.from({ length: rng.range(1, 3) }, (_, i) => compile({ name: 'h' + i, body: genBody(rng, 3) }));
      const gen = (depth) => {
        const def = rng.pick(defs);
        return {
          k: 't',
          def,
          h: def.holes.map((h) => {
            ctx.count('hostile values');
            if (h.kind === 'child') {
              if (depth > 0 && rng.bool(0.6)) return rng.bool(0.3) ? { k: 'f', items: [gen(depth - 1), { k: 'b', v: value(rng, id, 'child') }, gen(depth - 1)] } : gen(depth - 1);
              return { k: 'v', v: value(rng, id, 'child') };
            }
            return { k: 'v', v: value(rng, id, h.kind) };
          }),
        };
      };
      const edit = (s, depth) =>
        s.k !== 't' ? s : { ...s, h: s.h.map((x, i) => (rng.bool(0.5) ? x : s.def.holes[i].kind === 'child' ? (x.k === 't' ? edit(x, depth - 1) : gen(0)) : { k: 'v', v: value(rng, id, s.def.holes[i].kind) })) };
      const ms = newModelState();
      let model = null;
      let spec = gen(2);
      const rounds = rng.range(2, 5);
      let sig = '';
      for (let r = 0; r < rounds; r++) {
        if (r > 0) spec = rng.bool(0.25) ? gen(2) : edit(spec, 2);
        sig += defs.map((d) => d.strings.join('${}')).join('|') + show(spec);
        ctx.note(show(spec).slice(0, 1500));
        let err;
        root.render(world.realize(spec)).finished.catch((e) => { err = e; });
        await drain(host, rng);
        if (err) ctx.fail(`rendering failed: ${err.message}`, defs.map((d) => d.strings));
        model = reconcile(ms, model, spec);
        const expected = domOf(model, new Map());
        // style values: only declarations of the style attribute
        const styled = [...container.querySelectorAll('[data-styled]')];
        const styleValues = [];
        collectStyles(model, styleValues);
        if (styled.length !== styleValues.length) ctx.fail('number of styled elements differs', container.innerHTML);
        styled.forEach((el, i) => {
          const ref = document.createElement('div');
          ref.style.cssText = strOf(styleValues[i]);
          const map = (s) => [...s].sort().map((p) => `${p}:${s.getPropertyValue(p)}`).join(';');
          ctx.count('style attributes');
          if (map(el.style) !== map(ref.style)) ctx.fail(`style is ${el.style.cssText} instead of ${ref.style.cssText}`, container.innerHTML);
          for (const k of ['style']) el.__style = el.getAttribute(k);
        });
        const cmp = new Comparer();
        cmp.identity = false;
        const strip = styled.map((el) => {
          const v = el.getAttribute('style');
          el.removeAttribute('style');
          return [el, v];
        });
        const m = cmp.children(expected, container, null, 'root');
        if (m) ctx.fail(m, container.innerHTML);
        for (const [el, v] of strip) if (v !== null) el.setAttribute('style', v);
        if (document.querySelectorAll('script').length !== scripts) ctx.fail('a script element appeared', container.innerHTML);
        if (container.parentNode !== document.body || visible(document.body).some((x) => x !== container && x !== world.stage)) ctx.fail('something appeared outside of the container', document.body.innerHTML);
        ctx.count('compared');
        ctx.count('elements compared', cmp.checkedEls);
      }
      if (ctx.i < 2) ctx.sample({ template: defs[0].strings, value: show(spec).slice(0, 300) });
      return { sig };
    } finally {
      container.remove();
      world.dispose();
    }
  },
};
const strOf = (v) => v?.toString?.() ?? '';
function collectStyles(node, out) {
  if (node.spec.k !== 't') {
    for (const k of node.kids) collectStyles(k, out);
    return;
  }
  const walk = (b) => {
    if (typeof b === 'string') return;
    if (b.hole !== undefined) {
      if (b.kind === 'child') collectStyles(node.kids[b.hole], out);
      return;
    }
    for (const a of b.attrs) if (a.kind === 'style') out.push(node.kids[a.hole].spec.v);
    for (const k of b.kids) walk(k);
  };
  for (const b of node.spec.def.body) walk(b);
}
