import { makeHost, drain } from '../lib/sched.mjs';

const ATTRS = ['title', 'data-x', 'id', 'aria-label', 'hidden', 'tabindex', 'href'];
const PROPS = ['foo', 'fooBar', 'value', 'title', 'lang'];
const EVENTS = ['click', 'my-event', 'fooBar', 'input', 'toggle'];
const TOKENS = ['a', 'b', 'c', 'd-e', 'x:y', 'A', '_f', 'constructor'];
const STYLE = {
  color: ['red', 'blue', 'green'],
  backgroundColor: ['red', 'yellow'],
  'background-color': ['red', 'green'],
  'margin-left': ['1px', '2px'],
  margin: ['3px', '4px 5px', '6px'],
  marginTop: ['7px', '3px'],
  display: ['none', 'block'],
  '--custom': ['1', 'abc', 'x y'],
  '--camelVar': ['q', 'r', 3],
  opacity: [0, 0.5, 1],
  zIndex: [0, 7],
  'text-decoration-line': ['underline', 'none'],
  webkitTransform: ['none'],
  fontSize: ['10px', '2em'],
};
const kebab = (k) => {
  if (k.startsWith('--') || k.includes('-')) return k;
  let out = '';
  for (const ch of k) out += ch >= 'A' && ch <= 'Z' ? '-' + ch.toLowerCase() : ch;
  return /^(webkit|moz|ms|o)-/.test(out) && /^(webkit|moz|ms|o)[A-Z]/.test(k) ? '-' + out : out;
};

function genAttr(rng) {
  return rng.pick([
    'x', 'y', '', ' ', 'a"b', '<i>', '&amp;', 0, 1, -0, 2.5, NaN, 10n, true, false, null, undefined, true, false, null,
    { toString: () => 'obj' }, Object.create(null), Symbol('s'), new Date(0), 'true', 'false', 'null',
  ]);
}
const attrText = (v) => (v === null || v === undefined || v === false ? null : v === true ? '' : typeof v === 'object' && typeof v.toString !== 'function' ? '' : String(v));

function genClass(rng) {
  const toks = () => rng.shuffle(TOKENS).slice(0, rng.int(4));
  switch (rng.int(6)) {
    case 0: return rng.pick([null, undefined, '', '  ']);
    case 1: case 2: return (rng.bool(0.3) ? '  ' : '') + toks().join(rng.pick([' ', '  ', '\n\t'])) + (rng.bool(0.2) ? ' ' : '');
    default: {
      const o = {};
      for (const t of toks()) o[rng.bool(0.25) ? `${t} ${rng.pick(TOKENS)}` : t] = rng.bool(0.8) ? rng.bool(0.7) : rng.pick([undefined, null, 0, 1, '', 'on', NaN]);
      return o;
    }
  }
}
function classTokens(v) {
  const set = new Set();
  const m = v !== null && typeof v === 'object' ? v : { [v ?? '']: true };
  for (const k of Object.keys(m)) {
    for (const t of k.split(/\s+/)) {
      if (t === '') continue;
      if (m[k]) set.add(t);
      else set.delete(t);
    }
  }
  return set;
}
const important = (rng) => (rng.bool(0.15) ? rng.pick([' !important', '!important', ' ! Important ']) : '');
const withPriority = (rng, v) => (typeof v === 'number' ? v : v + important(rng));
function genStyle(rng) {
  const keys = rng.shuffle(Object.keys(STYLE)).slice(0, rng.int(5));
  switch (rng.int(5)) {
    case 0: return rng.pick([null, undefined, '']);
    case 1: return keys.map((k) => `${kebab(k)}: ${withPriority(rng, rng.pick(STYLE[k]))}`).join('; ');
    default: {
      const o = {};
      for (const k of keys) o[k] = rng.weighted([[4, withPriority(rng, rng.pick(STYLE[k]))], [1, null], [0.6, undefined], [0.4, '']]);
      return o;
    }
  }
}
function styleMap(style) {
  const o = {};
  // A shorthand stands for its longhands.
  for (let i = 0; i < style.length; i++) if (style[i] !== 'margin') o[style[i]] = style.getPropertyValue(style[i]) + '!' + style.getPropertyPriority(style[i]);
  return JSON.stringify(Object.entries(o).sort());
}
function refStyle(v, ext) {
  const { style } = document.createElement('div');
  if (v !== null && typeof v === 'object') {
    for (const k of Object.keys(v)) if (v[k] !== null && v[k] !== undefined) {
      const [value, bang] = String(v[k]).split('!').map((x) => x.trim());
      style.setProperty(kebab(k), value, bang === undefined ? '' : 'important');
    }
  } else style.cssText = v ?? '';
  if (ext) style.setProperty('outline-width', '3px');
  return styleMap(style);
}

let listenerId = 0;
function genListener(rng, calls, signals) {
  if (rng.bool(0.2)) return { value: rng.pick([null, undefined]), id: 0 };
  const id = ++listenerId;
  const kind = rng.int(3);
  let value;
  if (kind === 0) {
    value = function (e) { calls.push({ id, phase: e.eventPhase, dp: (e.preventDefault(), e.defaultPrevented), n: arguments.length, cur: e.currentTarget }); };
  } else {
    value = { handleEvent(e) { calls.push({ id, phase: e.eventPhase, self: this === value, dp: (e.preventDefault(), e.defaultPrevented), n: arguments.length, cur: e.currentTarget }); } };
  }
  const opts = {};
  if (rng.bool(0.5)) {
    if (rng.bool()) opts.capture = rng.bool();
    if (rng.bool(0.3)) opts.passive = rng.bool();
    if (rng.bool(0.2)) { opts.ac = new window.AbortController(); signals.push(opts.ac); }
    if (rng.bool(0.15)) opts.once = true;
  }
  const { ac, ...rest } = opts;
  Object.assign(value, rest);
  if (ac) value.signal = ac.signal;
  return { value, id, ...opts, kind };
}
const sameOpts = (a, b) => a.capture === b.capture && a.once === b.once && a.passive === b.passive && a.ac === b.ac;

// The model of an element is a property of the page's own, with values that look alike.
const MODELS = [0, '0', 1, '1', true, 'true', null, 'null', undefined, '', NaN, 'NaN', { toString: () => '1' }];
const KINDS = ['attr', 'attr', 'class', 'style', 'prop', 'live', 'event', 'event'];

function genElement(rng, n) {
  const tag = rng.pick(['div', 'input', 'p', 'a', 'button', 'svg']);
  const el = { tag, n, holes: [], statics: { 'data-static': `s${n}` } };
  const used = new Set(['data-static']);
  const m = rng.range(1, 5);
  for (let i = 0; i < m; i++) {
    let kind = rng.pick(KINDS);
    let name;
    switch (kind) {
      case 'attr': name = tag === 'svg' && rng.bool(0.4) ? 'viewBox' : rng.pick(ATTRS); break;
      case 'class': name = rng.pick(['class', 'class', 'CLASS']); break;
      case 'style': name = 'style'; break;
      case 'prop': name = rng.pick(PROPS); break;
      case 'live':
        name = tag === 'input' ? rng.pick(['value', 'value', 'checked', 'model']) : 'model';
        break;
      case 'event': name = rng.pick(EVENTS); break;
    }
    const slot = { attr: '', class: '', style: '', prop: '.', live: '$', event: '@' }[kind] + name;
    if (used.has(slot.toLowerCase())) continue;
    if (kind === 'prop' && (used.has('$' + name) || used.has(name))) continue;
    if (kind === 'attr' && used.has('.' + name)) continue;
    if (kind === 'live' && used.has('.' + name)) continue;
    if (tag === 'svg' && kind === 'prop' && (name === 'title' || name === 'lang')) continue;
    if (tag !== 'input' && kind === 'prop' && name === 'value' && tag === 'button') continue;
    used.add(slot.toLowerCase());
    el.holes.push({ kind, name, slot });
  }
  if (rng.bool(0.4) && !used.has('role')) el.statics.role = 'x';
  return el;
}

export default {
  id: 'C03',
  technique: 'runtime monitoring: state of real elements (attributes, classes, styles, properties, listener calls) after random rebinding histories vs a reference binding',
  note: 'Random exploration in jsdom; valid CSS values only; a fired once-listener is only judged again after its options change; tokens shared between items of one class list are a known finding.',
  rule:
    'A case is a random template of 1-4 elements with attribute, class, style, property, live and event holes (single values and, for classes and events, lists) and 6-14 random rebinding steps with user interference (typing, focus, foreign classes); in some cases values arrive through signals, components or elements with keys, too, and the form changes. ' +
    'After each step all attributes, class tokens, style declarations, properties and the calls made by dispatched events are compared with a reference. Non-trivial: the template has a hole.',
  quick: { cases: 8000, secs: 240 },
  thorough: { cases: 300000, secs: 600 },
  require: { steps: 3000, 'listener calls': 2000, 'attributes compared': 5000, 'styles compared': 1000, 'classes compared': 1000, 'live values compared': 300, 'values changed through signals': 2000 },
  minDistinct: 200,
  known: {
    async 'class-list-overlap'(ctx) {
      const B = await ctx.lib('debug', false);
      const host = makeHost(B);
      const c = document.createElement('div');
      const root = new B.DOMRoot(c, new B.Runtime(host));
      const f = (v) => B.html`<p class=${v}></p>`;
      root.render(f(['a', 'b']));
      await drain(host, ctx.rng);
      root.render(f(['b', 'c']));
      await drain(host, ctx.rng);
      return [...c.firstChild.classList].sort().join() !== 'b,c';
    },
  },
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const host = makeHost(B);
    const runtime = new B.Runtime(host);
    const container = document.createElement('main');
    document.body.append(container);
    const root = new B.DOMRoot(container, runtime);
    const calls = [];
    const signals = [];
    try {
      const els = Array.from({ length: rng.range(1, 4) }, (_, n) => genElement(rng, n));
      // strings
      const strings = [''];
      const holes = [];
      for (const el of els) {
        const pieces = rng.shuffle([...Object.entries(el.statics).map(([k, v]) => ({ text: `${k}="${v}"` })), ...el.holes.map((h) => ({ h }))]);
        strings[strings.length - 1] += `<${el.tag}`;
        for (const p of pieces) {
          if (p.text) strings[strings.length - 1] += ' ' + p.text;
          else {
            const q = rng.pick(['', '', '"', "'"]);
            strings[strings.length - 1] += ` ${p.h.slot}=${q}`;
            p.h.el = el;
            holes.push(p.h);
            strings.push(q);
          }
        }
        strings[strings.length - 1] += el.tag === 'input' ? '>' : el.tag === 'svg' ? '><g></g></svg>' : `><b></b></${el.tag}>`;
      }
      Object.freeze(strings);
      ctx.note(strings.join('${}'));
      const listy = rng.bool(0.25);
      const gen = (h) => {
        switch (h.kind) {
          case 'attr': return { v: genAttr(rng) };
          case 'class':
            if (listy) {
              // disjoint token sets per position
              const v = Array.from({ length: 2 }, (_, i) => rng.pick([null, '', `k${i}`, `l${i}`, `k${i} l${i}`, { [`k${i}`]: rng.bool(), [`m${i}`]: rng.bool() }]));
              return { v, list: true };
            }
            return { v: genClass(rng) };
          case 'style': return { v: genStyle(rng) };
          case 'prop': return { v: h.name === 'title' || h.name === 'lang' ? rng.pick(['p', 'q', '']) : h.name === 'value' && h.el.tag === 'input' ? rng.pick(['p', 'q', '', 5]) : rng.pick([1, 'z', null, undefined, true, { o: 1 }, () => 1, NaN]) };
          case 'live': return { v: h.name === 'checked' ? rng.bool() : h.name === 'model' ? rng.pick(MODELS) : rng.pick(['t1', 't2', '', 7]) };
          case 'event': {
            if (listy && rng.bool()) {
              const ls = Array.from({ length: rng.int(4) }, () => genListener(rng, calls, signals));
              return { v: ls.map((l) => l.value), ls, list: true };
            }
            const l = genListener(rng, calls, signals);
            return { v: l.value, ls: [l] };
          }
        }
      };
      // A value may also arrive through a signal, a component or an element with a key.
      const Through = B.createComponent(function Through({ v }) { return v; });
      const formal = rng.bool(0.4);
      const withForm = (c) => {
        if (!c.list) c.form = formal ? rng.pick(['plain', 'plain', 'signal', 'component', 'key 1', 'key 2']) : 'plain';
        return c;
      };
      const bound = (c) => {
        switch (c.form) {
          case undefined: case 'plain': return c.v;
          case 'signal': return (c.atom ??= new B.Atom(c.v));
          case 'component': return Through({ v: c.v });
          default: return B.createBind(c.v).withKey(c.form);
        }
      };
      let cur = holes.map((h) => withForm(gen(h)));
      let forms = [];
      // a list hole stays a list, and the other way round
      let mounted = false;
      const attached = holes.map(() => []); // per event hole: [{l, live, ambiguous}]
      const n = rng.range(6, 14);
      let ext = false;
      let prevRender = null;
      for (let step = 0; step < n; step++) {
        const op = mounted ? rng.weighted([[6, 'update'], [1, 'same'], [0.5, 'remount'], [0.7, 'ext'], [0.6, 'abort'], [formal ? 2 : 0, 'signal']]) : 'update';
        if (op === 'abort') {
          if (signals.length > 0) rng.pick(signals).abort();
        }
        if (op === 'ext') {
          ext = true;
          for (const e of container.children) {
            e.classList.add('ext');
            e.style.setProperty('outline-width', '3px');
          }
        }
        if (op === 'remount') {
          root.render(null);
          await drain(host, rng);
          mounted = false;
          ext = false;
        }
        if (op === 'update' || op === 'same' || op === 'remount') {
          if (op === 'update' && mounted) {
            cur = cur.map((c, i) => {
              if (rng.bool(0.5)) return c;
              const g = withForm(gen(holes[i]));
              return !!g.list === !!c.list ? g : c;
            });
          }
          // the user interferes with live properties
          if (mounted) {
            for (const [i, h] of holes.entries()) {
              if (h.kind === 'live' && rng.bool(0.6)) {
                const e = container.querySelector(`[data-static=s${h.el.n}]`);
                if (rng.bool(0.3)) e.focus();
                if (h.name === 'value') e.value = rng.pick(['typed', '', 't1']);
                else if (h.name === 'model') e.model = rng.pick(MODELS);
                else e.checked = rng.bool();
              }
            }
          }
          ctx.note(`${op} ${cur.map((c, i) => `${holes[i].slot}=${describe(c)}`).join(' ')}`);
          const h = root.render(B.html(strings, ...cur.map(bound)));
          await drain(host, rng);
          await h.finished;
          // attachment model
          attach();
          forms = cur.map((c) => c.form);
          mounted = true;
        }
        function attach() {
          holes.forEach((h, i) => {
            if (h.kind !== 'event') return;
            const old = mounted && forms[i] === cur[i].form ? attached[i] : [];
            attached[i] = cur[i].ls.map((l, j) => {
              const o = old[j];
              if (l.id === 0) return { l, on: false };
              if (o && o.l.id !== 0 && sameOpts(o.l, l)) return { l, on: o.on, ambiguous: o.ambiguous || o.fired && o.l !== l };
              return { l, on: true };
            });
          });
        }
        if (op === 'signal') {
          // The signals are written, nothing is rendered from outside.
          cur = cur.map((c, i) => {
            if (!c.atom || holes[i].kind === 'live' || rng.bool(0.3)) return c;
            const g = gen(holes[i]);
            if (g.list) return c;
            c.atom.value = g.v;
            ctx.count('values changed through signals');
            return { ...g, form: c.form, atom: c.atom };
          });
          ctx.note(`signal ${cur.map((c, i) => `${holes[i].slot}=${describe(c)}`).join(' ')}`);
          await drain(host, rng);
          attach();
        }
        ctx.count('steps');
        // ---- compare
        const nodes = [...container.children];
        if (nodes.length !== els.length) ctx.fail(`expected ${els.length} elements, found ${nodes.length}`, container.outerHTML);
        for (const [k, el] of els.entries()) {
          const e = nodes[k];
          const exp = { ...el.statics };
          let cls = new Set();
          let sty = null;
          let hasClass = false;
          const ref = el.tag === 'svg' ? document.createElementNS('http://www.w3.org/2000/svg', 'svg') : document.createElement(el.tag);
          holes.forEach((h, i) => {
            if (h.el !== el) return;
            const v = cur[i].v;
            switch (h.kind) {
              case 'attr': {
                const t = attrText(v);
                if (t !== null) exp[h.name] = t;
                break;
              }
              case 'class':
                hasClass = true;
                for (const x of cur[i].list ? v : [v]) for (const t of classTokens(x)) cls.add(t);
                break;
              case 'style': sty = v; break;
              case 'prop':
                ref[h.name] = v;
                if (!Object.is(e[h.name], ref[h.name])) ctx.fail(`property ${h.name} of element ${k} is ${String(e[h.name])} instead of ${String(ref[h.name])}`, container.outerHTML);
                ctx.count('properties compared');
                break;
              case 'live':
                if (op === 'abort' || op === 'ext' || op === 'signal') break;
                ref[h.name] = v;
                if (!Object.is(e[h.name], ref[h.name])) ctx.fail(`live property ${h.name} of element ${k} is ${JSON.stringify(e[h.name])} instead of ${JSON.stringify(ref[h.name])}`, container.outerHTML);
                ctx.count('live values compared');
                break;
            }
          });
          // reflected properties
          for (const name of ['title', 'lang', 'value']) {
            if (holes.some((h) => h.el === el && h.kind === 'prop' && h.name === name) && ref.hasAttribute(name)) exp[name] = ref.getAttribute(name);
          }
          for (const name of new Set([...e.getAttributeNames(), ...Object.keys(exp)])) {
            if (name === 'class' || name === 'style') continue;
            ctx.count('attributes compared');
            if (e.getAttribute(name) !== (exp[name] ?? null)) {
              ctx.fail(`attribute ${name} of element ${k} is ${JSON.stringify(e.getAttribute(name))} instead of ${JSON.stringify(exp[name] ?? null)}`, container.outerHTML);
            }
          }
          if (ext) cls.add('ext');
          const have = [...e.classList].sort().join(' ');
          const want = [...cls].sort().join(' ');
          ctx.count('classes compared');
          if (have !== want) ctx.fail(`classes of element ${k} are "${have}" instead of "${want}"`, container.outerHTML);
          const sh = styleMap(e.style);
          const sw = refStyle(sty, ext);
          ctx.count('styles compared');
          if (sh !== sw) ctx.fail(`style of element ${k} is ${sh} instead of ${sw}`, container.outerHTML);
          // ---- events
          for (const [i, h] of holes.entries()) {
            if (h.el !== el || h.kind !== 'event') continue;
            const expected = (phase, bubbles) => {
              const out = [];
              for (const cap of phase === 2 ? [null] : phase === 1 ? [true] : [false]) {
                for (const a of attached[i]) {
                  if (!a.on || a.ambiguous) continue;
                  if (a.l.ac?.signal.aborted) continue;
                  if (cap !== null && !!a.l.capture !== cap) continue;
                  out.push(a);
                }
              }
              return out;
            };
            const modes = ['self'];
            if (e.firstChild && rng.bool(0.5)) modes.push('child');
            for (const mode of modes) {
              calls.length = 0;
              const ev = new window.Event(h.name, { bubbles: mode === 'child', cancelable: true });
              const exp = mode === 'self' ? expected(2) : [...expected(1), ...expected(3)];
              const amb = attached[i].some((a) => a.ambiguous);
              (mode === 'self' ? e : e.firstChild).dispatchEvent(ev);
              const got = calls.map((c) => c.id).sort().join();
              const want = exp.map((a) => a.l.id).sort().join();
              const fired = exp.filter((a) => a.l.once);
              for (const a of fired) { a.on = false; a.fired = true; }
              if (amb) { ctx.count('ambiguous once listeners skipped'); continue; }
              ctx.count('listener calls', calls.length);
              ctx.count('events dispatched');
              if (got !== want) ctx.fail(`event ${h.name} on element ${k} (${mode}) reached listeners [${got}] instead of [${want}]`, container.outerHTML);
              if (mode === 'child' && calls.length > 1) {
                const seen = calls.map((c) => c.id).join();
                const order = exp.map((a) => a.l.id).join();
                const capFirst = calls.map((c) => c.phase).join();
                if (capFirst !== [...capFirst.split(',')].sort().join()) ctx.fail(`capture order broken: ${seen} vs ${order}`);
              }
              for (const c of calls) {
                const a = exp.find((x) => x.l.id === c.id);
                if (c.n !== 1) ctx.fail(`listener called with ${c.n} arguments`);
                if (c.self === false) ctx.fail('handleEvent called on another object');
                if (c.cur !== e) ctx.fail('listener called for another element');
                if (mode === 'child' && c.phase !== (a.l.capture ? 1 : 3)) ctx.fail(`listener with capture=${a.l.capture} ran in phase ${c.phase}`);
              }
              // passive listeners must not be able to cancel
              const canCancel = exp.some((a) => !a.l.passive);
              if (calls.length > 0 && ev.defaultPrevented !== canCancel) ctx.fail(`defaultPrevented is ${ev.defaultPrevented} with listeners ${JSON.stringify(exp.map((a) => ({ passive: a.l.passive })))}`);
            }
          }
        }
      }
      if (ctx.i < 3) ctx.sample({ template: strings.join('${}'), steps: n });
      return { sig: ctx.trace.join('\n'), nontrivial: holes.length > 0 };
    } finally {
      container.remove();
    }
  },
};
function describe(c) {
  const one = (v) => (typeof v === 'function' ? `fn${JSON.stringify({ capture: v.capture, once: v.once, passive: v.passive, s: !!v.signal })}` : v !== null && typeof v === 'object' ? (v.handleEvent ? `obj${JSON.stringify({ capture: v.capture, once: v.once, passive: v.passive, s: !!v.signal })}` : JSON.stringify(v)) : typeof v === 'string' ? JSON.stringify(v) : String(v) === '' ? "''" : typeof v === 'symbol' ? v.toString() : `${v}`);
  return (c.form && c.form !== 'plain' ? c.form + ':' : '') + (c.list ? `[${c.v.map(one)}]` : one(c.v));
}
