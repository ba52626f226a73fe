// Random applications and an independent model of what they denote.
//
//  spec   plain description of a value to render (immutable)
//  real   the library value made from a spec (realize)
//  model  a tree of instances kept by `reconcile`, following the documented
//         identity rules (type + key), from which the expected DOM is derived

// ---------------------------------------------------------------- templates
// Template DSL: ['tag', {attrs}, ...kids]; kids: string = static text,
// C = child hole, T = text hole; attribute value HOLE = attribute hole,
// attribute name '&ref' = element hole.
export const HOLE = Symbol('HOLE');
export const C = Symbol('C');
export const T = Symbol('T');
const VOID = new Set(['br', 'hr', 'input', 'img', 'wbr', 'source', 'col']);

export function compile(def) {
  const strings = [];
  const holes = [];
  let cur = '';
  const cut = (kind, name) => {
    strings.push(cur);
    cur = '';
    holes.push({ kind, name });
  };
  let els = 0;
  const walk = (node) => {
    if (node === C) {
      cur += '<';
      const i = holes.length;
      cut('child');
      cur += '>';
      return { hole: i, kind: 'child' };
    }
    if (node === T) {
      const i = holes.length;
      cut('text');
      return { hole: i, kind: 'text' };
    }
    if (typeof node === 'string') {
      cur += node;
      return node;
    }
    const [tag, attrs, ...kids] = node;
    const m = { tag, attrs: [], kids: [], el: els++ };
    cur += '<' + tag;
    for (const [name, value] of Object.entries(attrs ?? {})) {
      if (name === '&ref') {
        cur += ' ';
        m.attrs.push({ hole: holes.length, kind: 'ref' });
        cut('ref');
      } else if (value === HOLE) {
        cur += ` ${name}=`;
        const kind =
          name[0] === '@' ? 'event' : name[0] === '.' ? 'prop' : name[0] === '$' ? 'live'
            : name === 'class' ? 'class' : name === 'style' ? 'style' : 'attr';
        m.attrs.push({ hole: holes.length, kind, name: kind === 'attr' || kind === 'class' || kind === 'style' ? name : name.slice(1) });
        cut(kind, name);
      } else {
        cur += ` ${name}="${value}"`;
        m.attrs.push({ name, value });
      }
    }
    cur += '>';
    if (!VOID.has(tag)) {
      for (const k of kids) m.kids.push(walk(k));
      cur += `</${tag}>`;
    }
    return m;
  };
  const body = def.body.map(walk);
  strings.push(cur);
  Object.freeze(strings);
  return { ...def, mode: def.mode ?? 'html', strings, holes, body };
}

export const TEMPLATES = [
  { name: 'box', body: [['div', { class: 't-box' }, C]] },
  { name: 'para', body: [['p', {}, T]] },
  { name: 'duo', body: [C, ['hr', {}], C] },
  { name: 'item', body: [['li', { title: HOLE }, T, ['b', {}, 'x'], C]] },
  { name: 'multi', body: [['b', {}, T], 'mid', ['i', {}, T]] },
  { name: 'empty', body: [] },
  { name: 'only', body: [C] },
  { name: 'static', body: ['static ', ['em', {}, 'text']] },
  { name: 'pair', body: [['section', {}, C, C]] },
  { name: 'tail', body: [['u', { class: HOLE }, 'q'], C] },
  { name: 'texts', body: [T, ['s', {}], T] },
  { name: 'deep', body: [['div', { 'data-a': HOLE }, ['div', {}, 'a', ['span', {}, C], 'b', C], T]] },
  { name: 'svgc', mode: 'svg', body: [['g', { fill: HOLE }, ['circle', { r: '1' }]]] },
  { name: 'svgw', body: [['svg', { width: HOLE }, ['g', {}, C], C]] },
  { name: 'mathm', mode: 'math', body: [['mrow', {}, ['mi', {}, T], C]] },
  { name: 'table', body: [['table', {}, ['tbody', {}, ['tr', {}, ['td', {}, C], ['td', {}, T]]]]] },
  { name: 'tri', body: [C, C, C] },
  { name: 'lead', body: ['lead', C, 'trail'] },
].map((d, i) => ({ ...compile(d), idx: i }));

// Templates with event and element holes (for sessions that supply values).
export const BOUND_TEMPLATES = [
  { name: 'btn', body: [['button', { '@click': HOLE }, T]] },
  { name: 'refd', body: [['q', { '&ref': HOLE }, C]] },
  { name: 'both', body: [['div', { '@click': HOLE, '&ref': HOLE, '@x-ev': HOLE, title: HOLE }, ['input', { '&ref': HOLE, '@click': HOLE }], C, T]] },
  { name: 'multiref', body: [['b', { '&ref': HOLE }], C, ['i', { '&ref': HOLE }]] },
  { name: 'styled', body: [['kbd', { style: HOLE, '.probeProp': HOLE, class: HOLE, lang: HOLE }, T]] },
].map((d, i) => ({ ...compile(d), idx: 100 + i }));

// Output templates of the generic components.
export const COMP_TEMPLATES = {
  wrap: compile({ name: 'c-wrap', body: [['c-wrap', { 'data-i': HOLE, 'data-s': HOLE, 'data-x': HOLE }, C]] }),
  mark: compile({ name: 'c-mark', body: [['c-mark', { 'data-i': HOLE, 'data-s': HOLE, 'data-x': HOLE }]] }),
  odd: compile({ name: 'c-odd', body: [['c-odd', { 'data-i': HOLE, 'data-s': HOLE }, ['i', {}, C]]] }),
  row: compile({ name: 'c-row', body: [['c-row', {}, T]] }),
};

// ---------------------------------------------------------------- components
// out(props, state, iid) -> spec
const tspec = (def, h, key) => ({ k: 't', def, h, key });
const val = (v) => ({ k: 'v', v });
export const IID = (iid) => ({ k: 'v', v: iid, iid: true });
export const COMPONENTS = [
  {
    name: 'Wrap',
    out: (p, s, iid) => tspec(COMP_TEMPLATES.wrap, [IID(iid), val(s), val(p.x), p.child]),
  },
  {
    name: 'Side',
    out: (p, s, iid) => ({
      k: 'f',
      items: [tspec(COMP_TEMPLATES.mark, [IID(iid), val(s), val(p.x)], 'm'), { ...p.child, key: 'c', copyOf: p.child }],
    }),
  },
  { name: 'Pass', stateless: true, out: (p) => p.child },
  {
    name: 'Flip',
    out: (p, s, iid) =>
      s % 2
        ? tspec(COMP_TEMPLATES.odd, [IID(iid), val(s), p.child])
        : tspec(COMP_TEMPLATES.wrap, [IID(iid), val(s), val(p.x), p.child]),
  },
  {
    name: 'List',
    out: (p, s, iid) => {
      const items = [tspec(COMP_TEMPLATES.mark, [IID(iid), val(s), val(p.x)], 'm')];
      const n = ((s % 5) + 5) % 5;
      for (let i = 0; i < n; i++) {
        const j = s & 8 ? n - 1 - i : i;
        items.push(tspec(COMP_TEMPLATES.row, [val(`${p.x}/${j}`)], j));
      }
      items.push({ ...p.child, key: 'c', copyOf: p.child });
      return { k: 'f', items };
    },
  },
  {
    name: 'MemoWrap',
    memo: 'shallow',
    out: (p, s, iid) => tspec(COMP_TEMPLATES.wrap, [IID(iid), val(s), val(p.x), p.child]),
  },
  {
    name: 'Maybe',
    out: (p, s, iid) =>
      s % 3 === 1
        ? tspec(COMP_TEMPLATES.mark, [IID(iid), val(s), val(p.x)])
        : {
            k: 'f',
            items: [tspec(COMP_TEMPLATES.mark, [IID(iid), val(s), val(p.x)]), s % 3 === 2 ? { k: 'e', v: null } : { ...p.child, key: undefined, copyOf: p.child }],
          },
  },
];

// ---------------------------------------------------------------- generator
const PRIMS = ['a', 'b', '', 'hello world', 0, 1, -1, 3.5, '<b>&', 'ü', '  sp  ', NaN, null, undefined, false, true, 10n];
export const EMPTIES = [null, undefined, false, '', 0, 'ignored', true];
const STYLE_VALUES = ['color: red', 'color: blue; margin: 0px', { color: 'red' }, { color: 'green', fontSize: '1px' }, null, '', { '--a': '1' }];
const OBJ_KEYS = [{ o: 1 }, { o: 2 }, Symbol('k')];
export const KEY_POOL = [1, 2, 3, 4, 5, 6, 7, 8, 'a', 'b', 'c', '1', '2', NaN, null, true, false, 0, '', ...OBJ_KEYS, 11, 12, 13, 14];

export function genSpec(rng, st, depth) {
  if (depth < -1) return { k: 'e', v: rng.pick(EMPTIES) };
  const leaf = depth <= 0 || st.budget-- <= 0;
  const kind = rng.weighted([
    [1.2, 'e'],
    [leaf ? 3 : 4, 't'],
    [leaf ? 0 : 3, 'f'],
    [st.plain ? 0 : leaf ? 0.5 : 3, 'c'],
    [leaf || !st.portals || st.plain ? 0 : 0.8, 'P'],
  ]);
  const cache = rng.bool(0.3);
  switch (kind) {
    case 'e':
      return { k: 'e', v: rng.pick(EMPTIES) };
    case 't': {
      let def;
      do {
        def = rng.pick(st.templates ?? TEMPLATES);
      } while (leaf && def.holes.some((h) => h.kind === 'child') && rng.bool(0.7));
      return { k: 't', def, h: def.holes.map((h) => genHole(rng, st, h, depth)), key: undefined, cache };
    }
    case 'f':
      return genList(rng, st, depth, cache);
    case 'c':
      return {
        k: 'c',
        c: rng.pick(st.components ?? COMPONENTS),
        props: { x: rng.pick(['x', 'y', 1, 2]), child: genSpec(rng, st, depth - 1) },
        key: undefined,
        cache,
      };
    case 'P':
      return { k: 'P', n: rng.int(st.portals), child: genSpec(rng, st, depth - 1), key: undefined, cache };
  }
}
function genHole(rng, st, h, depth) {
  switch (h.kind) {
    case 'child':
      return genSpec(rng, st, depth - 1);
    case 'class':
      return { k: 'v', v: rng.pick(['m', 'n', 'm n', '', null, 'o']) };
    case 'style':
      return { k: 'v', v: rng.pick(STYLE_VALUES) };
    case 'event':
      return { k: 'v', v: st.makeEvent ? st.makeEvent(rng) : null };
    case 'ref':
      return { k: 'v', v: st.makeRef ? st.makeRef(rng) : null };
    default:
      return { k: 'v', v: rng.pick(PRIMS) };
  }
}
// Lists in which keys repeat (or only some items have one) hold plain items
// only: which of them keeps the state of which is not specified.
export const dupKeys = (rng) => rng.shuffle([undefined, ...KEY_POOL]).slice(0, rng.range(1, 4));
function genList(rng, st, depth, cache) {
  if (st.dups && rng.bool(0.2)) {
    const plain = { ...st, plain: true };
    const pool = dupKeys(rng);
    const homogeneous = rng.bool(0.7) ? rng.pick(st.templates ?? TEMPLATES) : null;
    const items = Array.from({ length: rng.range(0, 9) }, () => withKey(genItem(rng, plain, depth, homogeneous), rng.pick(pool)));
    return { k: 'f', items, key: undefined, keyed: true, dup: pool, how: rng.int(4), cache };
  }
  const keyed = rng.bool(0.75);
  const n = rng.weighted([[1, 0], [1, 1], [2, 2], [3, rng.range(3, 5)], [1.5, rng.range(5, 9)]]);
  const keys = keyed ? rng.shuffle(KEY_POOL).slice(0, n) : [];
  const homogeneous = rng.bool(0.5) ? rng.pick(st.templates ?? TEMPLATES) : null;
  const items = [];
  for (let i = 0; i < n; i++) {
    items.push(withKey(genItem(rng, st, depth, homogeneous), keyed ? keys[i] : undefined));
  }
  return { k: 'f', items, key: undefined, keyed, how: rng.int(4), cache };
}
function genItem(rng, st, depth, homogeneous) {
  let s = homogeneous
    ? { k: 't', def: homogeneous, h: homogeneous.holes.map((h) => genHole(rng, st, h, depth - 1)), key: undefined }
    : genSpec(rng, st, depth - 1);
  // List items need a VNode to carry a key.
  if (s.k === 'e') s = { k: 'b', v: s.v, key: undefined };
  return s;
}
export function withKey(spec, key) {
  if (spec.k === 'e') return key === undefined ? spec : { k: 'b', v: spec.v, key };
  return { ...spec, key, copyOf: undefined };
}

// Outside of lists keys matter as well: another key calls for fresh nodes.
function mutateChild(rng, st, spec, depth) {
  if (rng.bool(0.07)) spec = withKey(spec, rng.pick([undefined, ...KEY_POOL]));
  else return mutate(rng, st, spec, depth);
  return rng.bool(0.5) ? spec : mutate(rng, st, spec, depth);
}
// A random edit of a spec, sharing the untouched parts.
export function mutate(rng, st, spec, depth) {
  if (rng.bool(0.06)) return withKey(genSpec(rng, st, depth), spec.key);
  switch (spec.k) {
    case 'e':
    case 'b':
      return rng.bool(0.3) ? spec : withKey(genSpec(rng, st, depth), spec.key);
    case 'v':
      return { k: 'v', v: rng.pick(PRIMS) };
    case 't': {
      if (spec.h.length === 0) return rng.bool(0.5) ? spec : withKey(genSpec(rng, st, depth), spec.key);
      const h = spec.h.slice();
      const n = rng.range(1, Math.min(2, h.length));
      for (let j = 0; j < n; j++) {
        const i = rng.int(h.length);
        h[i] = spec.def.holes[i].kind === 'child' ? mutateChild(rng, st, h[i], depth - 1) : genHole(rng, st, spec.def.holes[i], depth);
      }
      return { ...spec, h, cache: rng.bool(0.3) };
    }
    case 'c': {
      const props = { ...spec.props };
      if (rng.bool(0.4)) props.x = rng.pick(['x', 'y', 1, 2]);
      if (rng.bool(0.7)) props.child = mutateChild(rng, st, props.child, depth - 1);
      return { ...spec, props, cache: rng.bool(0.3) };
    }
    case 'P':
      return rng.bool(0.15)
        ? { ...spec, n: rng.int(st.portals), cache: false }
        : { ...spec, child: mutateChild(rng, st, spec.child, depth - 1), cache: rng.bool(0.3) };
    case 'f':
      return mutateList(rng, st, spec, depth);
  }
}
export function mutateList(rng, st, spec, depth) {
  let items = spec.items.slice();
  if (spec.dup) st = { ...st, plain: true };
  const fresh = () => {
    const used = items.map((x) => x.key);
    let key;
    if (spec.dup) key = rng.pick(spec.dup);
    else if (spec.keyed) {
      const free = KEY_POOL.filter((k) => !used.some((u) => Object.is(u, k)));
      if (free.length === 0) return null;
      key = rng.pick(free);
    }
    return withKey(genItem(rng, st, depth, items.length > 0 && rng.bool(0.6) && items[0].k === 't' ? items[0].def : null), key);
  };
  const n = rng.range(1, 3);
  for (let j = 0; j < n; j++) {
    const op = rng.weighted([
      [2, 'shuffle'], [1, 'reverse'], [1.5, 'swap'], [1.5, 'move'], [1, 'rotate'],
      [2, 'insert'], [2, 'remove'], [1.5, 'edit'], [0.7, 'append'], [0.7, 'prepend'],
      [0.3, 'clear'], [0.8, 'removeMany'], [0.8, 'replaceKey'], [0.3, 'swapEnds'], [0.25, 'rekey'],
    ]);
    const L = items.length;
    switch (op) {
      case 'shuffle': items = rng.shuffle(items); break;
      case 'reverse': items.reverse(); break;
      case 'swap': if (L > 1) { const a = rng.int(L), b = rng.int(L); [items[a], items[b]] = [items[b], items[a]]; } break;
      case 'swapEnds': if (L > 1) [items[0], items[L - 1]] = [items[L - 1], items[0]]; break;
      case 'move': if (L > 1) { const [x] = items.splice(rng.int(L), 1); items.splice(rng.int(L), 0, x); } break;
      case 'rotate': if (L > 1) { const k = rng.int(L); items = [...items.slice(k), ...items.slice(0, k)]; } break;
      case 'insert': { const x = fresh(); if (x && L < 12) items.splice(rng.int(L + 1), 0, x); break; }
      case 'append': { const x = fresh(); if (x && L < 12) items.push(x); break; }
      case 'prepend': { const x = fresh(); if (x && L < 12) items.unshift(x); break; }
      case 'remove': if (L > 0) items.splice(rng.int(L), 1); break;
      case 'removeMany': items = items.filter(() => rng.bool(0.5)); break;
      case 'clear': items = []; break;
      case 'edit': if (L > 0) { const i = rng.int(L); const e = mutate(rng, st, items[i], depth - 1); items[i] = withKey(e.k === 'e' ? { k: 'b', v: e.v } : e, items[i].key); } break;
      case 'replaceKey': if (L > 0) { const i = rng.int(L); const x = fresh(); if (x) items[i] = x; } break;
      case 'rekey': {
        if (spec.dup) {
          const pool = dupKeys(rng);
          items = items.map((x) => (rng.bool(0.5) ? withKey(x, rng.pick(pool)) : x));
          spec = { ...spec, dup: [...spec.dup, ...pool].slice(-5) };
          break;
        }
        const keyed = !spec.keyed;
        const keys = rng.shuffle(KEY_POOL);
        items = items.slice(0, keys.length).map((x, i) => withKey(x, keyed ? keys[i] : undefined));
        spec = { ...spec, keyed };
        break;
      }
    }
  }
  return { ...spec, items, cache: rng.bool(0.3), how: rng.int(4) };
}

// Each portal container may be used once per tree: drop further uses.
export function dedupePortals(spec, used = new Set()) {
  switch (spec.k) {
    case 't': {
      let changed = false;
      const h = spec.h.map((x) => {
        const y = x.k === 'v' ? x : dedupePortals(x, used);
        if (y !== x) changed = true;
        return y;
      });
      return changed ? { ...spec, h } : spec;
    }
    case 'f': {
      let changed = false;
      const items = spec.items.map((x) => {
        const y = dedupePortals(x, used);
        if (y !== x) changed = true;
        return y;
      });
      return changed ? { ...spec, items } : spec;
    }
    case 'c': {
      const child = dedupePortals(spec.props.child, used);
      return child !== spec.props.child ? { ...spec, props: { ...spec.props, child } } : spec;
    }
    case 'P': {
      if (used.has(spec.n)) return { k: 'b', v: null, key: spec.key };
      used.add(spec.n);
      const child = dedupePortals(spec.child, used);
      return child !== spec.child ? { ...spec, child } : spec;
    }
  }
  return spec;
}

export function specSize(spec) {
  switch (spec.k) {
    case 't': return 1 + spec.h.reduce((n, x) => n + specSize(x), 0);
    case 'f': return 1 + spec.items.reduce((n, x) => n + specSize(x), 0);
    case 'c': return 1 + specSize(spec.props.child);
    case 'P': return 1 + specSize(spec.child);
    default: return 0;
  }
}
export function show(spec) {
  const key = spec.key === undefined ? '' : '#' + (typeof spec.key === 'object' && spec.key ? JSON.stringify(spec.key) : String(spec.key));
  switch (spec.k) {
    case 'e': case 'b': return `∅${key}`;
    case 'v': return spec.iid ? 'iid' : spec.v?.label ? spec.v.label : typeof spec.v === 'object' && spec.v && 'current' in spec.v ? 'ref' : typeof spec.v === 'bigint' ? spec.v + 'n' : String(JSON.stringify(spec.v) ?? spec.v);
    case 't': return `${spec.def.name}${key}(${spec.h.map(show).join(',')})`;
    case 'f': return `[${spec.items.map(show).join(' ')}]${key}`;
    case 'c': return `<${spec.c.name}${key} x=${spec.props.x}>${show(spec.props.child)}</>`;
    case 'P': return `portal${spec.n}${key}(${show(spec.child)})`;
  }
}

// ---------------------------------------------------------------- real side
export class World {
  constructor(ctx, B, opts = {}) {
    this.ctx = ctx;
    this.B = B;
    this.host = opts.host;
    this.runtime = opts.runtime;
    this.instances = new Map(); // iid -> {set, force, comp}
    this.nextIid = 1;
    this.opts = opts;
    this.vcache = new WeakMap();
    this.ccache = new Map();
    this.portals = [];
    this.renders = 0;
    const count = opts.portals ?? 0;
    this.stage = document.createElement('div');
    document.body.append(this.stage);
    for (let i = 0; i < count; i++) {
      const el = document.createElement('aside');
      this.stage.append(el);
      this.portals.push(el);
    }
  }
  dispose() {
    this.stage.remove();
  }
  component(def) {
    let c = this.ccache.get(def);
    if (c === undefined) {
      const world = this;
      const B = this.B;
      const fn = function (props) {
        const iid = this.useMemo(() => world.nextIid++, []);
        const [state, setState] = this.useState(0);
        world.instances.set(iid, { set: setState, force: (o) => this.forceUpdate(o), def, context: this });
        world.renders++;
        world.onRender?.(iid, def, props, state);
        if (world.useHooks) world.useHooks(this, iid, def, props, state);
        world.inRender?.();
        const out = def.out(props, state, iid);
        return world.realize(out);
      };
      Object.defineProperty(fn, 'name', { value: def.name });
      c = B.createComponent(fn, def.memo === 'shallow' ? { arePropsEqual: B.shallowEqual } : undefined);
      this.ccache.set(def, c);
    }
    return c;
  }
  realize(spec) {
    const B = this.B;
    if (spec.copyOf) {
      // A component passed its child on under another key.
      const v = this.realize(spec.copyOf);
      return this.toVNode(v).withKey(spec.key);
    }
    if (spec.cache) {
      const hit = this.vcache.get(spec);
      if (hit !== undefined) return hit;
    }
    let v;
    switch (spec.k) {
      case 'e':
      case 'v':
        return spec.v;
      case 'b':
        v = B.createBind(spec.v);
        break;
      case 't':
        v = B[spec.def.mode](spec.def.strings, ...spec.h.map((x) => this.realize(x)));
        break;
      case 'f': {
        const items = spec.items.map((x) => this.realize(x));
        v = spec.key !== undefined || spec.how === 1 ? B.createFragment(items)
          : spec.how === 2 ? new Set(items.map((x) => this.toVNode(x))) : items;
        break;
      }
      case 'c':
        v = this.component(spec.c)(spec.props);
        break;
      case 'P':
        v = B.createPortal(this.realize(spec.child), this.portals[spec.n]);
        break;
    }
    if (spec.key !== undefined) v = v.withKey(spec.key);
    if (spec.cache) this.vcache.set(spec, v);
    return v;
  }
  toVNode(v) {
    const B = this.B;
    if (v !== null && typeof v === 'object') {
      if (typeof v.withKey === 'function') return v;
      if (typeof v[Symbol.iterator] === 'function') return B.createFragment(v);
    }
    return B.createBind(v);
  }
}

// ---------------------------------------------------------------- model side
let modelIds = 1;
export function newModelState() {
  return { states: new Map(), fresh: 0, kept: 0, live: new Set() };
}
function typeOf(spec) {
  switch (spec.k) {
    case 'e': case 'b': case 'v': return 'bind';
    case 't': return spec.def;
    case 'f': return 'fragment';
    case 'c': return spec.c;
    case 'P': return 'portal' + spec.n;
  }
}
// old: model node or null -> model node for spec
export function reconcile(ms, old, spec) {
  const type = typeOf(spec);
  const same = old !== null && old !== undefined && old.type === type && Object.is(old.key, spec.key);
  if (old && !same) drop(ms, old);
  const node = same ? old : { id: modelIds++, type, key: spec.key, kids: [], spec };
  if (same) ms.kept++;
  else ms.fresh++;
  const dups = spec.dup !== undefined || node.spec.dup !== undefined;
  node.spec = spec;
  switch (spec.k) {
    case 't': {
      const kids = [];
      for (let i = 0; i < spec.h.length; i++) kids[i] = reconcile(ms, node.kids[i], spec.h[i]);
      node.kids = kids;
      break;
    }
    case 'P':
      node.kids = [reconcile(ms, node.kids[0], spec.child)];
      break;
    case 'c': {
      if (!ms.states.has(node.id)) ms.states.set(node.id, 0);
      ms.live.add(node);
      node.kids = [reconcile(ms, node.kids[0], spec.c.out(spec.props, ms.states.get(node.id), node.id))];
      break;
    }
    case 'f': {
      const old = node.kids;
      const taken = new Set();
      const find = (key, i) => {
        if (key === undefined) {
          const o = old[i];
          return o !== undefined && o.key === undefined ? o : undefined;
        }
        return old.find((o) => o.key !== undefined && Object.is(o.key, key));
      };
      const pairs = spec.items.map((s, i) => {
        const o = dups ? undefined : find(s.key, i);
        if (o) taken.add(o);
        return o;
      });
      for (const o of old) if (!taken.has(o)) drop(ms, o);
      node.kids = spec.items.map((s, i) => reconcile(ms, pairs[i], s));
      break;
    }
  }
  return node;
}
export function drop(ms, node) {
  if (node.spec.k === 'c') {
    ms.live.delete(node);
    ms.onDrop?.(node);
  }
  for (const k of node.kids) drop(ms, k);
}
// Re-run a component after its state changed.
export function rerender(ms, node) {
  node.kids = [reconcile(ms, node.kids[0], node.spec.c.out(node.spec.props, ms.states.get(node.id), node.id))];
}

// Expected DOM of a model node: list of {id, tag, attrs, kids} and strings.
export function domOf(node, portals) {
  const out = [];
  emit(node, out, portals);
  return out;
}
function emit(node, out, portals) {
  const spec = node.spec;
  switch (spec.k) {
    case 'e': case 'b': case 'v':
      return; // comment data only
    case 'f': case 'c':
      for (const k of node.kids) emit(k, out, portals);
      return;
    case 'P': {
      const inner = [];
      emit(node.kids[0], inner, portals);
      portals.set(spec.n, [...(portals.get(spec.n) ?? []), ...inner]);
      return;
    }
    case 't':
      for (const b of spec.def.body) emitBody(node, b, out, portals);
  }
}
function emitBody(node, b, out, portals) {
  if (typeof b === 'string') {
    pushText(out, b);
  } else if (b.hole !== undefined) {
    const kid = node.kids[b.hole];
    if (b.kind === 'text') pushText(out, textOf(kid.spec.v));
    else emit(kid, out, portals);
  } else {
    const el = { id: `${node.id}:${b.el}`, tag: b.tag, attrs: {}, kids: [] };
    for (const a of b.attrs) {
      if (a.hole === undefined) {
        el.attrs[a.name] = a.value;
      } else {
        const s = node.kids[a.hole].spec;
        if (s.iid) el.inst = node2inst(s.v);
        else if (a.kind === 'class') {
          const c = [el.attrs.class ?? '', s.v ?? ''].join(' ').trim();
          if (c) el.attrs.class = c;
        } else if (a.kind === 'attr') {
          const v = attrOf(s.v);
          if (v !== null) el.attrs[a.name] = v;
        }
      }
    }
    for (const k of b.kids) emitBody(node, k, el.kids, portals);
    out.push(el);
  }
}
const node2inst = (v) => v;
export function textOf(v) {
  return v === null || v === undefined ? '' : String(v);
}
export function attrOf(v) {
  return v === null || v === undefined || v === false ? null : v === true ? '' : String(v);
}
function pushText(out, s) {
  if (s === '') return;
  if (typeof out[out.length - 1] === 'string') out[out.length - 1] += s;
  else out.push(s);
}

// ---------------------------------------------------------------- comparison
// Visible children of a container, foreign nodes skipped.
export function visible(parent, foreign) {
  const out = [];
  for (let n = parent.firstChild; n !== null; n = n.nextSibling) {
    if (foreign?.has(n)) continue;
    if (n.nodeType === 3) {
      if (n.data !== '') {
        if (typeof out[out.length - 1] === 'string') out[out.length - 1] += n.data;
        else out.push(n.data);
      }
    } else if (n.nodeType === 1) out.push(n);
  }
  return out;
}
// Returns null or a message. ids: Map model element id -> Element; iids: Map model instance id -> real iid
export class Comparer {
  constructor() {
    this.ids = new Map();
    this.els = new WeakMap();
    this.iids = new Map(); // model id -> real iid
    this.riids = new Map(); // real iid -> model id
    this.identity = true;
    this.checkedEls = 0;
    this.keptEls = 0;
  }
  children(expected, parent, foreign, path) {
    const actual = visible(parent, foreign);
    const n = Math.max(expected.length, actual.length);
    for (let i = 0; i < n; i++) {
      const e = expected[i];
      const a = actual[i];
      const p = `${path}/${i}`;
      if (e === undefined) return `${p}: unexpected ${typeof a === 'string' ? JSON.stringify(a) : a.outerHTML}`;
      if (a === undefined) return `${p}: missing ${typeof e === 'string' ? JSON.stringify(e) : '<' + e.tag + '>'}`;
      if (typeof e === 'string' || typeof a === 'string') {
        if (e !== a) return `${p}: expected ${typeof e === 'string' ? 'text ' + JSON.stringify(e) : '<' + e.tag + '>'}, found ${typeof a === 'string' ? 'text ' + JSON.stringify(a) : a.outerHTML}`;
        continue;
      }
      const m = this.element(e, a, p);
      if (m) return m;
    }
    return null;
  }
  element(e, a, p) {
    this.checkedEls++;
    if (a.localName !== e.tag) return `${p}: expected <${e.tag}>, found ${a.outerHTML}`;
    const here = `${p}<${e.tag}>`;
    for (const name of a.getAttributeNames()) {
      if (name === 'data-i' && e.inst !== undefined) continue;
      if (name === 'class' || name === 'style') continue;
      if (e.attrs[name] === undefined) return `${here}: unexpected attribute ${name}=${JSON.stringify(a.getAttribute(name))}`;
    }
    for (const [name, v] of Object.entries(e.attrs)) {
      if (name === 'class') continue;
      if (a.getAttribute(name) !== v) return `${here}: attribute ${name} expected ${JSON.stringify(v)}, found ${JSON.stringify(a.getAttribute(name))}`;
    }
    const ec = [...new Set((e.attrs.class ?? '').split(/\s+/).filter(Boolean))].sort().join(' ');
    const ac = [...a.classList].sort().join(' ');
    if (ec !== ac) return `${here}: class expected ${JSON.stringify(ec)}, found ${JSON.stringify(ac)}`;
    if (this.identity) {
      const known = this.ids.get(e.id);
      if (known !== undefined) {
        if (known !== a) return `${here}: element was replaced although type and key are unchanged`;
        this.keptEls++;
      } else {
        if (this.els.has(a)) return `${here}: element of another item (${this.els.get(a)}) was reused for ${e.id}`;
        this.ids.set(e.id, a);
        this.els.set(a, e.id);
      }
      if (e.inst !== undefined) {
        const real = Number(a.getAttribute('data-i'));
        const k = this.iids.get(e.inst);
        if (k === undefined) {
          if (this.riids.has(real)) return `${here}: component state of another instance was reused`;
          this.iids.set(e.inst, real);
          this.riids.set(real, e.inst);
        } else if (k !== real) return `${here}: component instance was replaced although type and key are unchanged`;
      }
    } else if (e.inst !== undefined) {
      const real = Number(a.getAttribute('data-i'));
      this.iids.set(e.inst, real);
      this.riids.set(real, e.inst);
    }
    return this.children(e.kids, a, null, here);
  }
}
