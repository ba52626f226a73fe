import { Session } from '../lib/session.mjs';
import { show, TEMPLATES, BOUND_TEMPLATES, reconcile } from '../lib/app.mjs';
import { observe } from '../lib/observe.mjs';
import * as census from '../lib/census.mjs';

let writes = [];
// Raw bound values and list structure of a model tree.
function snapshot(s) {
  const holes = new Map(); // `${node}:${hole}` -> {kind, v, el}
  const lists = new Map(); // node id -> [child ids]
  const tops = new Map(); // child id -> ids of its top-level elements
  const binds = new Map(); // node id -> raw
  const walk = (node) => {
    const spec = node.spec;
    const out = [];
    switch (spec.k) {
      case 'e': case 'b': case 'v':
        binds.set(node.id, spec.v);
        break;
      case 'c':
        out.push(...walk(node.kids[0]));
        break;
      case 'P':
        walk(node.kids[0]);
        break;
      case 'f':
        lists.set(node.id, node.kids.map((k) => ({ id: k.id, key: k.key })));
        for (const k of node.kids) {
          const t = walk(k);
          tops.set(k.id, t);
          out.push(...t);
        }
        break;
      case 't': {
        const kidTops = node.kids.map((k, i) => (spec.def.holes[i].kind === 'child' ? walk(k) : null));
        const body = (b, top) => {
          if (typeof b === 'string') return;
          if (b.hole !== undefined) {
            if (b.kind === 'text') holes.set(`${node.id}:${b.hole}`, { kind: 'text', v: spec.h[b.hole].v });
            else if (top) out.push(...kidTops[b.hole]);
            return;
          }
          const el = `${node.id}:${b.el}`;
          if (top) out.push(el);
          for (const a of b.attrs) if (a.hole !== undefined) holes.set(`${node.id}:${a.hole}`, { kind: a.kind, name: a.name, v: spec.h[a.hole].v, el });
          for (const k of b.kids) body(k, false);
        };
        for (const b of spec.def.body) body(b, true);
      }
    }
    return out;
  };
  for (const r of s.roots) if (r.model) walk(r.model);
  return { holes, lists, tops, binds };
}
// A spec of equal value, built of new objects.
function copy(spec) {
  switch (spec.k) {
    case 't': return { ...spec, h: spec.h.map(copy) };
    case 'f': return { ...spec, items: spec.items.map(copy) };
    case 'c': return { ...spec, props: { ...spec.props, child: copy(spec.props.child) } };
    case 'P': return { ...spec, child: copy(spec.child) };
  }
  return { ...spec };
}

export default {
  id: 'C07',
  technique: 'runtime monitoring: MutationObserver, listener and property write records compared with the changed parts of a reference model',
  note: 'Random exploration in jsdom; single updates at a time; class and style holes compare by identity of the bound value.',
  rule:
    'A case applies 8-20 single updates (renders of mutated trees, list edits, state updates, renders of an equal value) and records every DOM mutation, listener registration and property write of each. ' +
    'An equal value must cause none; otherwise every record must belong to a hole whose value changed, to a node that is new or gone, or to an item of a list whose surviving items changed their relative order. Non-trivial: some update had mutations.',
  quick: { cases: 2500, secs: 240 },
  thorough: { cases: 80000, secs: 600 },
  require: { 'equal renders': 2000, 'attribute records': 1000, 'text records': 500, 'list updates without reordering': 500, 'list reorders': 200, 'moves of items': 200, 'elements removed inside of others': 1000 },
  minDistinct: 200,
  setup() {
    census.install();
    Object.defineProperty(window.HTMLElement.prototype, 'probeProp', {
      configurable: true,
      set(v) { writes.push({ el: this, v }); },
    });
  },
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    let seq = 0;
    const pool = Array.from({ length: 6 }, (_, i) => Object.assign(() => {}, { label: 'ev' + i, capture: i === 1, passive: i === 2 }));
    const makeEvent = (r) => (r.bool(0.2) ? null : r.pick(pool));
    const makeRef = (r) => (r.bool(0.3) ? null : Object.assign(() => {}, { label: 'cb' + seq++ }));
    const s = new Session(ctx, B, {
      roots: 1, foreign: rng.bool(0.3), identity: true, depth: rng.range(2, 4), budget: rng.range(5, 16), makeEvent, makeRef,
      templates: rng.bool(0.5) ? TEMPLATES : [...BOUND_TEMPLATES, ...TEMPLATES],
    });
    const obs = observe(s.world.stage);
    const r = s.roots[0];
    let any = 0;
    try {
      const n = rng.range(8, 18);
      for (let i = 0; i < n; i++) {
        const before = snapshot(s);
        const elsBefore = new Map(s.cmp.ids);
        const shape = (el) => [el.parentNode, ...el.getAttributeNames().map((x) => `${x}=${el.getAttribute(x)}`)];
        const shapes = new Map([...elsBefore.values()].filter((el) => el.nodeType === 1).map((el) => [el, shape(el)]));
        obs.take();
        writes = [];
        const added = census.stats.added;
        const removed = census.stats.removed;
        let kind = 'edit';
        const live = s.stateful();
        if (r.model && rng.bool(0.25)) {
          kind = 'equal';
          s.render(r, copy(r.spec));
        } else if (live.length > 0 && rng.bool(0.3)) s.dispatch(rng.pick(live), rng.range(1, 9));
        else if (r.model && rng.bool(0.05)) s.unmount(r);
        else s.render(r, s.newSpec(r));
        await s.drain('fifo');
        s.applyLog();
        const records = obs.take();
        s.check();
        const fail = (m) => ctx.fail(`${kind}: ${m}`, s.dump());
        if (kind === 'equal') {
          ctx.count('equal renders');
          if (records.length > 0) {
            const x = records[0];
            fail(`rendering an equal value caused ${records.length} mutations, first: ${x.type} ${x.attributeName ?? ''} on ${x.target.nodeName} ${[...x.addedNodes, ...x.removedNodes].map((y) => y.nodeName)}`);
          }
          if (writes.length > 0) fail('rendering an equal value wrote a property');
          if (census.stats.added !== added || census.stats.removed !== removed) fail('rendering an equal value registered or removed listeners');
          continue;
        }
        const after = snapshot(s);
        // changed holes
        const changedEl = new Map(); // Element -> Set of attribute names
        let texts = 0;
        let events = 0;
        let props = 0;
        const mark = (el, name) => {
          const node = s.cmp.ids.get(el);
          if (!changedEl.has(node)) changedEl.set(node, new Set());
          changedEl.get(node).add(name);
        };
        for (const [id, h] of after.holes) {
          const o = before.holes.get(id);
          const changed = o === undefined || !Object.is(o.v, h.v);
          if (!changed) continue;
          if (h.kind === 'text') { if (o) texts++; }
          else if (h.kind === 'event') events++;
          else if (h.kind === 'prop') props++;
          else if (o && h.el && h.name) mark(h.el, h.name.toLowerCase());
        }
        let removedEvents = 0;
        for (const [id, h] of before.holes) {
          if (h.kind === 'event' && h.v && (!after.holes.has(id) || !Object.is(after.holes.get(id).v, h.v))) removedEvents++;
        }
        let comments = 0;
        for (const [id, v] of after.binds) if (!before.binds.has(id) || !Object.is(before.binds.get(id), v)) comments++;
        // movable elements
        const movable = new Set();
        let keptOrder = 0;
        for (const [id, items] of after.lists) {
          const old = before.lists.get(id);
          if (!old) continue;
          const has = (l, x) => x.key !== undefined && l.some((y) => Object.is(x.key, y.key));
          const a = old.filter((x) => has(items, x));
          const b = items.filter((x) => has(old, x));
          if (a.every((x, k) => Object.is(x.key, b[k].key))) {
            if (a.length > 0 && (a.length < old.length || b.length < items.length)) ctx.count('list updates without reordering');
            keptOrder++;
          } else {
            ctx.count('list reorders');
            for (const x of b) for (const el of after.tops.get(x.id)) movable.add(s.cmp.ids.get(el));
          }
        }
        const kept = new Map(); // Element kept
        const afterEls = new Set();
        for (const h of allElements(s)) afterEls.add(h);
        for (const [id, el] of elsBefore) if (afterEls.has(id)) kept.set(el, id);
        let textRecords = 0;
        let commentRecords = 0;
        // What is removed is removed as a whole: nothing changes inside of it.
        const gone = new Set();
        for (const [id, el] of elsBefore) if (!afterEls.has(id) && el.nodeType === 1 && !kept.has(el)) gone.add(el);
        for (const el of gone) {
          const [parent, ...attrs] = shapes.get(el);
          const [parentNow, ...attrsNow] = shape(el);
          if (attrs.join() !== attrsNow.join()) fail(`the attributes of <${el.localName}>, which is removed by this update, change from ${attrs} to ${attrsNow}`);
          if (!gone.has(parent)) continue;
          ctx.count('elements removed inside of others');
          if (parentNow !== parent) fail(`<${el.localName}> is taken out of <${parent.localName}>, which is removed as well`);
        }
        for (const x of records) {
          any++;
          switch (x.type) {
            case 'attributes': {
              ctx.count('attribute records');
              if (!changedEl.get(x.target)?.has(x.attributeName)) {
                if (s.world.stage.contains(x.target) || kept.has(x.target)) fail(`attribute ${x.attributeName} of <${x.target.localName}> was written though its value is unchanged`);
              }
              break;
            }
            case 'characterData':
              if (x.target.nodeType === 3) textRecords++;
              else commentRecords++;
              break;
            case 'childList':
              for (const y of [...x.addedNodes, ...x.removedNodes]) {
                if (y.nodeType === 1 && kept.has(y)) {
                  if (!movable.has(y)) fail(`<${y.localName}> stays in place but was ${[...x.addedNodes].includes(y) ? 'inserted' : 'removed'}`);
                  ctx.count('moves of items');
                } else if (s.foreign.has(y)) fail('a foreign node was moved');
              }
          }
        }
        ctx.count('text records', textRecords);
        if (textRecords > texts) fail(`${textRecords} text nodes were written, but only ${texts} text holes changed`);
        if (commentRecords > comments) fail(`${commentRecords} comments were written, but only ${comments} child holes changed`);
        if (census.stats.added - added > events) fail(`${census.stats.added - added} listeners were registered, but only ${events} event holes changed`);
        if (census.stats.removed - removed > removedEvents) fail(`${census.stats.removed - removed} listeners were removed, but only ${removedEvents} event holes changed`);
        if (writes.length > props) fail(`${writes.length} properties were written, but only ${props} property holes changed`);
        ctx.count('property writes', writes.length);
        ctx.count('updates');
      }
      if (ctx.i < 2) ctx.sample(ctx.trace.slice(0, 6));
      return { sig: ctx.trace.join('\n'), nontrivial: any > 0 };
    } finally {
      obs.stop();
      await s.finish();
    }
  },
};
function allElements(s) {
  const out = [];
  const walk = (node) => {
    const spec = node.spec;
    if (spec.k === 't') {
      const body = (b) => {
        if (typeof b === 'string' || b.hole !== undefined) return;
        out.push(`${node.id}:${b.el}`);
        for (const k of b.kids) body(k);
      };
      for (const b of spec.def.body) body(b);
    }
    for (const k of node.kids) walk(k);
  };
  for (const r of s.roots) if (r.model) walk(r.model);
  return out;
}
