import { Session } from '../lib/session.mjs';
import { show, TEMPLATES, BOUND_TEMPLATES } from '../lib/app.mjs';
import { makeHost, drain } from '../lib/sched.mjs';
import { observe } from '../lib/observe.mjs';
import * as census from '../lib/census.mjs';

const POLICIES = ['fifo', 'random', 'priority', 'lifo'];
const nodeCount = (n) => {
  let c = { el: 0, text: 0, comment: 0 };
  const walk = (x) => {
    for (let k = x.firstChild; k; k = k.nextSibling) {
      if (k.nodeType === 1) c.el++;
      else if (k.nodeType === 3) c.text++;
      else c.comment++;
      walk(k);
    }
  };
  walk(n);
  return c;
};

export default {
  id: 'C06',
  technique: 'runtime monitoring: census of nodes, listeners and refs after random unmounts against a reference model',
  note: 'Random trees with listeners, refs and nested portals; foreign nodes are placed before and after the rendered ones, not between the nodes of one template.',
  rule:
    'A case is a random history over 1-2 roots whose templates hold listeners, element refs and portals in containers shared with foreign nodes. After every quiescent point: foreign nodes are in place, the number of ' +
    'elements, texts and comments equals that of a fresh render of the same tree, exactly the live event holes have listeners, and refs of dead elements are null. Stale setters and events of removed parts are then used: ' +
    'no mutation may follow. At the end all roots are unmounted: only foreign nodes, no listener, no ref remain, and the roots are rendered again. Non-trivial: something was unmounted.',
  quick: { cases: 2500, secs: 240 },
  thorough: { cases: 80000, secs: 600 },
  require: { 'unmounts checked': 1000, 'stale updates': 300, 'stale events': 200, 'refs cleared': 200, 'listeners removed': 500 },
  minDistinct: 200,
  setup() {
    census.install();
  },
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    census.reset();
    const removedBefore = census.stats.removed;
    const refs = [];
    const cbs = new Map();
    let calls = 0;
    let seq = 0;
    const makeEvent = (r) => {
      const n = seq++;
      const k = r.int(6);
      if (k === 0) return null;
      const f = k === 1 ? { handleEvent() { calls++; } } : () => { calls++; };
      if (k === 2) f.capture = true;
      if (k === 3) f.passive = true;
      f.label = 'ev' + n;
      return f;
    };
    const makeRef = (r) => {
      const n = seq++;
      const k = r.int(4);
      if (k === 0) return null;
      if (k === 1) {
        const rec = { on: 0 };
        const f = (el) => {
          rec.on++;
          rec.el = el;
          return () => { rec.on--; };
        };
        f.label = 'cb' + n;
        cbs.set(f, rec);
        return f;
      }
      const ref = new B.Ref(null);
      refs.push(ref);
      return ref;
    };
    const s = new Session(ctx, B, {
      roots: rng.range(1, 2), foreign: true, depth: rng.range(2, 4), budget: rng.range(5, 14), unmounts: 1.5,
      templates: [...BOUND_TEMPLATES, ...BOUND_TEMPLATES, ...TEMPLATES], makeEvent, makeRef,
    });
    const observer = observe(document.body);
    const dead = []; // {set, force, iid}
    const deadEls = new Set();
    s.ms.onDrop = (node) => {
      const iid = s.cmp.iids.get(node.id);
      const inst = iid !== undefined && s.world.instances.get(iid);
      if (inst) dead.push(inst);
    };
    const containers = [...s.roots.map((r) => r.container), ...s.world.portals];
    try {
      const policy = rng.pick(POLICIES);
      const n = rng.range(4, 9);
      let unmounted = 0;
      const check = (final) => {
        s.check();
        // foreign nodes may also come later, at either end
        for (const c of containers) {
          if (rng.bool(0.1)) {
            const x = document.createElement('foreign-el');
            s.foreign.add(x);
            const list = s.foreignOf.get(c) ?? [];
            if (rng.bool()) {
              c.append(x);
              list.push(x);
            } else {
              c.prepend(x);
              list.unshift(x);
            }
            s.foreignOf.set(c, list);
          }
        }
        // listeners: exactly those of live event holes
        let want = 0;
        const liveRefs = new Set();
        const liveCbs = new Map();
        const walk = (node) => {
          const spec = node.spec;
          if (spec.k === 't') {
            spec.def.holes.forEach((h, i) => {
              const v = spec.h[i].v;
              if (h.kind === 'event' && v) want++;
              if (h.kind === 'ref' && v) {
                if (cbs.has(v)) liveCbs.set(v, (liveCbs.get(v) ?? 0) + 1);
                else liveRefs.add(v);
              }
            });
          }
          for (const k of node.kids) walk(k);
        };
        for (const r of s.roots) if (r.model) walk(r.model);
        let have = 0;
        for (const [el, set] of census.attached) {
          if (!document.contains(el)) ctx.fail(`a removed element <${el.localName}> keeps ${set.size} listener(s): ${[...set]}`, s.dump());
          have += set.size;
        }
        if (have !== want) ctx.fail(`${have} listeners are attached, ${want} event holes are live`, s.dump());
        for (const ref of refs) {
          if (liveRefs.has(ref)) {
            if (!ref.current || !document.contains(ref.current)) ctx.fail('the ref of a live element is not set', s.dump());
          } else if (ref.current !== null && ref.current !== undefined) ctx.fail(`the ref of a removed element still holds <${ref.current.localName}>`, s.dump());
          else ctx.count('refs cleared');
        }
        for (const [f, rec] of cbs) {
          if (rec.on !== (liveCbs.get(f) ?? 0)) ctx.fail(`ref callback is on for ${rec.on} element(s) but bound to ${liveCbs.get(f) ?? 0}`, s.dump());
        }
      };
      const stale = async () => {
        observer.take();
        const before = s.world.renders;
        let used = 0;
        for (const inst of dead.splice(0)) {
          const h = rng.bool(0.7) ? inst.set((x) => x + 1, s.randomOptions()) : inst.force(s.randomOptions());
          h.finished.catch((e) => ctx.fail('stale update rejected: ' + e.message));
          used++;
          ctx.count('stale updates');
        }
        calls = 0;
        for (const el of deadEls) {
          if (document.contains(el)) continue;
          el.dispatchEvent(new window.Event('click'));
          el.dispatchEvent(new window.Event('x-ev'));
          ctx.count('stale events');
        }
        deadEls.clear();
        if (calls > 0) ctx.fail('an event on a removed element reached a listener');
        await drain(s.host, rng, policy);
        s.log = [];
        const recs = observer.take();
        if (recs.length > 0) ctx.fail(`an update of a removed component changed the document (${recs[0].type} on ${recs[0].target.nodeName})`, s.dump());
        if (used > 0 && s.world.renders !== before) ctx.fail('an update of a removed component ran it');
      };
      const remember = () => {
        for (const c of containers) for (const el of c.querySelectorAll('*')) if (!s.foreign.has(el)) deadEls.add(el);
      };
      for (let i = 0; i < n; i++) {
        remember();
        const k = rng.bool(0.6) ? 1 : rng.range(2, 4);
        for (let j = 0; j < k; j++) {
          const op = s.randomOp();
          if (op.kind === 'unmount') unmounted++;
          while (rng.bool(0.3)) await s.step(policy);
        }
        await s.drain(policy);
        s.applyLog();
        check();
        if (rng.bool(0.5)) await stale();
        ctx.count('checked');
      }
      // same node counts as a fresh render (no leaked or missing anchors)
      {
        const twinHost = makeHost(B);
        const twinRuntime = new B.Runtime(twinHost);
        const portals = s.world.portals;
        const save = s.world.portals;
        s.world.portals = portals.map(() => document.createElement('aside'));
        const twins = [];
        const statefulNow = [...s.ms.states].some(([id, v]) => v !== 0);
        if (!statefulNow) {
          for (const r of s.roots) {
            if (!r.model) continue;
            const c = document.createElement('main');
            const root = new B.DOMRoot(c, twinRuntime);
            const vcache = s.world.vcache;
            s.world.vcache = new WeakMap();
            root.render(s.world.realize(stripRefs(r.model.spec)));
            s.world.vcache = vcache;
            twins.push([r, c]);
          }
          await drain(twinHost, rng);
          const foreignCount = (c) => (s.foreignOf.get(c) ?? []).reduce((m, x) => ({ el: m.el + (x.nodeType === 1), text: m.text + (x.nodeType === 3) }), { el: 0, text: 0 });
          const cmp = (real, twin, name) => {
            const a = nodeCount(real);
            const f = foreignCount(real);
            a.el -= f.el;
            a.text -= f.text;
            const b = nodeCount(twin);
            if (a.el !== b.el || a.text !== b.text || a.comment !== b.comment) ctx.fail(`${name} holds ${JSON.stringify(a)} nodes, a fresh render of the same tree ${JSON.stringify(b)}`, s.dump() + '\n' + twin.outerHTML);
            ctx.count('node counts compared');
          };
          for (const [r, c] of twins) cmp(r.container, c, `root${r.i}`);
          s.world.portals.forEach((p, i) => cmp(save[i], p, `portal${i}`));
        }
        s.world.portals = save;
      }
      s.log = [];
      remember();
      for (const r of s.roots) s.unmount(r, s.randomOptions());
      unmounted++;
      await s.drain(policy);
      s.applyLog();
      check(true);
      for (const c of containers) {
        const rest = [...c.childNodes].filter((x) => !s.foreign.has(x));
        if (rest.length > 0) ctx.fail(`after unmounting, ${rest.map((x) => (x.nodeType === 1 ? x.outerHTML : `${x.nodeName} ${JSON.stringify(x.data)}`))} remain(s)`, c.outerHTML);
        ctx.count('unmounts checked');
      }
      await stale();
      for (const r of s.roots) s.render(r, s.newSpec(r));
      await s.drain(policy);
      s.applyLog();
      check();
      ctx.count('listeners removed', census.stats.removed - removedBefore);
      if (ctx.i < 2) ctx.sample(ctx.trace.slice(0, 8));
      return { sig: ctx.trace.join('\n'), nontrivial: unmounted > 0 };
    } finally {
      observer.stop();
      await s.finish();
    }
  },
};
function stripRefs(spec) {
  switch (spec.k) {
    case 't': return { ...spec, cache: false, h: spec.h.map((x, i) => (spec.def.holes[i].kind === 'ref' || spec.def.holes[i].kind === 'event' ? { k: 'v', v: null } : stripRefs(x))) };
    case 'f': return { ...spec, cache: false, items: spec.items.map(stripRefs) };
    case 'c': return { ...spec, cache: false, props: { ...spec.props, child: stripRefs(spec.props.child) } };
    case 'P': return { ...spec, cache: false, child: stripRefs(spec.child) };
  }
  return spec;
}
