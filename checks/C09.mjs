import { Session } from '../lib/session.mjs';
import { observe } from '../lib/observe.mjs';

const POLICIES = ['fifo', 'random', 'priority', 'lowfirst', 'lifo'];
const OBJ = [{}, {}, {}];
const depsChanged = (a, b) => a == null || b == null || a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]));
// Dependency lists by kind, as a function of props, state and a salt.
const DEPS = [
  () => [],
  () => undefined,
  () => null,
  (p) => [p.x],
  (p, s) => [s],
  (p, s) => [p.x, s],
  (p, s) => [NaN, s % 2],
  (p, s) => [s % 3 === 0 ? 0 : -0],
  (p, s) => (s % 2 ? [p.x] : [p.x, undefined]),
  (p, s) => [p.child],
  (p, s) => [OBJ[s % 3], 'k'],
  (p, s) => (s % 4 === 1 ? undefined : [1]),
  (p, s) => [undefined, null, s % 2 ? null : undefined],
];

export default {
  id: 'C09',
  technique: 'runtime monitoring: log of renders, commits, DOM mutations, effect setups and cleanups checked online against the effect rules',
  note: 'Random exploration in jsdom; effects do not throw; an effect whose dependencies change and change back in a superseded render of the same batch may run or not.',
  rule:
    'A case is a random history over 1-2 roots whose components use 1-4 effects with dependency lists of thirteen kinds (none, null, empty, NaN, signed zeros, varying length, objects). Each setup and cleanup is checked when it happens (dependencies really changed, setup of the latest render, ' +
    'previous cleanup done, no DOM change of the same commit after it, own DOM in place, children before parents), and after each batch no due effect is missing. Non-trivial: effects were re-run, skipped and cleaned up.',
  quick: { cases: 2500, secs: 240 },
  thorough: { cases: 120000, secs: 600 },
  require: { 'setups on mount': 5000, 'setups on update': 2000, 'skipped for equal dependencies': 3000, 'cleanups before setup': 1500, 'cleanups on unmount': 2000, 'runs without cleanup after one with': 200, 'parent-child orders': 2000, 'own DOM checked': 5000, 'updates from effects': 200 },
  minDistinct: 200,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const s = new Session(ctx, B, { inRender: true, roots: rng.range(1, 2), depth: rng.range(2, 4), budget: rng.range(5, 16), unmounts: 1 });
    const observer = observe(document.body);
    const recs = new Map();
    const plan = new Map(); // def -> dep kinds
    let token = 1;
    let inCommit = 0;
    let order = []; // instances whose effects ran in this commit, in order
    let effectsStarted = false;
    let committed = false;
    let effectBudget = rng.int(6);
    const what = (rec, slot) => `effect ${slot.n} (deps kind ${slot.kind}) of ${rec.def.name} iid ${rec.iid}`;
    s.world.useHooks = (context, iid, def, props, state) => {
      if (def.stateless) return;
      if (!plan.has(def)) plan.set(def, [0, ...Array.from({ length: rng.int(4) }, () => rng.int(DEPS.length))]);
      let rec = recs.get(iid);
      if (!rec) {
        rec = { iid, def, mounted: false, slots: plan.get(def).map((kind, n) => ({ n, kind, first: true, returns: n === 0 ? 1 : rng.pick([1, 1, 0.5, 0]), active: false, last: false, setups: 0, cleanups: 0 })) };
        recs.set(iid, rec);
      }
      rec.state = state;
      rec.x = props.x;
      for (const slot of rec.slots) {
        const deps = DEPS[slot.kind](props, state);
        const changed = slot.first || depsChanged(slot.deps, deps);
        slot.first = false;
        slot.deps = deps;
        slot.maybe ||= changed;
        slot.renders = (slot.renders ?? 0) + 1;
        const mine = (slot.token = token++);
        if (!changed) ctx.count('skipped for equal dependencies');
        context.useEffect(() => {
          if (mine !== slot.token) ctx.fail(`${what(rec, slot)} runs the setup of an earlier render`);
          if (inCommit === 0) ctx.fail(`${what(rec, slot)} runs outside of a commit`);
          if (!slot.maybe) ctx.fail(`${what(rec, slot)} runs although its dependencies did not change`);
          if (slot.active) ctx.fail(`${what(rec, slot)} runs again without the cleanup of its previous run`);
          slot.maybe = false;
          slot.runDeps = deps;
          slot.hasRun = true;
          slot.runs = (slot.runs ?? 0) + 1;
          rec.mounted = true;
          ctx.count(slot.runs === 1 ? 'setups on mount' : 'setups on update');
          // The DOM of this commit is in place: nothing changes any more.
          const m = observer.take();
          if (effectsStarted && m.length > 0) ctx.fail(`the DOM changes (${m[0].type} in ${m[0].target.nodeName}) after an effect of the same commit has run`, s.dump());
          effectsStarted = true;
          const el = s.world.stage.querySelector(`[data-i="${iid}"]`);
          if (!el) ctx.fail(`${what(rec, slot)} runs, but the component is not in the document`, s.dump());
          if (el.getAttribute('data-s') !== String(rec.state)) ctx.fail(`${what(rec, slot)} runs before its DOM shows state ${rec.state}`, el.outerHTML);
          ctx.count('own DOM checked');
          order.push({ rec, el });
          if (effectBudget > 0 && rng.bool(0.05)) {
            const live = s.stateful();
            if (live.length > 0) {
              effectBudget--;
              ctx.count('updates from effects');
              s.dispatch(rng.pick(live), rng.range(1, 9), s.randomOptions());
            }
          }
          slot.last = rng.bool(slot.returns);
          if (!slot.last) {
            if (slot.setups > 0 && slot.returns > 0) ctx.count('runs without cleanup after one with');
            return;
          }
          slot.setups++;
          slot.active = true;
          slot.ran = mine;
          return () => {
            if (!slot.active) ctx.fail(`${what(rec, slot)} is cleaned up twice`);
            if (mine !== slot.ran) ctx.fail(`${what(rec, slot)} calls the cleanup of an older run`);
            slot.active = false;
            slot.cleanups++;
            slot.lastCleanup = inCommit;
            if (inCommit === 0) ctx.fail(`${what(rec, slot)} is cleaned up outside of a commit`);
          };
        }, deps);
      }
    };
    const due = (slot) => !slot.hasRun || (slot.maybe && depsChanged(slot.runDeps, slot.deps));
    const checkDue = () => {
      for (const rec of recs.values()) {
        if (!rec.mounted) continue;
        for (const slot of rec.slots) if (due(slot)) ctx.fail(`${what(rec, slot)} is due after the commit, but did not run`, JSON.stringify({ deps: slot.deps?.map(String), last: slot.runDeps?.map(String) }));
      }
    };
    const mids = () => {
      // ancestors by DOM containment of the elements they mark (same tree only)
      for (let i = 0; i < order.length; i++) {
        for (let j = i + 1; j < order.length; j++) {
          if (order[i].rec === order[j].rec) continue;
          if (order[i].el !== order[j].el && order[i].el.contains(order[j].el)) {
            ctx.fail(`effects of the parent ${order[i].rec.def.name} iid ${order[i].rec.iid} run before those of its child ${order[j].rec.def.name} iid ${order[j].rec.iid}`);
          }
          if (order[j].el.contains(order[i].el)) ctx.count('parent-child orders');
        }
      }
    };
    s.beforeCommit = () => {
      inCommit++;
      order = [];
      effectsStarted = false;
      observer.take();
    };
    s.afterCommit = () => {
      const m = observer.take();
      if (effectsStarted && m.length > 0) ctx.fail('the DOM changes after an effect of the same commit has run', s.dump());
      mids();
      inCommit--;
      committed = true;
      // Unmounted ones are known by their first effect's cleanup.
      for (const rec of recs.values()) {
        if (!rec.mounted || rec.slots[0].active) continue;
        rec.mounted = false;
        rec.dead = true;
        for (const slot of rec.slots) {
          if (slot.active) ctx.fail(`${what(rec, slot)} is not cleaned up on unmount`);
          if (slot.last) ctx.count('cleanups on unmount');
        }
      }
    };
    const originalRender = s.world.onRender;
    s.world.onRender = (iid, ...a) => {
      originalRender(iid, ...a);
      if (committed) {
        committed = false;
        checkDue();
      }
    };
    try {
      const n = rng.range(4, 10);
      const policy = rng.pick(POLICIES);
      const concurrent = rng.bool(0.5);
      for (let i = 0; i < n; i++) {
        const k = concurrent ? rng.range(1, 5) : 1;
        for (let j = 0; j < k; j++) {
          s.randomOp();
          while (concurrent && rng.bool(0.4)) await s.step(policy);
        }
        await s.drain(policy);
        s.applyLog();
        s.check();
        if (ctx.first) throw ctx.first;
        checkDue();
        committed = false;
        // Mounted exactly when the model says so.
        const live = new Set();
        for (const node of s.ms.live) {
          if (node.type.stateless) continue;
          const iid = s.cmp.iids.get(node.id);
          live.add(iid);
          const rec = recs.get(iid);
          for (const slot of rec.slots) {
            if (!slot.hasRun) ctx.fail(`${what(rec, slot)} never ran although the component is mounted`);
            if (slot.last !== slot.active) ctx.fail(`${what(rec, slot)} is ${slot.active ? '' : 'not '}set up while mounted`);
            if (slot.setups - slot.cleanups !== Number(slot.last)) ctx.fail(`${what(rec, slot)}: ${slot.setups} setups, ${slot.cleanups} cleanups while mounted`);
            if (slot.setups > 1) ctx.count('cleanups before setup');
          }
        }
        for (const rec of recs.values()) {
          if (live.has(rec.iid)) continue;
          for (const slot of rec.slots) {
            if (slot.active) ctx.fail(`${what(rec, slot)} is still set up after its component was unmounted`);
            if (slot.setups !== slot.cleanups) ctx.fail(`${what(rec, slot)}: ${slot.setups} setups, ${slot.cleanups} cleanups after unmount`);
          }
        }
      }
      if (ctx.i < 2) ctx.sample(ctx.trace.slice(0, 8));
      return { sig: ctx.trace.join('\n'), nontrivial: [...recs.values()].some((r) => r.slots.some((x) => x.runs > 1)) };
    } finally {
      observer.stop();
      await s.finish();
    }
  },
};
