import { makeHost, drain, choose, micro } from '../lib/sched.mjs';

const POLICIES = ['fifo', 'random', 'priority', 'lowfirst', 'lifo'];
const shallow = (a, b) => {
  const k = Object.keys(a);
  return k.length === Object.keys(b).length && k.every((x) => Object.hasOwn(b, x) && Object.is(a[x], b[x]));
};
const EQUAL = {
  default: (a, b) => Object.is(a, b),
  shallow,
  byV: (a, b) => a.v === b.v,
  always: () => true,
  never: () => false,
  grown: (a, b) => b.v <= a.v,
  fromEven: (a) => a.v % 2 === 0,
};

export default {
  id: 'C12',
  technique: 'runtime monitoring: every component run must have a reason and every reason a run, checked against a shadow of props and pending updates',
  note: 'Random exploration in jsdom; at most one render of a root per batch, as the statement says; state updates use one lane each (several lanes are covered by forced updates).',
  rule:
    'A case is a random tree of components with seven kinds of arePropsEqual (some of them asymmetric), children created inside or passed through, cached elements, portals and lists, under rounds of root renders, forced and state updates in random priorities and host orders. ' +
    'Each run needs a reason (mount, unequal props from a parent that ran, own update due), each element a running parent produces must have been rendered or be equal, each finished own update must have run its component, and no instance runs twice in a batch. Non-trivial: some memoised child was skipped.',
  quick: { cases: 6000, secs: 240 },
  thorough: { cases: 200000, secs: 600 },
  require: { runs: 30000, 'runs for own updates': 5000, 'runs below skipped parents': 1000, 'skipped for equal props': 5000, 'skipped for the same element': 1000, 'batches with several updates': 2000, 'updates consumed by parents': 500 },
  minDistinct: 500,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const host = makeHost(B);
    const runtime = new B.Runtime(host);
    const policy = rng.pick(POLICIES);
    const stage = document.createElement('div');
    document.body.append(stage);
    let F = 0;
    let batch = 0;
    let committed = true;
    let updatesInBatch = 0;
    let produced = []; // [inst, elements] of this batch
    const insts = new Map(); // spec id -> instance of the mounted one
    let skipped = 0;
    const finishBatch = () => {
      if (updatesInBatch > 1) ctx.count('batches with several updates');
      for (const { by, id, comp, props } of produced) {
        const x = insts.get(id);
        if (!x || x.comp !== comp) continue;
        if (x.props === props) {
          if (x.ran !== batch) {
            ctx.count('skipped for the same element');
          }
          continue;
        }
        if (x.ran === batch && x.viaOther) continue;
        if (!EQUAL[x.memo](x.props, props)) ctx.fail(`${x.name} got different props from ${by}, but did not run`, JSON.stringify([x.props.v, x.props.w, props.v, props.w]));
        ctx.count('skipped for equal props');
        skipped++;
      }
      produced = [];
      updatesInBatch = 0;
    };
    runtime.use({
      handle(update, render) {
        if (committed) {
          finishBatch();
          committed = false;
          batch++;
        }
        updatesInBatch++;
        const t = update.transaction;
        const commit = render({
          id: update.id, lanes: update.lanes, handler: update.handler, controller: update.controller,
          transaction: {
            get scope() { return t.scope; },
            get pendingLanes() { return t.pendingLanes; },
            prepare(lanes, renderer) {
              F = lanes;
              return t.prepare(lanes, renderer);
            },
          },
        });
        return () => {
          commit();
          committed = true;
        };
      },
    });
    const comps = {};
    const body = (context, props, memo, kind) => {
      const inst = context.useMemo(() => ({ id: props.id, name: `${kind} #${props.id}`, comp: comps[memo], memo, kind, props: null, pend: 0, ran: 0, runs: 0, requests: [], mounted: false }), []);
      const [state, setState] = context.useState(0);
      inst.set = setState;
      inst.force = (o) => context.forceUpdate(o);
      ctx.count('runs');
      inst.runs++;
      if (inst.ran === batch) ctx.fail(`${inst.name} runs twice in one batch`);
      inst.ran = batch;
      const due = (inst.pend & F) !== 0;
      if (inst.props === null) {
        ctx.count('runs on mount');
      } else if (props === inst.props) {
        if (!due) ctx.fail(`${inst.name} runs again without new props or an own update that is due`);
        ctx.count('runs for own updates');
        if (inst.parent && inst.parent.ran !== batch) ctx.count('runs below skipped parents');
      } else {
        const equal = EQUAL[memo](inst.props, props);
        if (equal && !due) ctx.fail(`${inst.name} runs although its props are equal and no own update is due`);
        if (due) ctx.count('updates consumed by parents');
      }
      inst.pend &= ~F;
      inst.props = props;
      inst.parent = parentOf.get(props);
      context.useEffect(() => {
        inst.mounted = true;
        insts.set(inst.id, inst);
        return () => {
          inst.mounted = false;
          if (insts.get(inst.id) === inst) insts.delete(inst.id);
        };
      }, []);
      const { spec } = props;
      const kids = spec.how === 'passed' ? props.children : spec.kids.map((k) => real(k, inst));
      const mark = B.html`<i data-id=${props.id} data-v=${props.v} data-s=${state}></i>`;
      return spec.shape === 0 ? [mark, ...kids] : spec.shape === 1 ? B.html`<div><${mark}><${kids}></div>` : B.html`<${mark}><p>${props.w}</p><${kids}>`;
    };
    for (const memo of Object.keys(EQUAL)) {
      const fn = {
        [memo](props) {
          return body(this, props, memo, memo);
        },
      }[memo];
      comps[memo] = B.createComponent(fn, memo === 'default' ? undefined : memo === 'shallow' && rng.bool() ? { arePropsEqual: B.shallowEqual } : { arePropsEqual: EQUAL[memo] });
    }
    const cache = new WeakMap();
    const parentOf = new WeakMap();
    const NONE = Object.freeze([]);
    const real = (spec, by) => {
      let v = spec.cached && cache.get(spec);
      if (!v) {
        const children = spec.how === 'passed' ? spec.kids.map((k) => real(k, { name: `a passer of #${spec.id}` })) : NONE;
        const props = { id: spec.id, v: spec.v, w: spec.w, spec, children };
        v = comps[spec.memo](props).withKey(spec.id);
        cache.set(spec, v);
      }
      if (by?.comp) parentOf.set(v.props, by);
      // Elements passed through are only rendered if the receiver runs.
      if (by && !/^a passer/.test(by.name)) produced.push({ by: by.name, id: spec.id, comp: comps[spec.memo], props: v.props });
      if (spec.portal) return B.createPortal(v, spec.portal).withKey(spec.id);
      return v;
    };
    let nextId = 1;
    const gen = (depth) => {
      const s = { id: nextId++, memo: rng.pick(Object.keys(EQUAL)), v: rng.int(3), w: rng.int(2), how: rng.bool(0.3) ? 'passed' : 'own', shape: rng.int(3), cached: rng.bool(0.3) };
      if (rng.bool(0.1)) {
        s.portal = document.createElement('aside');
        stage.append(s.portal);
      }
      s.kids = depth > 0 ? Array.from({ length: rng.range(0, 3) }, () => gen(depth - 1)) : [];
      return s;
    };
    const edit = (s) => {
      if (rng.bool(0.3)) return s;
      let kids = s.kids.map(edit);
      if (rng.bool(0.15)) kids = rng.shuffle(kids);
      if (rng.bool(0.1)) kids.push(gen(1));
      if (rng.bool(0.1)) kids.splice(rng.int(kids.length), 1);
      return { ...s, kids, v: rng.bool(0.2) ? rng.int(3) : s.v, w: rng.bool(0.2) ? rng.int(2) : s.w, cached: rng.bool(0.3) };
    };
    const roots = Array.from({ length: rng.range(1, 2) }, () => {
      const el = document.createElement('main');
      stage.append(el);
      return { el, root: new B.DOMRoot(el, runtime), specs: [gen(rng.range(1, 3)), gen(1)] };
    });
    const single = () => rng.pick([undefined, undefined, { flushSync: true }, { priority: 'user-blocking' }, { priority: 'user-visible' }, { transition: rng.int(4) }, { delay: 10 }, { handler: (c) => { c(); } }].filter((o) => o?.handler === undefined || rng.bool(0.4)));
    const multi = () => rng.pick([{ flushSync: true, transition: 1 }, { transition: 2, priority: 'user-visible' }, { priority: 'background', delay: 10 }, { transition: 0, priority: 'user-blocking' }]);
    const track = (h, inst, what, o) => {
      ctx.note(`${what} ${inst.name} ${JSON.stringify(o, (k, v) => (typeof v === 'function' ? 'fn' : v))}`);
      inst.pend |= h.lanes;
      const runs = inst.runs;
      h.finished.then(
        () => {
          if (inst.mounted && inst.runs === runs) ctx.fail(`an update of ${inst.name} finished, but the component did not run`);
        },
        (e) => ctx.fail(`update failed: ${e.message}`, String(e.cause?.stack ?? e.stack)),
      );
    };
    try {
      const n = rng.range(4, 10);
      for (let i = 0; i < n; i++) {
        for (const r of roots) {
          const k = i === 0 ? 'render' : rng.weighted([[5, 'render'], [4, 'none'], [0.4, 'unmount']]);
          if (k === 'none') continue;
          if (i > 0) r.specs = rng.shuffle(r.specs.map(edit));
          const o = single();
          ctx.note(`${k} root ${roots.indexOf(r)} ${JSON.stringify(o)}`);
          const h = k === 'render' ? r.root.render({ [Symbol.iterator]: function* () { for (const s of r.specs) yield real(s, { name: 'the root' }); } }, o) : r.root.unmount(o);
          h.finished.catch((e) => ctx.fail(`update failed: ${e.message}`, String(e.cause?.stack ?? e.stack)));
          while (rng.bool(0.3) && host.tasks.length) {
            host.tasks[choose(host, rng, policy)].run();
            if (rng.bool(0.6)) await micro();
          }
        }
        const m = rng.int(8);
        for (let j = 0; j < m; j++) {
          const all = [...insts.values()];
          if (all.length === 0) break;
          const inst = rng.pick(all);
          if (rng.bool(0.5)) {
            const o = rng.bool(0.3) ? multi() : single();
            track(inst.force(o), inst, 'force', o);
          } else {
            const o = single();
            track(inst.set((x) => x + 1, o), inst, 'set', o);
          }
          while (rng.bool(0.4) && host.tasks.length) {
            host.tasks[choose(host, rng, policy)].run();
            if (rng.bool(0.6)) await micro();
          }
        }
        await drain(host, rng, policy);
        finishBatch();
        committed = true;
        if (ctx.first) throw ctx.first;
      }
      if (ctx.i < 2) ctx.sample(ctx.trace.slice(0, 8));
      return { sig: ctx.trace.join('\n'), nontrivial: skipped > 0 };
    } finally {
      stage.remove();
    }
  },
};
