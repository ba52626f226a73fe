// A session drives real roots and the model side by side.
import { makeHost, drain, choose, micro } from './sched.mjs';
import {
  World, Comparer, genSpec, mutate, dedupePortals, reconcile, drop, rerender, domOf, newModelState, show, specSize,
} from './app.mjs';

const EMPTY = { k: 'e', v: null };

export class Session {
  constructor(ctx, B, opts = {}) {
    this.ctx = ctx;
    this.rng = ctx.rng;
    this.B = B;
    this.opts = opts;
    this.host = makeHost(B);
    this.runtime = new B.Runtime(this.host);
    this.log = []; // P / C / R events
    this.ops = new Map(); // update id -> op
    this.runtime.use({
      handle: (update, render) => {
        this.log.push({ t: 'P', id: update.id });
        const commit = render(update);
        return () => {
          this.log.push({ t: 'C', id: update.id });
          this.beforeCommit?.(update);
          commit();
          this.afterCommit?.(update);
        };
      },
    });
    const nroots = opts.roots ?? 1;
    const perRoot = opts.portalsPerRoot ?? 2;
    this.world = new World(ctx, B, { host: this.host, runtime: this.runtime, portals: nroots * perRoot });
    this.world.onRender = (iid, def, props, state) => {
      this.log.push({ t: 'R', iid, state });
      this.onRender?.(iid, def, props, state);
    };
    // Components request updates of components while they are rendered.
    const rate = opts.inRender ? this.rng.pick([0, 0, 0.02, 0.1]) : 0;
    this.renderRequests = 0;
    if (rate > 0) {
      this.world.inRender = () => {
        if (this.renderRequests > 15 || !this.rng.bool(rate)) return;
        const live = this.stateful();
        if (live.length === 0) return;
        this.renderRequests++;
        const node = this.rng.pick(live);
        if (this.rng.bool(0.9)) this.dispatch(node, this.rng.range(1, 9), this.randomOptions());
        else this.force(node, this.randomOptions());
      };
    }
    this.foreign = new WeakSet();
    this.ms = newModelState();
    this.ms.onDrop = (n) => this.onDrop?.(n);
    this.cmp = new Comparer();
    this.cmp.identity = opts.identity ?? false;
    this.roots = [];
    for (let i = 0; i < nroots; i++) {
      const container = document.createElement('main');
      this.world.stage.append(container);
      this.addForeign(container);
      this.roots.push({
        i,
        container,
        root: new B.DOMRoot(container, this.runtime),
        model: null,
        spec: null,
        st: { portals: perRoot, base: i * perRoot, templates: opts.templates, components: opts.components, dups: opts.dups, makeEvent: opts.makeEvent, makeRef: opts.makeRef },
      });
    }
    for (const p of this.world.portals) this.addForeign(p);
    this.deltas = new Map(); // model id -> expected state
    this.pending = [];
    this.batches = 0;
    this.maxBatch = 0;
    this.history = [];
  }
  addForeign(container) {
    if (!this.opts.foreign) return;
    const n = this.rng.int(3);
    for (let i = 0; i < n; i++) {
      const x = this.rng.bool() ? document.createTextNode('foreign' + i) : document.createElement('foreign-el');
      this.foreign.add(x);
      container.append(x);
    }
    (this.foreignOf ??= new Map()).set(container, [...container.childNodes]);
  }
  newSpec(r, depth) {
    const st = { ...r.st, budget: this.opts.budget ?? 14 };
    let spec =
      r.spec === null || this.rng.bool(0.08)
        ? genSpec(this.rng, st, depth ?? this.opts.depth ?? 4)
        : mutate(this.rng, st, r.spec, depth ?? this.opts.depth ?? 4);
    const n = this.rng.int(3);
    if (r.spec !== null) for (let i = 0; i < n; i++) spec = mutate(this.rng, st, spec, depth ?? this.opts.depth ?? 4);
    if (specSize(spec) > 60) spec = genSpec(this.rng, st, 2);
    return this.place(r, spec);
  }
  place(r, spec) {
    return dedupePortals(spec);
  }
  // Portal numbers are relative to the root: shift once at realisation.
  shift(spec, base) {
    if (base === 0) return spec;
    this.shifted ??= new WeakMap();
    const hit = this.shifted.get(spec);
    if (hit) return hit;
    let out = spec;
    switch (spec.k) {
      case 't': out = { ...spec, h: spec.h.map((x) => this.shift(x, base)) }; break;
      case 'f': out = { ...spec, items: spec.items.map((x) => this.shift(x, base)) }; break;
      case 'c': out = { ...spec, props: { ...spec.props, child: this.shift(spec.props.child, base) } }; break;
      case 'P': out = { ...spec, n: spec.n + base, child: this.shift(spec.child, base) }; break;
    }
    this.shifted.set(spec, out);
    return out;
  }
  track(handle, op) {
    op.id = handle.id;
    op.settled = null;
    if (handle.id >= 0) this.ops.set(handle.id, op);
    this.pending.push(op);
    handle.finished.then(
      () => { op.settled = 'ok'; },
      (e) => { op.settled = 'error'; op.error = e; },
    );
    this.history.push(op);
    return op;
  }
  describe(op) {
    const o = op.options ? JSON.stringify(op.options, (k, v) => (typeof v === 'function' ? 'fn' : v)) : '';
    switch (op.kind) {
      case 'render': return `render root${op.r.i} ${o} ${show(op.spec)}`;
      case 'unmount': return `unmount root${op.r.i} ${o}`;
      case 'state': return `state #${op.node.id} (iid ${op.iid}) += ${op.n} ${o}`;
      case 'force': return `force #${op.node.id} ${o}`;
    }
  }
  render(r, spec, options) {
    r.spec = spec;
    const real = this.shift(spec, r.st.base);
    const op = { kind: 'render', r, spec: real, options };
    this.ctx.note(this.describe(op));
    return this.track(r.root.render(this.world.realize(real), options), op);
  }
  unmount(r, options) {
    r.spec = null;
    const op = { kind: 'unmount', r, options };
    this.ctx.note(this.describe(op));
    return this.track(r.root.unmount(options), op);
  }
  stateful() {
    return [...this.ms.live].filter((n) => !n.type.stateless && this.cmp.iids.has(n.id) && this.world.instances.has(this.cmp.iids.get(n.id)));
  }
  dispatch(node, n, options) {
    const iid = this.cmp.iids.get(node.id);
    const op = { kind: 'state', node, n, iid, options };
    this.ctx.note(this.describe(op));
    this.deltas.set(node.id, (this.deltas.get(node.id) ?? 0) + n);
    return this.track(this.world.instances.get(iid).set((s) => s + n, options), op);
  }
  force(node, options) {
    const iid = this.cmp.iids.get(node.id);
    const op = { kind: 'force', node, iid, options };
    this.ctx.note(this.describe(op));
    return this.track(this.world.instances.get(iid).force(options), op);
  }
  randomOptions() {
    const rng = this.rng;
    return rng.weighted([
      [4, undefined],
      [2, { flushSync: true }],
      [1, { priority: 'user-blocking' }],
      [1, { priority: 'user-visible' }],
      [1, { priority: 'background' }],
      [0.7, { transition: rng.int(30) }],
      [0.5, { delay: rng.pick([10, 500]) }],
      [0.5, { handler: rng.bool() ? (c) => { c(); } : async (c) => { await null; c(); } }],
      [0.4, { transition: rng.int(3), priority: 'user-visible' }],
      [0.3, { flushSync: true, transition: rng.int(3) }],
    ]);
  }
  randomOp() {
    const rng = this.rng;
    const live = this.stateful();
    const r = rng.pick(this.roots);
    const kind = rng.weighted([
      [5, 'render'],
      [r.model ? (this.opts.unmounts ?? 0.5) : 0, 'unmount'],
      [live.length > 0 ? (this.opts.stateWeight ?? 4) : 0, 'state'],
      [live.length > 0 ? 0.4 : 0, 'force'],
    ]);
    const options = this.randomOptions();
    switch (kind) {
      case 'render': return this.render(r, this.newSpec(r), options);
      case 'unmount': return this.unmount(r, options);
      case 'state': return this.dispatch(rng.pick(live), rng.range(1, 9), options);
      case 'force': return this.force(rng.pick(live), options);
    }
  }
  async step(policy) {
    const { host, rng } = this;
    if (host.tasks.length > 0) host.tasks[choose(host, rng, policy)].run();
    if (rng.bool(0.6)) await micro();
  }
  async drain(policy) {
    await drain(this.host, this.rng, policy ?? 'fifo');
    for (const op of this.pending) {
      if (op.settled === null) this.ctx.fail(`update never settles: ${this.describe(op)}`);
      if (op.settled === 'error') this.ctx.fail(`update failed: ${this.describe(op)}: ${op.error?.message}`, String(op.error?.cause?.stack ?? op.error?.stack));
    }
    this.pending = [];
  }
  // Feed the model with the batches the runtime was observed to process.
  applyLog() {
    let batch = { ops: [], renders: new Map() };
    let committed = false;
    const flush = () => {
      this.batches++;
      this.maxBatch = Math.max(this.maxBatch, batch.ops.length);
      const changed = [];
      for (const [iid, state] of batch.renders) {
        const id = this.cmp.riids.get(iid);
        if (id !== undefined && this.ms.states.get(id) !== state) {
          this.ms.states.set(id, state);
          changed.push(id);
        }
      }
      for (const r of this.roots) {
        const mine = batch.ops.filter((o) => o.r === r);
        for (let i = 0; i < mine.length; i++) {
          const o = mine[i];
          if (o.kind === 'unmount') {
            if (r.model) drop(this.ms, r.model);
            r.model = null;
          } else if (mine[i + 1]?.kind !== 'render') {
            r.model = reconcile(this.ms, r.model, o.spec);
          }
        }
      }
      for (const id of changed) {
        for (const n of [...this.ms.live]) if (n.id === id && this.ms.live.has(n)) rerender(this.ms, n);
      }
      batch = { ops: [], renders: new Map() };
      committed = false;
    };
    for (const e of this.log) {
      if ((e.t === 'P' || e.t === 'R') && committed) flush();
      if (e.t === 'P') {
        const op = this.ops.get(e.id);
        if (op) batch.ops.push(op);
      } else if (e.t === 'R') batch.renders.set(e.iid, e.state);
      else committed = true;
    }
    if (committed) flush();
    this.log = [];
  }
  check() {
    const portals = new Map();
    for (const r of this.roots) {
      const expected = r.model ? domOf(r.model, portals) : [];
      const m = this.cmp.children(expected, r.container, this.foreign, `root${r.i}`);
      if (m) this.failDom(m);
    }
    for (let i = 0; i < this.world.portals.length; i++) {
      const m = this.cmp.children(portals.get(i) ?? [], this.world.portals[i], this.foreign, `portal${i}`);
      if (m) this.failDom(m);
    }
    for (const node of this.ms.live) {
      const want = this.deltas.get(node.id) ?? 0;
      const got = this.ms.states.get(node.id) ?? 0;
      if (want !== got) this.ctx.fail(`component ${node.type.name} #${node.id} shows state ${got}, but its updates sum to ${want}`, this.dump());
    }
    if (this.foreignOf) {
      for (const [c, nodes] of this.foreignOf) {
        const now = [...c.childNodes].filter((n) => this.foreign.has(n));
        if (now.length !== nodes.length || now.some((n, i) => n !== nodes[i])) this.ctx.fail('foreign nodes of a container were disturbed', this.dump());
      }
    }
  }
  dump() {
    return this.roots.map((r) => r.container.outerHTML).join('\n') + '\n' + this.world.portals.map((p) => p.outerHTML).join('\n');
  }
  failDom(m) {
    this.ctx.fail(m, this.dump());
  }
  async finish() {
    this.world.dispose();
  }
}
export { EMPTY };
