// A forest of stateful components over several roots, driven by requests that
// come from everywhere (outside, effects, cleanups, refs, listeners, other
// updates' continuations, commit handlers, timers) while the host runs its
// callbacks in a random order. Everything that happens is logged.
import { choose, micro } from './sched.mjs';

export const POLICIES = ['fifo', 'random', 'priority', 'lowfirst', 'lifo'];

export class Forest {
  constructor(ctx, B, host, opts = {}) {
    this.ctx = ctx;
    this.rng = opts.rng ?? ctx.rng;
    this.B = B;
    this.host = host;
    this.opts = opts;
    this.runtime = new B.Runtime(host);
    this.cells = new Map();
    this.nextCell = 1;
    this.nextSpec = 1;
    this.nextReq = 1;
    this.gen = 0;
    this.budget = opts.budget ?? this.rng.range(8, 50);
    this.reqs = [];
    this.byId = new Map(); // update id -> request
    this.open = new Set();
    this.log = [];
    this.origin = 'outside';
    this.overlaps = 0;
    const document = opts.document ?? window.document;
    this.document = document;
    this.stage = document.createElement('div');
    document.body.append(this.stage);
    opts.before?.(this);
    if (opts.tap !== false) {
      this.runtime.use({
        handle: (update, render) => {
          this.ev('P' + update.id);
          this.onP?.(update);
          const commit = render(update);
          this.onPEnd?.(update);
          return () => {
            this.ev('C' + update.id);
            this.onC?.(update);
            const req = this.byId.get(update.id);
            if (req && (req.kind === 'render' || req.kind === 'unmount')) {
              req.root.shown = req.kind === 'render' ? req.gen : null;
              req.root.shownSpecs = req.specs;
              req.committed = true;
            }
            commit();
            this.onCEnd?.(update);
          };
        },
      });
    }
    this.roots = [];
    const n = opts.roots ?? this.rng.weighted([[4, 1], [2, 2], [1, 3]]);
    for (let i = 0; i < n; i++) {
      const container = document.createElement('main');
      this.stage.append(container);
      this.roots.push({ i, container, root: new B.DOMRoot(container, this.runtime), spec: null, shown: null });
    }
    const forest = this;
    const body = function (props) {
      return forest.renderCell(this, props);
    };
    this.Cell = B.createComponent(function Cell(props) { return body.call(this, props); });
    this.Memo = B.createComponent(function Memo(props) { return body.call(this, props); }, { arePropsEqual: (a, b) => (forest.within('comparisons', () => forest.request(0.02)), a.spec === b.spec) });
  }
  ev(x) {
    this.log.push(x);
  }
  spec(depth = 3) {
    const { rng } = this;
    const kids = [];
    const n = depth > 0 ? rng.weighted([[2, 0], [2, 1], [2, 2], [1, 3]]) : 0;
    for (let i = 0; i < n; i++) kids.push(this.spec(depth - 1));
    return { id: this.nextSpec++, memo: rng.bool(0.3), bomb: this.opts.makeBomb?.() ?? null, kids };
  }
  mutate(s) {
    const { rng } = this;
    if (rng.bool(0.3)) return s;
    let kids = s.kids.map((k) => this.mutate(k));
    const op = rng.int(6);
    if (op === 0 && kids.length > 0) kids.splice(rng.int(kids.length), 1);
    if (op === 1 && kids.length < 4) kids.splice(rng.int(kids.length + 1), 0, this.spec(1));
    if (op === 2) kids = rng.shuffle(kids);
    if (op === 3 && kids.length > 0) kids[rng.int(kids.length)] = this.spec(1);
    return { ...s, bomb: this.opts.makeBomb?.() ?? null, kids };
  }
  element(spec, gen, root) {
    return (spec.memo ? this.Memo : this.Cell)({ spec, gen, root }).withKey(spec.id);
  }
  renderCell(context, { spec, gen, root }) {
    const { B, rng } = this;
    const cell = context.useMemo(() => {
      const c = { n: this.nextCell++, mounted: false, gone: false, ext: 0, log: [], el: null, renders: 0, spec: spec.id, memo: spec.memo, root };
      c.click = () => {
        this.ev('click' + c.n);
        this.within('listeners', () => this.request(0.9));
      };
      c.ref = (el) => {
        c.el = el;
        this.ev('ref' + c.n);
        this.within('refs', () => this.request(0.05));
        return () => {
          this.ev('unref' + c.n);
        };
      };
      this.cells.set(c.n, c);
      return c;
    }, []);
    cell.renders++;
    this.ev(`R${cell.n}`);
    this.onR?.(cell, 'start');
    const [list, send] = context.useReducer((s, a) => [...s, a], []);
    cell.send = send;
    cell.force = (o) => context.forceUpdate(o);
    cell.current = list;
    this.useMore?.(context, cell);
    context.useEffect(() => {
      this.ev(`E${cell.n}`);
      cell.mounted = true;
      this.onEffect?.(cell, 'mount');
      return () => {
        this.ev(`e${cell.n}`);
        cell.mounted = false;
        cell.gone = true;
        this.onEffect?.(cell, 'unmount');
        this.within('cleanups', () => this.request(0.08, cell));
      };
    }, []);
    context.useEffect(() => {
      this.ev(`L${cell.n}:${list}`);
      this.onEffect?.(cell, 'list');
      this.within('effects', () => this.request(0.12, cell));
      return () => this.ev(`l${cell.n}:${list}`);
    }, [list]);
    this.within('renders', () => this.request(this.opts.inRender ?? 0.03, cell));
    if (spec.bomb !== null && spec.bomb.armed) this.explode(spec.bomb, cell);
    const more = this.moreChildren?.(context, cell);
    const r = more ? this.withMore(more, cell, list, gen, spec, root) : B.html`<section data-n=${cell.n} data-list=${list.join(',')} data-ext=${cell.ext} data-gen=${gen} @click=${cell.click} ${cell.ref}>#${cell.n}: ${list.length} <ul><${spec.kids.map((k) => this.element(k, gen, root))}></ul></section>`;
    this.onR?.(cell, 'end');
    if (spec.id % 3 !== 0) return r;
    // Surrounded by elements that come and go with the state.
    const extra = (x) => B.html`<i data-x=${x}></i>`.withKey(x);
    return [...list.filter((x) => x % 2 === 0).slice(-2).map(extra), r.withKey('main'), ...list.filter((x) => x % 2 === 1).slice(-2).map(extra)];
  }
  withMore(more, cell, list, gen, spec, root) {
    return this.B.html`<section data-n=${cell.n} data-list=${list.join(',')} data-ext=${cell.ext} data-gen=${gen} @click=${cell.click} ${cell.ref}>#${cell.n}: ${list.length} <ul><${spec.kids.map((k) => this.element(k, gen, root))}></ul><div class="more"><${more}></div></section>`;
  }
  // The document as a committed render of `specs` must leave it.
  outline(root) {
    const of = (el) => [...el.children].map((x) => (x.localName === 'i' ? x.dataset.x : `${x.dataset.n}(${of(x.querySelector(':scope > ul'))})`)).join(' ');
    const got = [...root.container.children].filter((x) => x.localName !== 'header');
    return of({ children: got });
  }
  expectedOutline(root) {
    const byEl = new Map();
    for (const c of this.cells.values()) if (c.mounted) byEl.set(c.root + '/' + c.spec, c);
    const of = (specs) => specs.map((s) => {
      const c = byEl.get(root.i + '/' + s.id);
      if (!c) return '?' + s.id;
      const list = c.current;
      const own = `${c.n}(${of(s.kids)})`;
      if (s.id % 3 !== 0) return own;
      return [...list.filter((x) => x % 2 === 0).slice(-2), own, ...list.filter((x) => x % 2 === 1).slice(-2)].join(' ');
    }).join(' ');
    return root.shown === null ? '' : of(root.shownSpecs);
  }
  explode(bomb) {
    throw bomb.error;
  }
  options() {
    const { rng } = this;
    return rng.weighted([
      [4, undefined],
      [2.5, { flushSync: true }],
      [1.5, { priority: 'user-blocking' }],
      [1.5, { priority: 'user-visible' }],
      [1.5, { priority: 'background' }],
      [2, { transition: rng.int(30) }],
      [0.6, { delay: rng.pick([10, 500]) }],
      [0.9, 'handler'],
      [0.8, { transition: rng.int(3), priority: rng.pick(['user-visible', 'background', 'user-blocking']) }],
      [0.4, { flushSync: true, transition: rng.int(3) }],
      [0.3, { delay: 200, priority: rng.pick(['user-visible', 'background']) }],
      [0.3, { delay: 20, transition: rng.int(3) }],
      [0.3, 'handler+'],
      [0.2, 'sync+handler'],
    ]);
  }
  within(origin, f) {
    const keep = this.origin;
    this.origin = origin;
    try {
      f();
    } finally {
      this.origin = keep;
    }
  }
  makeHandler(req) {
    const { rng } = this;
    const kind = rng.int(4);
    return (commit) => {
      this.ev('H' + req.n);
      req.handlerCalls = (req.handlerCalls ?? 0) + 1;
      const go = () => {
        req.inHandler = true;
        this.handling = req;
        try {
          commit();
        } finally {
          req.inHandler = false;
          this.handling = null;
        }
        req.handlerCommitted = true;
      };
      this.within('handlers', () => this.request(0.1));
      // A handler that fails without having committed.
      const fail = this.failHandler?.(req);
      if (fail) {
        switch (kind) {
          case 0: return fail();
          case 1: return Promise.resolve().then(fail);
          case 2: return (async () => { for (let i = 0; i < 3; i++) await null; fail(); })();
          default: return new Promise((resolve, reject) => this.host._push('handler', () => { try { fail(); } catch (e) { reject(e); } }, { priority: 'user-visible' }));
        }
      }
      switch (kind) {
        case 0: return go();
        case 1: return Promise.resolve().then(go);
        case 2: return (async () => { for (let i = 0; i < 3; i++) await null; go(); await null; this.ev('h' + req.n); })();
        default: return new Promise((resolve, reject) => this.host._push('handler', () => { try { go(); resolve(); } catch (e) { reject(e); } }, { priority: 'user-visible' }));
      }
    };
  }
  // One random request, with a probability.
  request(p = 1, self) {
    const { rng } = this;
    if (this.stopped || this.ctx.first || this.budget <= 0 || !rng.bool(p)) return null;
    this.budget--;
    const kind = rng.weighted([[3, 'render'], [0.4, 'unmount'], [5, 'send'], [1.2, 'force']]);
    let o = this.options();
    const req = { n: this.nextReq++, kind, origin: this.origin, settled: null };
    if (o === 'handler') o = { handler: this.makeHandler(req) };
    else if (o === 'handler+') o = { handler: this.makeHandler(req), ...rng.pick([{ priority: 'background' }, { transition: rng.int(3) }]) };
    else if (o === 'sync+handler') o = { handler: this.makeHandler(req), flushSync: true };
    req.options = o;
    let issue;
    if (kind === 'render' || kind === 'unmount') {
      const r = rng.pick(this.roots);
      req.root = r;
      if (kind === 'render') {
        r.spec = r.spec === null || rng.bool(0.1) ? [this.spec(), ...(rng.bool(0.3) ? [this.spec(1)] : [])] : r.spec.map((s) => this.mutate(s));
        const gen = ++this.gen;
        req.gen = gen;
        const specs = r.spec;
        req.specs = specs;
        const value = this.rootValue ? this.rootValue(specs, gen, r.i) : this.B.html`<header data-gen=${gen}></header><${specs.map((s) => this.element(s, gen, r.i))}>`;
        issue = () => r.root.render(value, o);
      } else {
        r.spec = null;
        issue = () => r.root.unmount(o);
      }
    } else {
      const live = [...this.cells.values()].filter((c) => c.send && (c.mounted || (!c.gone && rng.bool(0.3)) || rng.bool(0.03)));
      const cell = self && rng.bool(0.5) ? self : live.length > 0 ? rng.pick(live) : null;
      if (cell === null || !cell.send) return null;
      req.cell = cell;
      if (kind === 'send') issue = () => cell.send(req.n, o);
      else {
        req.ext = ++cell.ext;
        issue = () => cell.force(o);
      }
    }
    return this.issue(req, issue);
  }
  describe(req) {
    const o = req.options === undefined ? '' : JSON.stringify(req.options, (k, v) => (typeof v === 'function' ? 'fn' : v));
    const t = req.root ? `root${req.root.i}` + (req.gen ? ` gen ${req.gen}` : '') : `cell ${req.cell.n}`;
    return `q${req.n} ${req.kind} ${t} ${o} from ${req.origin}`;
  }
  issue(req, f) {
    this.reqs.push(req);
    this.open.add(req);
    if (this.open.size > 1) this.overlaps++;
    this.ctx.note(this.describe(req));
    this.ev(`Q${req.n}${req.kind}`);
    this.onRequest?.(req);
    const h = f();
    req.handle = h;
    if (req.kind === 'send') req.cell.log.push(req.n);
    if (h.id >= 0) this.byId.set(h.id, req);
    this.onRequested?.(req, h);
    h.finished.then(
      (v) => {
        req.settled = 'ok';
        this.open.delete(req);
        this.ev(`S${req.n}`);
        this.onSettled?.(req, v);
        this.within('continuations', () => this.request(0.06));
      },
      (e) => {
        req.settled = 'error';
        req.error = e;
        this.open.delete(req);
        this.ev(`F${req.n}`);
        this.onFailed?.(req, e);
      },
    );
    return req;
  }
  click() {
    const live = [...this.cells.values()].filter((c) => c.mounted && c.el);
    if (live.length === 0) return;
    this.rng.pick(live).el.dispatchEvent(new window.Event('click'));
  }
  runTask(policy) {
    const { host } = this;
    if (host.tasks.length === 0) return;
    host.tasks[choose(host, this.rng, policy)].run();
  }
  async run(policy = this.rng.pick(POLICIES)) {
    const { rng, host } = this;
    for (const r of this.roots) {
      if (rng.bool(0.8)) this.within('outside', () => this.request(1));
    }
    let idle = 0;
    while (this.budget > 0 && idle++ < 400) {
      const k = rng.int(10);
      if (k < 4) this.request(1);
      else if (k < 5) this.click();
      else if (k < 8) this.runTask(policy);
      if (k > 5) {
        await micro();
        this.onIdle?.();
      }
      this.onStep?.();
    }
    await this.drain(policy);
  }
  async drain(policy = 'fifo') {
    const { host } = this;
    await micro();
    let n = 0;
    while (host.tasks.length > 0) {
      if (n++ > 3000) throw new Error('HARNESS: host never becomes idle');
      this.runTask(policy);
      this.onStep?.();
      await micro();
      this.onIdle?.();
    }
  }
  dispose() {
    this.stage.remove();
  }
}
