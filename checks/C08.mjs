import { makeHost, drain, choose, micro } from '../lib/sched.mjs';

const POLICIES = ['fifo', 'random', 'priority', 'lowfirst', 'lifo'];
const MOD = 1000003;

// One random application: a forest of Cell components below 1-2 roots. Every
// hook of every instance has a log of the actions dispatched to it.
class Hook {
  constructor(cell, kind) {
    this.cell = cell;
    this.kind = kind; // 'list' | 'num' | 'obj'
    this.log = [];
    this.last = null;
    this.rendered = 0;
  }
}
const FOLD = {
  list: { init: () => [], step: (s, a) => (a.t === 'noop' ? s : a.t === 'clear' ? [] : [...s, a.id]) },
  num: { init: () => 1, step: (s, a) => (a.t === 'noop' ? s : a.t === 'set' ? a.n : (s * 31 + a.n) % MOD) },
  // The reducer closes over a mode of the cell, which only changes at rest.
  obj: { init: () => ({ n: 0, ids: '' }), step: (s, a, mode = a.mode) => (a.t === 'noop' ? s : { n: s.n + 1, ids: `${s.ids},${a.id}:${mode}` }) },
};
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);

export default {
  id: 'C08',
  technique: 'runtime monitoring: logs of dispatched actions checked online against every rendered state and offline against the final state',
  note: 'Random exploration in jsdom; reducers are pure and are exchanged only while no action is pending; transient and passthrough state is excluded.',
  rule:
    'A case is a random forest of stateful components (lists, reducers, memoised ones) over 1-2 roots with 10-60 actions dispatched from outside, effects, event listeners, ref callbacks, reducer continuations and timers with ' +
    'random priorities, transitions, delays, sync flushes and handlers while the host runs its callbacks in a random order and parents render, move, remove and add components. Every rendered state must be the fold of a subset ' +
    'of the log in dispatch order that includes all finished actions; some cases dispatch 130000-250000 actions before a single render; at quiescence state and DOM equal the fold of the whole log. Non-trivial: some hook had two actions pending at once.',
  quick: { cases: 8000, secs: 240 },
  thorough: { cases: 300000, secs: 600 },
  require: { 'actions dispatched': 20000, 'renders checked': 20000, 'hooks compared at rest': 5000, 'hooks with overlapping actions': 1500, 'renders with skipped actions': 400, 'idle no-ops': 200, 'reducers exchanged': 500, 'actions of crowds': 400000, 'dispatched in effects': 500, 'dispatched in renders': 2000, 'dispatched in listeners': 300 },
  minDistinct: 500,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    if (rng.bool(0.0015)) return crowd(ctx, B);
    const host = makeHost(B);
    const runtime = new B.Runtime(host);
    const policy = rng.pick(POLICIES);
    const stage = document.createElement('div');
    document.body.append(stage);
    const cells = new Map(); // instance number -> cell record
    let nextCell = 1;
    let nextAction = 1;
    let budget = rng.range(10, 60);
    const pending = new Set();
    const late = [];
    const sig = [];
    const options = () =>
      rng.weighted([
        [4, undefined],
        [2.5, { flushSync: true }],
        [1.5, { priority: 'user-blocking' }],
        [1.5, { priority: 'user-visible' }],
        [1.5, { priority: 'background' }],
        [2, { transition: rng.int(30) }],
        [0.6, { delay: rng.pick([10, 500]) }],
        [0.7, { handler: rng.bool() ? (c) => { c(); } : async (c) => { await null; c(); } }],
        [0.6, { transition: rng.int(3), priority: rng.pick(['user-visible', 'background']) }],
        [0.4, { flushSync: true, transition: rng.int(3) }],
      ]);
    const check = (hook, value, mustAll) => {
      const { log, kind } = hook;
      const f = FOLD[kind];
      hook.rendered++;
      ctx.count('renders checked');
      const must = log.filter((a) => a.done || mustAll);
      // `value` is the fold of a subset of the log in order including `must`.
      if (kind === 'list' && !log.some((a) => a.t === 'clear')) {
        const known = new Map(log.map((a, i) => [a.id, i]));
        let prev = -1;
        for (const id of value) {
          const i = known.get(id);
          if (i === undefined) ctx.fail(`cell ${hook.cell.n} renders an action that was never dispatched to it: ${id}`, value);
          if (i <= prev) ctx.fail(`cell ${hook.cell.n} renders action ${id} ${i === prev ? 'twice' : 'out of order'}: ${JSON.stringify(value)}`, describe(hook));
          prev = i;
        }
        for (const a of must) if (a.t !== 'noop' && !value.includes(a.id)) ctx.fail(`cell ${hook.cell.n} renders [${value}] without action ${a.id} whose update has finished`, describe(hook));
      } else {
        // Reachable states over all admissible subsets (the pending ones are few).
        const optional = log.filter((a) => !a.done).length;
        if (mustAll || optional <= 10) {
          let states = new Map([[JSON.stringify(f.init()), f.init()]]);
          for (const a of log) {
            const next = new Map();
            for (const s of states.values()) {
              const t = f.step(s, a);
              next.set(JSON.stringify(t), t);
              if (!(a.done || mustAll)) next.set(JSON.stringify(s), s);
            }
            states = next;
          }
          if (!states.has(JSON.stringify(value))) ctx.fail(`cell ${hook.cell.n} (${kind}) renders ${JSON.stringify(value)}, which no admissible subset of its actions yields`, describe(hook));
        }
      }
      if (log.some((a) => !a.done && !a.seen)) {
        const all = log.reduce((s, a) => f.step(s, a), f.init());
        if (!same(all, value)) {
          ctx.count('renders with skipped actions');
          hook.cell.skipped = true;
        }
      }
      hook.last = value;
    };
    const describe = (hook) => hook.log.map((a) => `${a.id}:${a.t}${a.n ?? ''} ${a.opt} ${a.done ? 'done' : 'pending'}`).join('\n');
    const dispatch = (hook, origin) => {
      if (budget-- <= 0) return;
      const t = rng.weighted([[6, 'add'], [1, 'noop'], [hook.kind === 'num' ? 2 : 0, 'set'], [hook.kind === 'list' ? 0.15 : 0, 'clear']]);
      const a = { id: nextAction++, t, n: t === 'set' ? rng.int(5) : rng.int(100), mode: hook.cell.mode, done: false };
      const o = options();
      a.opt = JSON.stringify(o, (k, v) => (typeof v === 'function' ? 'fn' : v)) + ' ' + origin;
      const idle = hook.log.every((x) => x.done) && !hook.cell.busy();
      const rendersBefore = hook.cell.renders;
      const before = hook.last;
      ctx.note(`cell ${hook.cell.n}.${hook.kind} <- ${a.id} ${t} ${a.n} ${a.opt}`);
      ctx.count('actions dispatched');
      ctx.count('dispatched in ' + origin);
      if (hook.log.some((x) => !x.done && !x.skippedNoop)) hook.overlap = true;
      hook.log.push(a);
      const h = hook.send(a, o);
      const mounted = hook.cell.mounted;
      if (t === 'noop' && idle && mounted) {
        if (h.lanes !== 0) ctx.fail(`an action that leaves the state of the idle cell ${hook.cell.n} unchanged schedules an update`, describe(hook));
        ctx.count('idle no-ops');
      }
      pending.add(a);
      h.finished.then(
        () => {
          a.done = true;
          pending.delete(a);
          if (hook.cell.mounted && hook.last !== null && hook.kind === 'list' && !hook.log.some((x) => x.t === 'clear') && t === 'add' && !hook.last.includes(a.id)) {
            ctx.fail(`update of action ${a.id} finished, but cell ${hook.cell.n} has not rendered it`, describe(hook));
          }
          if (rng.bool(0.05)) dispatch(hook, 'continuations');
        },
        (e) => ctx.fail(`dispatch failed: ${e.message}`, String(e.cause?.stack ?? e.stack)),
      );
      void before;
      void rendersBefore;
    };
    const randomHook = () => {
      const live = [...cells.values()].filter((c) => c.mounted || rng.bool(0.05));
      if (live.length === 0) return null;
      return rng.pick(rng.pick(live).hooks);
    };
    const inRender = rng.pick([0, 0.03, 0.1]);
    const SHAPES = rng.bool() ? ['list', 'num'] : rng.pick([['list'], ['obj', 'list'], ['num', 'list', 'num'], ['obj']]);
    const useCell = (context, name) => {
      const cell = context.useMemo(() => {
        const c = { n: nextCell++, name, mounted: false, renders: 0, mode: 0, hooks: [], busy: () => false };
        c.hooks = SHAPES.map((k) => new Hook(c, k));
        return c;
      }, []);
      cells.set(cell.n, cell);
      cell.renders++;
      cell.force = (o) => context.forceUpdate(o);
      cell.hooks.forEach((hook, i) => {
        const f = FOLD[hook.kind];
        const mode = cell.mode;
        let value;
        if (hook.kind === 'num') {
          const [v, set] = context.useState(i % 2 ? () => f.init() : f.init());
          value = v;
          hook.send = (a, o) => set(a.t === 'set' && a.n >= 0 ? a.n : (s) => f.step(s, a), o);
        } else {
          const [v, send] = context.useReducer(hook.kind === 'obj' ? (s, a) => f.step(s, a, mode) : f.step, f.init);
          value = v;
          hook.send = send;
        }
        check(hook, value, false);
      });
      context.useEffect(() => {
        cell.mounted = true;
        return () => {
          cell.mounted = false;
          // Updates of unmounted components have no effect.
        };
      }, []);
      const h0 = cell.hooks[0];
      context.useEffect(() => {
        if (rng.bool(0.15)) dispatch(rng.pick(cell.hooks), 'effects');
        if (rng.bool(0.05)) {
          const other = randomHook();
          if (other) dispatch(other, 'effects');
        }
      }, [h0.last]);
      if (rng.bool(inRender)) dispatch(rng.bool(0.7) ? rng.pick(cell.hooks) : randomHook() ?? h0, 'renders');
      return cell;
    };
    const text = (cell) => cell.hooks.map((h) => JSON.stringify(h.last)).join(' ');
    const listener = (cell) => () => {
      const k = rng.range(1, 3);
      for (let i = 0; i < k; i++) dispatch(rng.bool(0.7) ? rng.pick(cell.hooks) : randomHook(), 'listeners');
    };
    const body = (props, cell) => B.html`<c-cell data-n=${cell.n} data-s=${text(cell)} data-t=${props.tick} @x-go=${listener(cell)}><${props.kids}></c-cell>`;
    const Cell = B.createComponent(function Cell(props) {
      return body(props, useCell(this, 'Cell'));
    });
    const Memo = B.createComponent(
      function Memo(props) {
        return body(props, useCell(this, 'Memo'));
      },
      { arePropsEqual: B.shallowEqual },
    );
    const Bare = B.createComponent(function Bare(props) {
      const cell = useCell(this, 'Bare');
      return [B.html`<c-cell data-n=${cell.n} data-s=${text(cell)} @x-go=${listener(cell)}></c-cell>`, ...[].concat(props.kids ?? [])];
    });
    const COMPS = [Cell, Cell, Memo, Bare];
    const NONE = Object.freeze([]);
    let nextKey = 1;
    const gen = (depth) => ({ c: rng.pick(COMPS), key: nextKey++, tick: 0, kids: depth > 0 ? Array.from({ length: rng.weighted([[2, 0], [2, 1], [2, 2], [1, 3]]) }, () => gen(depth - 1)) : [] });
    const vcache = new WeakMap();
    const real = (s) => {
      const hit = vcache.get(s);
      if (hit) return hit;
      const v = s.c({ tick: s.tick, kids: s.kids.length ? s.kids.map(real) : NONE }).withKey(s.key);
      if (s.cache) vcache.set(s, v);
      return v;
    };
    const edit = (s) => {
      const kids = s.kids.map((k) => (rng.bool(0.5) ? edit(k) : k));
      const r = rng.int(6);
      if (r === 0) kids.push(gen(1));
      if (r === 1 && kids.length) kids.splice(rng.int(kids.length), 1);
      return { ...s, tick: rng.bool(0.3) ? s.tick + 1 : s.tick, kids: r === 2 || r === 3 ? rng.shuffle(kids) : kids, cache: rng.bool(0.3) };
    };
    const roots = Array.from({ length: rng.range(1, 2) }, () => {
      const el = document.createElement('main');
      stage.append(el);
      return { el, root: new B.DOMRoot(el, runtime), spec: Array.from({ length: rng.range(1, 3) }, () => gen(rng.range(0, 2))) };
    });
    const render = (r, o) => {
      ctx.note(`render root ${roots.indexOf(r)} ${JSON.stringify(o)}`);
      const h = r.root.render(r.spec.map(real), o);
      h.finished.catch((e) => ctx.fail(`render failed: ${e.message}`, String(e.cause?.stack ?? e.stack)));
    };
    try {
      for (const r of roots) render(r);
      await drain(host, rng, policy);
      const rounds = rng.range(1, 3);
      for (let round = 0; round < rounds; round++) {
        const n = rng.range(3, 20);
        for (let i = 0; i < n; i++) {
          const k = rng.weighted([[6, 'out'], [2, 'event'], [1.5, 'render'], [1, 'force'], [0.5, 'timer']]);
          if (k === 'out') {
            const h = randomHook();
            if (h) dispatch(h, 'outside');
          } else if (k === 'event') {
            const els = stage.querySelectorAll('c-cell');
            if (els.length) rng.pick([...els]).dispatchEvent(new window.Event('x-go'));
          } else if (k === 'render') {
            const r = rng.pick(roots);
            r.spec = rng.shuffle(r.spec.map((s) => (rng.bool(0.7) ? edit(s) : s)));
            render(r, options());
          } else if (k === 'timer') {
            late.push(() => {
              const h = randomHook();
              if (h) dispatch(h, 'timers');
            });
          }
          while (rng.bool(0.5)) {
            if (host.tasks.length > 0) host.tasks[choose(host, rng, policy)].run();
            if (rng.bool(0.6)) await micro();
            if (late.length && rng.bool()) late.pop()();
          }
        }
        while (late.length) late.pop()();
        await drain(host, rng, policy);
        if (pending.size > 0) ctx.fail(`updates never settle: actions ${[...pending].map((a) => a.id)}`);
        // At rest: mounted cells show the fold of their whole log.
        const shown = new Map();
        for (const el of stage.querySelectorAll('c-cell')) shown.set(Number(el.getAttribute('data-n')), el);
        for (const cell of cells.values()) {
          if (!cell.mounted) {
            if (shown.has(cell.n)) ctx.fail(`unmounted cell ${cell.n} is still shown`);
            continue;
          }
          const el = shown.get(cell.n);
          if (!el) ctx.fail(`mounted cell ${cell.n} is not shown`);
          for (const hook of cell.hooks) {
            const f = FOLD[hook.kind];
            const want = hook.log.reduce((s, a) => f.step(s, a), f.init());
            if (!same(want, hook.last)) ctx.fail(`cell ${cell.n} (${hook.kind}) rests at ${JSON.stringify(hook.last)}, its actions fold to ${JSON.stringify(want)}`, describe(hook));
            ctx.count('hooks compared at rest');
            if (hook.overlap) ctx.count('hooks with overlapping actions');
          }
          if (el.getAttribute('data-s') !== text(cell)) ctx.fail(`cell ${cell.n} shows ${el.getAttribute('data-s')} but rests at ${text(cell)}`);
          sig.push(text(cell));
        }
        // Idle hooks: an equal state causes no render, also by areStatesEqual.
        for (const cell of cells.values()) {
          if (!cell.mounted || !rng.bool(0.3)) continue;
          const hook = rng.pick(cell.hooks);
          const before = cell.renders;
          const send = hook.kind === 'num' ? (o) => hook.send({ t: 'set', n: hook.last }, o) : (o) => hook.send({ t: 'noop' }, o);
          const custom = rng.bool(0.3);
          const h = custom
            ? hook.send(hook.kind === 'num' ? { t: 'set', n: 77 } : { t: 'add', id: -1, mode: cell.mode }, { ...options(), areStatesEqual: () => true })
            : send(options());
          let done = false;
          h.finished.then(() => { done = true; });
          const tasks = host.tasks.length;
          await micro();
          if (cell.renders !== before || tasks > 0) ctx.fail(`an action yielding an equal state re-renders the idle cell ${cell.n}`);
          if (!done) ctx.fail('an action yielding an equal state never finishes');
          ctx.count('idle no-ops');
        }
        // Reducers are exchanged at rest; the actions that follow use the new ones.
        for (const cell of cells.values()) {
          if (!cell.mounted || !rng.bool(0.4)) continue;
          const before = text(cell);
          const rest = budget;
          budget = 0; // renders and effects dispatch nothing meanwhile
          cell.mode++;
          cell.force(options()).finished.catch((e) => ctx.fail(`update failed: ${e.message}`));
          await drain(host, rng, policy);
          if (text(cell) !== before) ctx.fail(`cell ${cell.n} changes its state from ${before} to ${text(cell)} when its reducer is exchanged at rest`);
          budget = rest;
          ctx.count('reducers exchanged');
        }
      }
      if (ctx.i < 2) ctx.sample(ctx.trace.slice(0, 12));
      const overlap = [...cells.values()].some((c) => c.hooks.some((h) => h.overlap));
      return { sig: policy + sig.join('\n'), nontrivial: overlap };
    } finally {
      stage.remove();
    }
  },
};

// Hundreds of thousands of actions that are rendered at once.
async function crowd(ctx, B) {
  const { rng } = ctx;
  const host = makeHost(B);
  const runtime = new B.Runtime(host);
  const el = document.createElement('main');
  document.body.append(el);
  const root = new B.DOMRoot(el, runtime);
  let send;
  let set;
  let renders = 0;
  const C = B.createComponent(function Crowd() {
    renders++;
    const [sum, s] = this.useReducer((x, a) => (x * 31 + a) % MOD, 1);
    const [count, c] = this.useState(0);
    send = s;
    set = c;
    return B.html`<p>${sum} ${count}</p>`;
  });
  try {
    root.render(C({}));
    await drain(host, rng, 'fifo');
    const n = rng.range(130000, 250000);
    const o = rng.pick([undefined, { priority: 'background' }, { flushSync: true }, { transition: 3 }]);
    let sum = 1;
    let count = 0;
    let failure = null;
    let finished = 0;
    const settle = (h) => h.finished.then(() => { finished++; }, (e) => { failure ??= e; });
    for (let i = 0; i < n; i++) {
      if (i % 5 === 4) {
        count++;
        settle(set((x) => x + 1, o));
      } else {
        sum = (sum * 31 + i) % MOD;
        settle(send(i, o));
      }
    }
    await drain(host, rng, 'fifo');
    const what = `${n} actions ${JSON.stringify(o)} before a render`;
    if (failure) ctx.fail(`${what}: ${failure.cause?.message ?? failure.message}`);
    if (finished !== n) ctx.fail(`${what}: only ${finished} updates finish`);
    if (el.textContent !== `${sum} ${count}`) ctx.fail(`${what}: shows ${el.textContent} instead of ${sum} ${count}`);
    ctx.count('actions of crowds', n);
    return { sig: `crowd ${n} ${renders}`, nontrivial: true };
  } finally {
    root.unmount();
    el.remove();
  }
}
