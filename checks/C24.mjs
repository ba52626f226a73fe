import { makeHost, micro } from '../lib/sched.mjs';
import { Forest, POLICIES } from '../lib/forest.mjs';

const is = Object.is;

export default {
  id: 'C24',
  technique: 'runtime monitoring: model stores log every subscription and are compared with the snapshots returned by the hook and shown in the DOM after every turn of a virtual host',
  note: 'Random exploration; stores do not change while components render or from within subscribe(), and snapshots are stable between changes.',
  rule:
    'A case is a forest of components over 1-3 roots using SyncExternalStore up to twice, each with one of several stores and one of several (stable or fresh, with or without an unsubscribe function) subscribe and getSnapshot functions which change between renders, while the stores change (announced at once, announced later, to equal values, back and forth, several at once) from outside, effects, cleanups, refs, listeners, other subscribers and unsubscriptions, at any point between rendering, committing and subscribing. ' +
    'Every render returns the snapshot of that moment; after every turn without a waiting batch each mounted component shows the current snapshot and is subscribed once through its latest subscribe function; at rest a change re-renders exactly the components whose snapshot changed. Non-trivial: a store changed between the render and the commit of a component using it.',
  quick: { cases: 1600, secs: 240 },
  thorough: { cases: 250000, secs: 600 },
  require: {
    'snapshots returned': 60000, 'snapshots shown': 100000, 'changes': 15000, 'changes from outside': 5000, 'changes from effects': 1500, 'changes from cleanups': 200, 'changes from refs': 150, 'changes from listeners': 100, 'changes from subscribers': 200, 'changes from unsubscriptions': 200,
    'silent changes': 1500, 'changes to an equal snapshot': 1500, 'changes during a pending commit': 1500, 'subscriptions': 20000, 'subscriptions replaced': 3000, 'stores replaced': 1500, 'subscriptions ended by unmounting': 3000, 'subscriptions compared': 50000,
    'changes at rest': 2000, 'renders at rest': 1000, 'no renders at rest': 800,
  },
  minDistinct: 700,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const host = makeHost(B, { taskPriority: () => rng.pick(['user-blocking', 'user-visible', 'background']) });
    const forest = new Forest(ctx, B, host, { budget: rng.range(5, 30) });
    let nontrivial = false;
    let serial = 1;
    let budget = rng.range(5, 30);
    let rendering = 0;
    let subscriptions = 0;
    let origin = null;
    const values = [];
    const idOf = (v) => {
      const i = values.findIndex((x) => is(x, v));
      return i >= 0 ? i : values.push(v) - 1;
    };
    const show = (v) => `#${idOf(v)}:${typeof v === 'object' ? 'object' : is(v, -0) ? '-0' : String(v)}`;
    const waiting = () => host.tasks.some((t) => t.kind !== 'task');
    const newValue = (store) => {
      const k = rng.int(10);
      if (k < 4) return serial++;
      if (k < 5) return { n: serial++ };
      if (k < 6) return rng.pick([NaN, 0, -0, null, undefined, '', false]);
      if (k < 7) return store.value;
      return rng.pick(store.past);
    };
    const stores = [];
    const makeSub = (store) => {
      const kind = rng.weighted([[8, 'normal'], [1, 'void'], [1, 'twice']]);
      const sub = {
        store,
        kind,
        entries: [],
        subscribe: (notify) => {
          if (rendering > 0) ctx.fail('subscribe() is called during rendering');
          if (typeof notify !== 'function') ctx.fail('subscribe() gets ' + typeof notify);
          const entry = { notify, sub, live: true, ended: 0 };
          store.entries.add(entry);
          sub.entries.push(entry);
          subscriptions++;
          ctx.count('subscriptions');
          forest.ev('+' + store.i);
          if (kind === 'void') return undefined;
          return (...args) => {
            if (args.length > 0) ctx.fail('unsubscribe() gets arguments');
            if (++entry.ended > 1) ctx.fail('unsubscribed twice');
            entry.live = false;
            store.entries.delete(entry);
            forest.ev('-' + store.i);
            within('unsubscriptions', () => { if (rng.bool(0.05)) change(); });
          };
        },
      };
      return sub;
    };
    const makeSnap = (store) => {
      const kind = rng.weighted([[5, 'whole'], [2, 'parity'], [1, 'object']]);
      const cache = new Map();
      const of = (v) => {
        if (kind === 'whole') return v;
        if (kind === 'parity') return typeof v === 'number' ? v % 2 : typeof v;
        let o = cache.get(v);
        if (!o) cache.set(v, (o = { of: v }));
        return o;
      };
      return { store, kind, of, get: (...args) => { if (args.length > 0) ctx.fail('getSnapshot() gets arguments'); return of(store.value); } };
    };
    for (let i = rng.range(1, 3); i > 0; i--) {
      const store = { i, value: serial++, past: [], entries: new Set(), dirty: false };
      store.past.push(store.value);
      store.subs = [makeSub(store), makeSub(store)];
      store.snaps = [makeSnap(store), makeSnap(store)];
      stores.push(store);
    }
    const within = (o, f) => {
      const keep = origin;
      origin = o;
      try { f(); } finally { origin = keep; }
    };
    let depth = 0;
    const announce = (store) => {
      store.dirty = depth > 3;
      if (depth > 3) return;
      depth++;
      for (const entry of [...store.entries]) {
        if (!entry.live && rng.bool(0.7)) continue; // some stores notify those that just left
        entry.notify();
        within('subscribers', () => { if (rng.bool(0.02)) change(); });
      }
      depth--;
    };
    const change = (store = rng.pick(stores), silently = rng.bool(0.12)) => {
      if (budget <= 0 || rendering > 0) return false;
      budget--;
      const v = newValue(store);
      const before = store.value;
      store.value = v;
      store.past.push(v);
      ctx.count('changes');
      ctx.count('changes from ' + origin);
      if (is(before, v)) ctx.count('changes to an equal snapshot');
      if (waiting()) {
        ctx.count('changes during a pending commit');
        nontrivial = true;
      }
      ctx.note(`store ${store.i} = ${show(v)} ${silently ? 'silently ' : ''}from ${origin}`);
      forest.ev(`V${store.i}:${show(v)}`);
      if (silently) {
        store.dirty = true;
        ctx.count('silent changes');
      } else announce(store);
      return true;
    };
    forest.useMore = (context, cell) => {
      cell.hooks ??= Array.from({ length: rng.weighted([[3, 1], [1, 2]]) }, () => ({ committed: null }));
      for (const hook of cell.hooks) {
        if (hook.store === undefined || rng.bool(0.12)) {
          const store = rng.pick(stores);
          if (hook.store && hook.store !== store) ctx.count('stores replaced');
          hook.store = store;
          hook.sub = rng.pick(store.subs);
          hook.snap = rng.pick(store.snaps);
        }
        if (rng.bool(0.15)) hook.sub = rng.bool(0.5) ? makeSub(hook.store) : rng.pick(hook.store.subs);
        if (rng.bool(0.15)) hook.snap = rng.bool(0.5) ? makeSnap(hook.store) : rng.pick(hook.store.snaps);
        const { store, sub, snap } = hook;
        let made = 0;
        (hook.rendered ??= new Set()).add(sub); // since the last commit
        context.useEffect(() => { made = subscriptions; });
        const got = context.use(B.SyncExternalStore(sub.subscribe, snap.get));
        if (!is(got, snap.of(store.value))) ctx.fail(`cell ${cell.n} gets ${show(got)} while rendering, but the snapshot is ${show(snap.of(store.value))}`, forest.log.join(' '));
        ctx.count('snapshots returned');
        hook.value = got;
        context.useEffect(() => {
          const n = subscriptions - made;
          const same = hook.committed?.sub === sub;
          // A render that was superseded may have used another function.
          if (same && hook.rendered.size > 1 ? n > 1 : n !== (same ? 0 : 1)) ctx.fail(`cell ${cell.n} subscribes ${n} times ${hook.committed === null ? 'when mounted' : hook.committed.sub === sub ? 'through the same function' : 'through a new function'}`, forest.log.slice(-60).join(' '));
          if (hook.committed !== null && hook.committed.sub !== sub) ctx.count('subscriptions replaced');
          hook.rendered = new Set();
          hook.committed = { store, sub, snap };
        });
        context.useEffect(() => () => {
          hook.committed = null;
          ctx.count('subscriptions ended by unmounting');
        }, []);
      }
    };
    forest.moreChildren = (context, cell) => [B.html`<b data-s=${cell.hooks.map((h) => idOf(h.value)).join(' ')}></b>`];
    const renders = new Set();
    forest.onR = (cell, when) => {
      if (when === 'start') {
        if (cell.gone) ctx.fail(`cell ${cell.n} renders although it is unmounted`);
        renders.add(cell);
        cell.rs = (cell.rs ?? 0) + 1;
        rendering++;
      } else rendering--;
    };
    const mounted = () => [...forest.cells.values()].filter((c) => c.mounted);
    const watch = () => {
      if (ctx.first) throw ctx.first;
      // Subscriptions change in effects only, so they must fit at any time.
      const want = new Map();
      for (const cell of mounted()) {
        for (const { committed } of cell.hooks) want.set(committed.sub, (want.get(committed.sub) ?? 0) + 1);
      }
      for (const store of stores) {
        for (const { sub } of store.entries) {
          if (sub.kind !== 'void' && !want.has(sub)) ctx.fail(`store ${store.i} is still subscribed to by nobody`, forest.log.join(' '));
        }
      }
      for (const [sub, n] of want) {
        const live = sub.entries.filter((e) => e.live).length;
        if (sub.kind === 'void' ? live < n : live !== n) ctx.fail(`${live} subscriptions of store ${sub.store.i} instead of ${n}`, forest.log.join(' '));
        ctx.count('subscriptions compared');
      }
      if (waiting()) return;
      for (const cell of mounted()) {
        const shown = cell.el.querySelector(':scope > .more > b').dataset.s.split(' ').map((i) => values[i]);
        for (const [i, { committed }] of cell.hooks.entries()) {
          const { store, snap } = committed;
          if (store.dirty) continue;
          const now = snap.of(store.value);
          if (!is(shown[i], now)) ctx.fail(`cell ${cell.n} shows ${show(shown[i])} of store ${store.i} instead of ${show(now)}`, forest.log.join(' '));
          ctx.count('snapshots shown');
        }
      }
    };
    forest.onFailed = (req, e) => ctx.fail(`update rejected: ${forest.describe(req)}: ${e?.message}`, String(e?.cause?.stack ?? e?.stack ?? e));
    forest.onIdle = watch;
    forest.onEffect = (cell, kind) => within(kind === 'unmount' ? 'cleanups' : 'effects', () => { if (rng.bool(kind === 'unmount' ? 0.1 : 0.07)) change(); });
    const inner = forest.within.bind(forest);
    forest.within = (o, f) => inner(o, () => {
      f();
      if (o === 'refs' || o === 'listeners' || o === 'handlers' || o === 'continuations') within(o, () => { if (rng.bool(o === 'refs' ? 0.03 : 0.3)) change(); });
    });
    forest.onStep = () => {
      if (rng.bool(0.35)) within('outside', () => { for (let k = rng.range(1, 3); k > 0; k--) change(); });
      const dirty = stores.filter((s) => s.dirty);
      if (dirty.length > 0 && rng.bool(0.3)) announce(rng.pick(dirty));
    };
    const policy = rng.pick(POLICIES);
    await forest.run(policy);
    watch();
    // At rest: only what has changed is rendered.
    forest.stopped = true;
    for (let k = rng.range(1, 4); k > 0; k--) {
      for (const store of stores) if (store.dirty) announce(store);
      await forest.drain(policy);
      watch();
      budget = 1;
      const store = rng.pick(stores);
      const before = mounted().map((c) => [c, c.hooks.map((h) => [h.committed, h.committed.snap.of(h.committed.store.value)])]);
      renders.clear();
      for (const c of mounted()) c.rs = 0;
      depth = 3; // no further changes by subscribers
      origin = 'outside';
      change(store, false);
      depth = 0;
      budget = 0;
      await micro();
      watch();
      const changed = before.filter(([, vs]) => vs.some(([{ snap, store }, v]) => !is(snap.of(store.value), v)));
      ctx.count('changes at rest');
      for (const [c] of changed) {
        if (c.rs === 0) ctx.fail(`cell ${c.n} is not rendered after a change`, forest.log.slice(-60).join(' '));
        ctx.count('renders at rest');
      }
      for (const c of renders) if (c.rs > 1) ctx.fail(`cell ${c.n} is rendered ${c.rs} times for one change`, forest.log.slice(-60).join(' '));
      if (changed.length === 0) {
        if (renders.size > 0) ctx.fail('a change that leaves all snapshots as they are renders components', forest.log.slice(-60).join(' '));
        ctx.count('no renders at rest');
      }
      await forest.drain(policy);
    }
    forest.dispose();
    if (ctx.i < 2) ctx.sample(forest.log.slice(0, 60).join(' '));
    return { sig: forest.log.join(' '), nontrivial };
  },
};
