import { makeHost, micro } from '../lib/sched.mjs';
import { Forest, POLICIES } from '../lib/forest.mjs';

const VALUES = [0, 1, 2, 3, NaN, 'a', 'b', '', null, undefined, -0];
const is = Object.is;
const tag = (v) => (is(v, -0) ? '-0' : String(v));
const FNS = {
  join: (...xs) => xs.map(tag).join('|'),
  parity: (...xs) => (typeof xs[0] === 'number' && xs[0] === xs[0] ? Math.abs(xs[0] % 2) : 'odd'),
  same: () => 'const',
  kind: (x) => typeof x,
  plus: (a, b) => tag(a) + '+' + tag(b),
};

export default {
  allowUnhandled: true, // checked here: computations may throw on purpose
  allowDomErrors: false,
  id: 'C22',
  technique: 'runtime monitoring: at every quiescent point the values rendered by each use of a signal are compared with the signals, subscriptions are counted at the leaves, and renders caused by writes that change nothing are detected',
  note: 'Random exploration under a virtual host; signals are used with context.use(), and in child, text and attribute holes.',
  rule:
    'A case is a forest of components over 1-3 roots that use up to 3 of 3-8 signals (atoms, accessors, computed ones of any depth, signals read through two paths, per-component ones) and switch between them from render to render, in hooks and in template holes, ' +
    'while signals are written from outside, while rendering, in effects, cleanups, refs, listeners, between render and commit, and during random host schedules. Whenever everything has run, each mounted use shows the current value; the number of subscribers of each leaf is that of the mounted uses; ' +
    'and writes that leave every used value equal request no update and cause no render. Non-trivial: a use caught up with a write.',
  quick: { cases: 3000, secs: 240 },
  thorough: { cases: 200000, secs: 600 },
  require: {
    'uses compared': 60000, 'holes compared': 10000, 'uses switched to another signal': 3000, 'subscription counts compared': 10000, 'writes that changed nothing': 2000, 'recovered from throwing computations': 20,
    'writes while rendering': 500, 'writes in effects': 500, 'writes in cleanups': 300, 'writes in refs': 500, 'writes between render and commit': 500, 'writes outside': 5000, 'writes before the first render': 500,
  },
  minDistinct: 1500,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const host = makeHost(B, { taskPriority: () => rng.pick(['user-blocking', 'user-visible', 'background']) });
    const signals = [];
    const leaves = [];
    let explosive = false;
    const countSubs = (leaf, s) => {
      leaf.subs = 0;
      const subscribe = s.subscribe;
      s.subscribe = function (f) {
        const un = subscribe.call(this, f);
        leaf.subs++;
        let done = false;
        return () => {
          if (!done) leaf.subs--;
          done = true;
          un();
        };
      };
      return s;
    };
    const makeLeaf = () => {
      const leaf = { k: 'leaf', v: rng.pick(VALUES) };
      if (rng.bool(0.7)) leaf.s = countSubs(leaf, new B.Atom(leaf.v));
      else {
        leaf.box = leaf.v;
        leaf.s = countSubs(leaf, new B.Accessor(() => leaf.box, (v) => { leaf.box = v; }));
      }
      leaves.push(leaf);
      return leaf;
    };
    const n = rng.range(3, 8);
    const nl = rng.range(1, 4);
    for (let i = 0; i < n; i++) {
      if (i < nl) signals.push(makeLeaf());
      else {
        const fname = rng.pick(['join', 'parity', 'same', 'kind']);
        const fn = FNS[fname];
        const x = { k: 'computed', fname };
        if (fname === 'kind') {
          x.deps = [rng.pick(signals)];
          x.s = x.deps[0].s.map(fn);
        } else {
          x.deps = Array.from({ length: rng.range(1, 3) }, () => rng.pick(signals));
          x.s = new B.Computed((...xs) => {
            if (explosive && xs.includes('boom')) throw new Error('boom');
            return fn(...xs);
          }, x.deps.map((d) => d.s));
        }
        signals.push(x);
      }
      signals.at(-1).i = i;
    }
    const modelOf = (x) => (x.k === 'leaf' ? x.v : FNS[x.fname](...x.deps.map(modelOf)));
    const pathsOf = (x, into = new Map()) => {
      if (x.k === 'leaf') into.set(x, (into.get(x) ?? 0) + 1);
      else for (const d of x.deps) pathsOf(d, into);
      return into;
    };
    let writes = rng.range(10, 60);
    const write = (where) => {
      if (writes <= 0 || ctx.first) return;
      writes--;
      const k = rng.weighted([[5, 1], [1, 2], [1, 3]]);
      for (let j = 0; j < k; j++) {
        const leaf = rng.pick(leaves);
        const v = rng.bool(0.2) ? leaf.v : rng.pick(VALUES);
        leaf.v = v;
        leaf.s.value = v;
        ctx.note(`${where}: leaf = ${tag(v)}`);
        ctx.count('writes ' + where);
      }
    };
    if (rng.bool()) write('before the first render');

    const forest = new Forest(ctx, B, host, { budget: rng.range(6, 30) });
    let renders = 0;
    let switching = rng.bool(0.8);
    let dead = 0;
    const pickFor = (cell, slot) => {
      if (!cell.plan[slot] || (switching && rng.bool(0.3))) {
        const next = cell.own && rng.bool(0.3) ? rng.pick(cell.own) : rng.pick(signals);
        if (cell.plan[slot] && cell.plan[slot] !== next) ctx.count('uses switched to another signal');
        cell.plan[slot] = next;
      }
      return cell.plan[slot];
    };
    forest.useMore = (context, cell) => {
      renders++;
      if (!cell.plan) {
        cell.plan = [];
        cell.slots = rng.int(3);
        cell.holes = rng.int(3);
        cell.local = rng.bool(0.3);
      }
      cell.seen = [];
      if (cell.local) {
        // The initial value counts for the first time only.
        const atom = context.use(B.LocalAtom(cell.atom ? rng.pick(['local', 'other', renders]) : 'local'));
        const dep = pickFor(cell, 10);
        const local = (cell.atom ??= (() => { const l = { k: 'leaf', v: 'local', i: 'own' }; l.s = countSubs(l, atom); leaves.push(l); return l; })());
        if (local.s !== atom) ctx.fail('LocalAtom changed its identity');
        const made = context.use(B.LocalComputed((a, b) => tag(a) + '+' + tag(b), [atom, dep.s]));
        const prev = cell.made;
        if (!prev || prev.s !== made) {
          if (prev && prev.deps[1] === dep) ctx.fail('LocalComputed was replaced although its dependencies did not change');
          cell.made = { k: 'computed', fname: 'plus', deps: [local, dep], s: made, i: 'local' };
        } else if (prev.deps[1] !== dep) ctx.fail('LocalComputed was kept although its dependencies changed');
        cell.own = [local, cell.made];
      }
      for (let j = 0; j < cell.slots; j++) {
        const x = pickFor(cell, j);
        if (rng.bool(0.04)) write('while rendering');
        cell.seen.push({ x, v: context.use(x.s) });
      }
      if (rng.bool(0.04)) write('while rendering');
    };

    forest.moreChildren = (context, cell) => {
      cell.holeUses = [];
      const out = [];
      for (let j = 0; j < cell.holes; j++) {
        const x = pickFor(cell, 20 + j);
        const kind = (cell.plan[30 + j] ??= rng.int(4));
        cell.holeUses.push({ x, kind });
        const s = x.s;
        out.push(kind === 0 ? B.html`<b><${s}></b>` : kind === 1 ? B.html`<b>${s}</b>` : kind === 2 ? B.html`<b title=${s}></b>` : B.html`<b .data=${s}></b>`);
      }
      return out;
    };
    forest.onEffect = (cell, kind) => {
      if (kind === 'unmount') {
        if (rng.bool(0.1)) write('in cleanups');
      } else if (rng.bool(0.05)) write('in effects');
    };
    const within = forest.within;
    forest.within = (origin, f) => {
      if (origin === 'refs' && rng.bool(0.04)) write('in refs');
      return within.call(forest, origin, f);
    };
    forest.onPEnd = () => { if (rng.bool(0.06)) write('between render and commit'); };
    forest.onC = () => { if (rng.bool(0.04)) write('between render and commit'); };
    forest.onFailed = (req, e) => ctx.fail(`update rejected: ${forest.describe(req)}: ${e?.message}`, String(e?.cause?.stack ?? e?.stack ?? e));
    forest.onStep = () => { if (rng.bool(0.25)) write('outside'); };

    let caughtUp = false;
    const last = new WeakMap();
    const check = (when) => {
      const expected = new Map();
      const add = (x) => { for (const [leaf, k] of pathsOf(x)) expected.set(leaf, (expected.get(leaf) ?? 0) + k); };
      for (const cell of forest.cells.values()) {
        if (!cell.mounted) continue;
        for (const [j, { x, v }] of cell.seen.entries()) {
          const want = modelOf(x);
          if (!is(v, want)) ctx.fail(`${when}: use ${j} of cell ${cell.n} shows ${tag(v)} while ${x.k} signal ${x.i} is ${tag(want)}`, ctx.trace.slice(-40).join('\n'));
          ctx.count('uses compared');
          const l = last.get(cell);
          if (l && l[j] !== undefined && !is(l[j], v)) caughtUp = true;
          add(x);
        }
        last.set(cell, cell.seen.map((u) => u.v));
        const els = cell.el.querySelectorAll(':scope > .more > b');
        for (const [j, { x, kind }] of cell.holeUses.entries()) {
          const want = modelOf(x);
          const el = els[j];
          const empty = want === null || want === undefined;
          const got = kind === 2 ? el.getAttribute('title') : kind === 3 ? el.data : kind === 0 ? el.firstChild.data : el.textContent;
          const ok = kind === 2 ? got === (empty ? null : String(want)) : kind === 3 ? is(got, want) : got === (empty ? '' : String(want));
          if (!ok) ctx.fail(`${when}: hole ${j} (kind ${kind}) of cell ${cell.n} shows ${tag(got)} while signal ${x.i} is ${tag(want)}`, cell.el.outerHTML);
          ctx.count('holes compared');
          add(x);
        }
      }
      for (const leaf of leaves) {
        if (leaf.subs !== (expected.get(leaf) ?? 0)) ctx.fail(`${when}: a leaf has ${leaf.subs} subscribers for ${expected.get(leaf) ?? 0} mounted uses`);
        ctx.count('subscription counts compared');
      }
    };
    const policy = rng.pick(POLICIES);
    await forest.run(policy);
    check('after the program');
    const onStep = forest.onStep;
    for (let round = rng.range(1, 4); round > 0; round--) {
      // Writes at rest.
      forest.onStep = () => {};
      writes = Math.max(writes, 3);
      const burst = rng.range(1, 3);
      for (let j = 0; j < burst; j++) write('outside');
      if (rng.bool(0.5)) forest.onStep = () => { if (rng.bool(0.2)) write('outside'); };
      await forest.drain(policy);
      forest.onStep = () => {};
      check('after writes at rest');
      // Writes that leave every value as it was, or that nobody uses.
      const used = new Set();
      for (const cell of forest.cells.values()) {
        if (cell.mounted) for (const u of [...cell.seen, ...cell.holeUses]) used.add(u.x);
      }
      const before = new Map([...used].map((x) => [x, modelOf(x)]));
      const leaf = rng.pick(leaves);
      const old = leaf.v;
      const vs = rng.bool(0.5) ? [rng.pick(VALUES), old] : [rng.pick(VALUES)];
      const r0 = renders;
      const q0 = host.requested;
      for (const v of vs) {
        leaf.v = v;
        leaf.s.value = v;
        // A change that is only visible for less than a microtask is no change.
      }
      const unchanged = [...used].every((x) => is(before.get(x), modelOf(x)));
      await micro();
      if (unchanged) {
        ctx.count('writes that changed nothing');
        if (host.requested !== q0) ctx.fail(`a write that leaves all used values equal requested an update`, `leaf ${tag(old)} -> ${vs.map(tag)}`);
      }
      await forest.drain(policy);
      if (unchanged && renders !== r0) ctx.fail(`a write that leaves all used values equal re-rendered ${renders - r0} components`, `leaf ${tag(old)} -> ${vs.map(tag)}`);
      check('after a write at rest');
    }
    // A computation that throws once must not cut its users off.
    if (rng.bool(0.9)) {
      const leaf = rng.pick(leaves.filter((l) => !l.v?.startsWith?.('local')));
      explosive = true;
      ctx.unhandled.length = 0;
      leaf.v = leaf.s.value = 'boom';
      await micro();
      const thrown = ctx.unhandled.filter((e) => e?.message === 'boom').length;
      if (thrown === ctx.unhandled.length && host.tasks.length === 0) {
        explosive = false;
        leaf.v = leaf.s.value = 'well';
        await forest.drain(policy);
        if (thrown > 0) ctx.count('recovered from throwing computations');
        ctx.unhandled.length = 0;
        check(thrown > 0 ? 'after a computation threw' : 'after one more write');
      } else {
        explosive = false;
        host.tasks.length = 0;
        ctx.unhandled.length = 0;
        dead = 1;
      }
    }
    if (!dead) {
      writes = 0;
      forest.stopped = true;
      switching = false;
      for (const r of forest.roots) {
        r.root.unmount({ flushSync: true }).finished.catch(() => {});
      }
      await forest.drain(policy);
      for (const cell of forest.cells.values()) if (cell.mounted) ctx.fail(`cell ${cell.n} is still mounted`);
      check('after unmounting');
    }
    if (ctx.unhandled.length > 0) ctx.fail('unhandled: ' + String(ctx.unhandled[0]?.stack ?? ctx.unhandled[0]).slice(0, 1000));
    forest.dispose();
    if (ctx.i < 2) ctx.sample(forest.log.slice(0, 60).join(' '));
    return { sig: forest.log.join(' ') + ctx.trace.length, nontrivial: caughtUp };
  },
};
