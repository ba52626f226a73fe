const VALUES = [0, -0, 1, 2, 3, NaN, 'a', 'b', '', null, undefined, true, false, [], [1], { o: 1 }];
const is = Object.is;
let uid = 1;
const ids = new Map();
const tag = (v) => {
  if (is(v, -0)) return '-0';
  if (typeof v === 'object' && v !== null) {
    if (!ids.has(v)) ids.set(v, uid++);
    return '#' + ids.get(v);
  }
  return String(v);
};
// The pure functions computed signals are made of.
const FNS = {
  join: (...xs) => xs.map(tag).join('|'),
  first: (...xs) => xs[0],
  same: () => 'const',
  count: (...xs) => xs.filter((x) => is(x, xs[0])).length,
  nan: (...xs) => (xs.length % 2 ? NaN : null),
  nothing: () => null,
  undef: () => undefined,
  parity: (...xs) => (typeof xs[0] === 'number' ? xs[0] % 2 : 'odd'),
};

export default {
  id: 'C20',
  technique: 'runtime monitoring: every read, computation, version and notification of random signal graphs compared with a recomputed reference graph',
  note: 'Random exploration; computations are pure functions of their arguments (or throw); the storage behind an accessor is written through it only.',
  rule:
    'A case builds a graph of 2-24 atoms, accessors (plain, clamping, over other signals) and computed signals (map and constructor, repeated and no dependencies, given initial results, throwing ones) of any depth and runs 60-200 writes and reads in random order, also from inside subscribers. ' +
    'Every value read equals the reference, no finished computation runs twice for the same writes, versions never fall and rise with each write below, and subscribers of a computed signal are called for each write of a dependency. Non-trivial: a computed signal changed its value through at least two levels.',
  quick: { cases: 1500, secs: 240 },
  thorough: { cases: 300000, secs: 600 },
  require: { reads: 50000, computations: 20000, 'reads without computation': 10000, 'reads inside subscribers': 5000, 'computations that threw': 500, 'deep changes': 1000, 'notifications of computed': 5000, 'given initial results': 100 },
  minDistinct: 500,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const nodes = [];
    const n = rng.range(2, 24);
    const leafCount = rng.range(1, 5);
    let deepChanges = 0;
    // reference value of a node; writes: total writes of leaves, per path
    const valueOf = (x) => {
      switch (x.k) {
        case 'atom': return x.v;
        case 'accessor': return x.v;
        case 'view': return valueOf(x.of);
        case 'computed': {
          const args = x.deps.map(valueOf);
          if (x.throwsOn !== undefined && args.some((a) => is(a, x.throwsOn))) throw x.error;
          return x.fn(...args);
        }
      }
    };
    const stamp = (x) => (x.k === 'computed' ? x.deps.map(stamp).join(',') : x.k === 'view' ? String(x.writes) : String(x.writes));
    const readModel = (x) => {
      try {
        return { v: valueOf(x) };
      } catch (e) {
        return { e };
      }
    };
    const leavesOf = (x, s = new Set()) => {
      if (x.k === 'computed') for (const d of x.deps) leavesOf(d, s);
      else s.add(x);
      return s;
    };
    const name = (x) => `${x.k}${x.i}`;
    const describe = (x) => (x.k === 'computed' ? `${name(x)}=${x.fname}(${x.deps.map(name).join(',')})` : name(x));
    for (let i = 0; i < n; i++) {
      const kind = i < leafCount ? rng.weighted([[3, 'atom'], [2, 'accessor']]) : rng.weighted([[0.5, 'atom'], [0.3, 'accessor'], [6, 'computed']]);
      const x = { k: kind, i, writes: 0, lastVersion: -Infinity, runs: 0 };
      if (kind === 'atom') {
        x.v = rng.pick(VALUES);
        x.s = new B.Atom(x.v);
      } else if (kind === 'accessor') {
        x.clamp = rng.bool(0.4);
        x.v = rng.pick(VALUES);
        x.store = x.v;
        x.norm = (v) => (x.clamp && typeof v === 'number' ? Math.min(v, 1) : v);
        x.s = new B.Accessor(() => x.store, (v) => { x.store = x.norm(v); });
      } else {
        x.deps = Array.from({ length: rng.weighted([[0.3, 0], [4, 1], [4, 2], [2, 3], [0.5, 6]]) }, () => (rng.bool(0.6) ? nodes[nodes.length - 1 - rng.int(Math.min(4, nodes.length))] : rng.pick(nodes)));
        // Notifications and versions follow every path down to the leaves.
        while ((x.paths = x.deps.reduce((a, d) => a + (d.paths ?? 1), 0)) > 60) x.deps.pop();
        x.fname = rng.weighted([[5, 'join'], [3, 'first'], [0.5, 'same'], [1, 'count'], [0.5, 'nan'], [0.5, 'nothing'], [0.5, 'undef'], [1, 'parity']]);
        x.fn = FNS[x.fname];
        if (rng.bool(0.15)) {
          x.throwsOn = rng.pick(VALUES);
          x.error = new Error('computation of ' + name(x));
        }
        x.doneAt = null;
        const f = (...args) => {
          x.runs++;
          ctx.count('computations');
          const at = stamp(x);
          if (x.doneAt === at) ctx.fail(`${describe(x)} is computed again although nothing it depends on was written`);
          const want = x.deps.map((d) => readModel(d));
          if (args.length !== want.length) ctx.fail(`${describe(x)} is computed with ${args.length} arguments`);
          args.forEach((a, j) => {
            if (want[j].e || !is(a, want[j].v)) ctx.fail(`${describe(x)} is computed with ${tag(a)} as argument ${j}, expected ${tag(want[j].v)}`);
          });
          if (x.throwsOn !== undefined && args.some((a) => is(a, x.throwsOn))) {
            ctx.count('computations that threw');
            throw x.error;
          }
          x.doneAt = at;
          return x.fn(...args);
        };
        if (x.deps.length === 1 && rng.bool(0.5)) x.s = x.deps[0].s.map(f);
        else if (rng.bool(0.15)) {
          const m = readModel(x);
          if (!m.e) {
            x.s = new B.Computed(f, x.deps.map((d) => d.s), m.v, x.deps.reduce((a, d) => a + d.s.version, 0));
            x.doneAt = stamp(x);
            ctx.count('given initial results');
          }
        }
        x.s ??= new B.Computed(f, x.deps.map((d) => d.s));
      }
      nodes.push(x);
    }
    const depth = (x) => (x.k === 'computed' ? 1 + Math.max(0, ...x.deps.map(depth)) : 0);
    const computed = nodes.filter((x) => x.k === 'computed');
    ctx.note(nodes.map((x) => (x.k === 'computed' ? describe(x) : `${name(x)}:${tag(x.v)}`)).join(' '));
    const read = (x) => {
      ctx.count('reads');
      const want = readModel(x);
      const runs = x.runs;
      let got;
      try {
        got = { v: x.s.value };
      } catch (e) {
        if (ctx.first) throw ctx.first;
        got = { e };
      }
      if (x.k === 'computed' && runs === x.runs && !got.e) ctx.count('reads without computation');
      if (want.e ? got.e !== want.e : got.e || !is(got.v, want.v)) {
        ctx.fail(`${describe(x)} reads ${got.e ? 'error ' + got.e.message : tag(got.v)}, expected ${want.e ? 'error ' + want.e.message : tag(want.v)}`);
      }
      if (depth(x) > 1 && x.lastRead && !is(x.lastRead.v, want.v)) {
        ctx.count('deep changes');
        deepChanges++;
      }
      x.lastRead = want;
    };
    const version = (x) => {
      const v = x.s.version;
      const at = stamp(x);
      if (typeof v !== 'number' || !(v >= x.lastVersion || x.lastVersion === -Infinity)) ctx.fail(`the version of ${describe(x)} goes from ${x.lastVersion} to ${v}`);
      if (x.lastStamp !== undefined && x.lastStamp !== at && !(v > x.lastVersion)) ctx.fail(`the version of ${describe(x)} stays ${v} although a dependency was written`);
      x.lastVersion = v;
      x.lastStamp = at;
    };
    const subs = [];
    let depthNow = 0;
    let budget = 30;
    const writable = nodes.filter((x) => x.k !== 'computed');
    const write = (x, v) => {
      const stored = x.k === 'accessor' ? x.norm(v) : v;
      ctx.note(`${name(x)} = ${tag(v)}`);
      if (is(x.v, v)) {
        x.s.value = v;
        return;
      }
      const before = subs.map((s) => s.calls);
      x.v = stored;
      x.writes++;
      depthNow++;
      x.s.value = v;
      depthNow--;
      subs.forEach((s, j) => {
        if (j >= before.length || !s.active || !leavesOf(s.x).has(x)) return;
        if (s.calls === before[j]) ctx.fail(`a subscriber of ${describe(s.x)} did not hear of the write of ${name(x)}`);
      });
    };
    const steps = rng.range(60, 200);
    for (let i = 0; i < steps; i++) {
      const op = rng.weighted([[4, 'write'], [5, 'read'], [2, 'version'], [subs.length < 5 && computed.length ? 0.5 : 0, 'sub'], [subs.length ? 0.1 : 0, 'unsub']]);
      switch (op) {
        case 'write': write(rng.pick(writable), rng.pick(VALUES)); break;
        case 'read': { const x = rng.pick(rng.bool(0.7) && computed.length ? computed : nodes); ctx.note(`read ${name(x)}`); read(x); break; }
        case 'version': version(rng.pick(nodes)); break;
        case 'sub': {
          const s = { x: rng.pick(computed), calls: 0, active: true };
          s.stop = s.x.s.subscribe(() => {
            if (!s.active) ctx.fail(`a subscriber of ${describe(s.x)} is called after it was removed`);
            s.calls++;
            ctx.count('notifications of computed');
            ctx.count('reads inside subscribers');
            read(s.x);
            version(s.x);
            if (rng.bool(0.2)) read(rng.pick(nodes));
            if (depthNow < 3 && budget > 0 && rng.bool(0.1) && budget--) write(rng.pick(writable), rng.pick(VALUES));
          });
          subs.push(s);
          break;
        }
        case 'unsub': {
          const s = rng.pick(subs);
          s.active = false;
          s.stop();
          break;
        }
      }
      if (ctx.first) throw ctx.first;
    }
    for (const x of nodes) {
      read(x);
      version(x);
    }
    ids.clear();
    if (ctx.i < 2) ctx.sample(ctx.trace.slice(0, 6));
    return { sig: ctx.trace.join('\n'), nontrivial: deepChanges > 0 };
  },
};
