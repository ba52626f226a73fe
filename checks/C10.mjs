import { Session } from '../lib/session.mjs';
import { makeHost, drain } from '../lib/sched.mjs';

const POLICIES = ['fifo', 'random', 'priority', 'lowfirst', 'lifo'];
const OBJ = [{}, {}, {}];
const changedDeps = (a, b) => a == null || b == null || a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]));
const DEPS = [
  () => [],
  (p) => [p.x],
  (p, s) => [s],
  (p, s) => [p.x, s],
  (p, s) => [NaN, s % 2],
  (p, s) => [s % 3 === 0 ? 0 : -0],
  (p, s) => (s % 2 ? [p.x] : [p.x, undefined]),
  (p) => [p.child],
  (p, s) => [OBJ[s % 3], 'k'],
  () => undefined,
  () => null,
  (p, s) => (s % 4 === 1 ? null : [1]),
  (p, s) => [String(s % 2), s % 2],
  (p, s) => [s % 2 === 0, s % 2 === 0 ? 1 : true],
];
const KINDS = ['memo', 'memo', 'callback', 'ref', 'id', 'state', 'reducer', 'effect'];
const allIds = new Set(); // of every runtime ever made in this process

export default {
  id: 'C10',
  technique: 'runtime monitoring: per-instance shadow of every hook compared with what each render receives',
  note: 'Random exploration in jsdom; exchanging useMemo, useCallback and useRef for each other is not claimed to be reported, and every runtime has its own host adapter.',
  rule:
    'A case is either a random history of a Session whose components use up to 8 extra hooks of random kinds and dependency lists, each compared with a shadow (recomputed only on changed dependencies, identities kept, ids unique over all runtimes of the process), or hundreds of instances that come and go with their ids, or a component that ' +
    'changes the kind or number of its hooks at a random position, where the update must be rejected with a TypeError as cause and a correct later render must still find its data unmixed, or a component whose memo computations throw in some renders, which must not count as computed. Non-trivial: something was re-rendered.',
  quick: { cases: 2500, secs: 240 },
  thorough: { cases: 120000, secs: 600 },
  require: { 'memo kept': 3000, 'memo recomputed': 1500, 'identities kept': 10000, ids: 3000, 'ids of crowds': 3000, 'hook misuse reported': 500, 'computations thrown': 500, 'recomputed after a throw': 300 },
  minDistinct: 200,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    if (rng.bool(0.25)) return misuse(ctx, B);
    if (rng.bool(0.25)) return throwing(ctx, B);
    if (rng.bool(0.015)) return crowd(ctx, B);
    const s = new Session(ctx, B, { inRender: true, roots: rng.range(1, 2), depth: rng.range(2, 4), budget: rng.range(5, 14), unmounts: 0.8 });
    const shadows = new Map();
    const owners = new Map(); // ref object / dispatcher -> instance
    const plan = new Map();
    s.world.useHooks = (context, iid, def, props, state) => {
      if (!plan.has(def)) plan.set(def, Array.from({ length: rng.int(9) }, () => ({ kind: rng.pick(KINDS), deps: rng.int(DEPS.length) })));
      let sh = shadows.get(iid);
      const first = !sh;
      if (first) shadows.set(iid, (sh = []));
      const own = (x, what) => {
        if (owners.has(x) && owners.get(x) !== iid) ctx.fail(`${what} of instance ${owners.get(x)} carries over to instance ${iid}`);
        owners.set(x, iid);
      };
      plan.get(def).forEach(({ kind, deps: dk }, n) => {
        const where = `hook ${n} (${kind}, deps kind ${dk}) of ${def.name} iid ${iid}`;
        const deps = DEPS[dk](props, state);
        const h = (sh[n] ??= {});
        switch (kind) {
          case 'memo':
          case 'callback': {
            const due = first || changedDeps(h.deps, deps);
            const fresh = kind === 'memo' ? rng.pick([() => ({}), () => undefined, () => null, () => NaN, () => rng.int(3)])() : () => {};
            let computed = 0;
            const got = kind === 'memo' ? context.useMemo(() => { computed++; return fresh; }, deps) : context.useCallback(fresh, deps);
            if (kind === 'memo' && computed !== (due ? 1 : 0)) ctx.fail(`${where} computes ${computed} times, dependencies ${due ? 'changed' : 'are unchanged'}`);
            if (due) h.value = fresh;
            if (!Object.is(got, h.value)) ctx.fail(`${where} returns ${due ? 'an outdated value' : 'another value although its dependencies are unchanged'}`);
            h.deps = deps;
            ctx.count(due ? 'memo recomputed' : 'memo kept');
            break;
          }
          case 'ref': {
            const init = { n: iid };
            const ref = context.useRef(init);
            if (first) {
              if (ref.current !== init) ctx.fail(`${where} does not start with its initial value`);
              h.value = ref;
              h.current = init;
            }
            own(ref, 'the ref');
            if (ref !== h.value) ctx.fail(`${where} is a new object`);
            if (ref.current !== h.current) ctx.fail(`${where} lost its content`);
            if (rng.bool(0.3)) ref.current = h.current = { x: rng.int(9) };
            break;
          }
          case 'id': {
            const id = context.useId();
            if (first) {
              h.value = id;
              if (allIds.has(id)) ctx.fail(`${where}: id ${id} is already in use`);
              allIds.add(id);
              if (typeof id !== 'string' || !/^[A-Za-z][\w-]*$/.test(id)) ctx.fail(`${where}: id ${JSON.stringify(id)} is not usable as an element id`);
              ctx.count('ids');
            }
            if (id !== h.value) ctx.fail(`${where} changes from ${h.value} to ${id}`);
            break;
          }
          case 'state':
          case 'reducer': {
            let inits = 0;
            const init = () => { inits++; return iid * 100 + n; };
            const [v, f] = kind === 'state' ? context.useState(init) : context.useReducer((a, b) => a + b, init);
            if (inits !== (first ? 1 : 0)) ctx.fail(`${where} initialises its state ${inits} times`);
            if (first) h.value = f;
            own(f, 'the dispatcher');
            if (f !== h.value) ctx.fail(`${where}: its dispatcher changes identity`);
            if (v !== iid * 100 + n) ctx.fail(`${where} holds the state of another hook: ${v}`);
            break;
          }
          case 'effect':
            context.useEffect(() => {}, deps);
        }
        if (!first) ctx.count('identities kept');
      });
    };
    try {
      const n = rng.range(4, 10);
      const policy = rng.pick(POLICIES);
      for (let i = 0; i < n; i++) {
        const k = rng.bool(0.5) ? 1 : rng.range(2, 4);
        for (let j = 0; j < k; j++) {
          s.randomOp();
          while (rng.bool(0.3)) await s.step(policy);
        }
        await s.drain(policy);
        s.applyLog();
        s.check();
      }
      if (ctx.i < 2) ctx.sample(ctx.trace.slice(0, 8));
      return { sig: ctx.trace.join('\n') };
    } finally {
      await s.finish();
    }
  },
};

// A component that breaks the hook rules in some render.
async function misuse(ctx, B) {
  const { rng } = ctx;
  const host = makeHost(B);
  const runtime = new B.Runtime(host);
  const el = document.createElement('main');
  const root = new B.DOMRoot(el, runtime);
  const kinds = ['state', 'effect', 'id', 'memo'];
  const base = Array.from({ length: rng.range(1, 6) }, () => rng.pick(kinds));
  const bad = base.slice();
  const how = rng.pick(['replace', 'insert', 'remove', 'append', 'truncate', 'swap']);
  const at = rng.int(base.length);
  if (how === 'replace') bad[at] = rng.pick(kinds.filter((k) => k !== base[at]));
  if (how === 'insert') bad.splice(at, 0, rng.pick(kinds));
  if (how === 'remove') bad.splice(at, 1);
  if (how === 'append') bad.push(rng.pick(kinds));
  if (how === 'truncate') bad.length = at;
  if (how === 'swap') {
    const j = base.findIndex((k) => k !== base[at]);
    if (j < 0) bad.push('id');
    else [bad[at], bad[j]] = [bad[j], bad[at]];
  }
  ctx.note({ base, bad, how });
  const seen = [];
  let force;
  let list = base;
  const C = B.createComponent(function C() {
    force = (o) => this.forceUpdate(o);
    const got = list.map((k, n) => {
      switch (k) {
        case 'state': return this.useState(() => 'state' + n)[0];
        case 'effect': return this.useEffect(() => {}, []);
        case 'id': return this.useId();
        case 'memo': return this.useMemo(() => 'memo' + n, []);
      }
    });
    seen.push(got);
    return B.html`<p>${String(got)}</p>`;
  });
  await root.render([C({})], { flushSync: true }).finished;
  const before = el.innerHTML;
  list = bad;
  const via = rng.bool();
  const h = via ? root.render([C({})], { flushSync: rng.bool() }) : force({ flushSync: rng.bool() });
  let error = null;
  h.finished.then(() => { error = 'none'; }, (e) => { error = e; });
  await drain(host, rng);
  if (error === null) ctx.fail('an update with changed hooks never settles');
  if (error === 'none') ctx.fail(`changing the hooks from ${base} to ${bad} is not reported`);
  let cause = error;
  while (cause?.cause) cause = cause.cause;
  if (!(cause instanceof TypeError)) ctx.fail(`changed hooks are reported as ${cause}`, String(error?.stack));
  if (el.innerHTML !== before) ctx.fail('the DOM changed although the update was rejected');
  list = base;
  const h2 = via ? root.render([C({})], { flushSync: rng.bool() }) : force({ flushSync: rng.bool() });
  let ok = null;
  h2.finished.then(() => { ok = true; }, (e) => { ok = e; });
  await drain(host, rng);
  if (ok !== true) ctx.fail(`a correct render after the report fails: ${ok?.cause ?? ok}`);
  if (el.innerHTML !== before) ctx.fail(`hook data were mixed up: ${before} became ${el.innerHTML}`);
  ctx.count('hook misuse reported');
  return { sig: JSON.stringify([base, bad]) };
}

// A component whose memo computations throw in some renders.
async function throwing(ctx, B) {
  const { rng } = ctx;
  const host = makeHost(B);
  const runtime = new B.Runtime(host);
  const el = document.createElement('main');
  const root = new B.DOMRoot(el, runtime);
  const plan = Array.from({ length: rng.range(1, 6) }, () => [rng.pick(['memo', 'memo', 'ref', 'state']), rng.int(DEPS.length)]);
  ctx.note(plan);
  const shadow = plan.map(() => ({ deps: undefined, value: undefined, failed: false, identity: undefined }));
  const log = [];
  let force = null;
  let props = null;
  let state = 0;
  let bombs = new Set();
  let exploded = null;
  let first = true;
  const C = B.createComponent(function C() {
    force = (o) => this.forceUpdate(o);
    plan.forEach(([kind, dk], n) => {
      const h = shadow[n];
      const where = `hook ${n} (${kind}, deps kind ${dk})`;
      switch (kind) {
        case 'memo': {
          const deps = DEPS[dk](props, state);
          const due = first || changedDeps(h.deps, deps);
          const fresh = rng.pick([{}, undefined, null, 0, NaN]);
          let computed = 0;
          const got = this.useMemo(() => {
            computed++;
            if (bombs.has(n)) {
              exploded = new Error('bomb');
              h.failed = true;
              ctx.count('computations thrown');
              throw exploded;
            }
            return fresh;
          }, deps);
          if (computed !== (due ? 1 : 0)) ctx.fail(`${where} computes ${computed} times, dependencies ${due ? `changed since it last returned` : 'are unchanged'}${h.failed ? ' (it threw since)' : ''}`);
          if (due) h.value = fresh;
          if (!Object.is(got, h.value)) ctx.fail(`${where} returns an outdated value${h.failed ? ' after it threw' : ''}`);
          if (due && h.failed) ctx.count('recomputed after a throw');
          ctx.count(due ? 'memo recomputed' : 'memo kept');
          h.failed = false;
          h.deps = deps;
          break;
        }
        case 'ref': {
          const ref = this.useRef(n);
          if (first) h.identity = ref;
          if (ref !== h.identity || ref.current !== n) ctx.fail(`${where} is another object`);
          break;
        }
        case 'state': {
          const [s, set] = this.useState(() => n);
          if (first) h.identity = set;
          if (set !== h.identity || s !== n) ctx.fail(`${where} changes`);
          break;
        }
      }
    });
    first = false;
    log.push(state);
    return B.html`<p>${log.length}</p>`;
  });
  let mounted = false;
  const n = rng.range(6, 18);
  for (let i = 0; i < n; i++) {
    if (props === null || rng.bool()) props = { x: rng.int(2), child: OBJ[rng.int(2)] };
    if (rng.bool(0.6)) state = rng.int(5);
    bombs = new Set(plan.map((_, k) => k).filter(() => rng.bool(mounted ? 0.3 : 0.1)));
    exploded = null;
    if (!mounted) first = true;
    const options = { flushSync: rng.bool() };
    const h = mounted && rng.bool() ? force(options) : root.render([C({})], options);
    let result;
    h.finished.then(() => { result = 'ok'; }, (e) => { result = e; });
    await drain(host, rng);
    let cause = result;
    while (cause?.cause) cause = cause.cause;
    if (exploded === null ? result !== 'ok' : cause !== exploded) ctx.fail(`an update ${exploded ? 'whose computation throws' : ''} gives ${result}`);
    if (exploded === null) {
      mounted = true;
      if (el.textContent !== String(log.length)) ctx.fail('the render is not committed');
    }
  }
  ctx.count('histories with throwing computations');
  return { sig: JSON.stringify([plan, log]), nontrivial: mounted };
}

// Many instances over the life of a runtime: ids are never given out again.
async function crowd(ctx, B) {
  const { rng } = ctx;
  const host = rng.bool() ? makeHost(B) : new B.DOMAdapter();
  const runtime = new B.Runtime(host);
  const el = document.createElement('main');
  const root = new B.DOMRoot(el, runtime);
  const per = rng.range(1, 3);
  const mine = new Map();
  const C = B.createComponent(function C({ n }) {
    const key = this.useMemo(() => ({}), []);
    const got = Array.from({ length: per }, () => this.useId());
    if (!mine.has(key)) {
      for (const id of got) {
        if (allIds.has(id)) ctx.fail(`id ${id} is already in use (${mine.size} instances so far)`);
        allIds.add(id);
        ctx.count('ids of crowds');
      }
      mine.set(key, got.join());
    }
    if (mine.get(key) !== got.join()) ctx.fail(`the ids ${mine.get(key)} of an instance change to ${got}`);
    return B.html`<i id=${got[0]}>${n}</i>`;
  });
  let next = 0;
  let list = [];
  for (let k = rng.range(2, 6); k > 0; k--) {
    list = rng.shuffle(list).slice(0, rng.int(list.length + 1));
    for (let m = rng.range(1, 120); m > 0; m--) list.push(next++);
    await root.render(list.map((n) => C({ n }).withKey(n)), { flushSync: true }).finished;
  }
  const ids = [...el.querySelectorAll('i')].map((e) => e.id);
  if (new Set(ids).size !== list.length) ctx.fail(`${list.length} components show ${new Set(ids).size} ids`);
  await root.unmount({ flushSync: true }).finished;
  ctx.max('instances in a crowd', mine.size);
  return { sig: `crowd ${next} ${per}` };
}
