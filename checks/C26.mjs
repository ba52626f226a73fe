import { makeHost } from '../lib/sched.mjs';
import { Forest, POLICIES } from '../lib/forest.mjs';

const is = Object.is;

export default {
  id: 'C26',
  technique: 'runtime monitoring: tagged callbacks, handles and refs record which render they belong to; effects placed around the hooks follow what is committed and an online checker compares every call and every ref after each turn of a virtual host',
  note: 'Random exploration; a ref belongs to one hook at a time and is not written by others.',
  rule:
    'A case is a forest of components over 1-3 roots using EffectEvent and ImperativeHandle up to twice, with callbacks and factories of every render (fresh, stable, alternating), object refs, function refs with and without cleanup, and no ref at all, replaced at random, with or without dependencies that change at random, under random host schedules. Effect events of any earlier render are called from outside, effects, cleanups, refs, listeners and other events with random this values, arguments, results and exceptions. ' +
    'Each call reaches the callback of the latest committed render exactly once; handles are created once by committed renders whose dependencies or ref changed and by no other, and refs hold them from then until replaced or unmounted. Non-trivial: an event of an older render was called while a newer render was waiting for its commit.',
  quick: { cases: 1800, secs: 240 },
  thorough: { cases: 180000, secs: 600 },
  require: {
    'calls': 50000, 'calls from outside': 10000, 'calls from effects': 5000, 'calls from cleanups': 500, 'calls from refs': 1000, 'calls from listeners': 300, 'calls from callbacks': 1000, 'calls of earlier renders': 4000, 'calls while a newer render waits': 500, 'calls that throw': 1000, 'calls after unmounting': 500, 'calls before the mount': 100,
    'handles created': 20000, 'handles kept': 3000, 'refs replaced': 2000, 'object refs': 8000, 'function refs': 4000, 'function refs cleaned up': 1500, 'refs compared': 40000, 'refs cleared by unmounting': 2000, 'hooks without a ref': 1000,
  },
  minDistinct: 400,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const host = makeHost(B, { taskPriority: () => rng.pick(['user-blocking', 'user-visible', 'background']) });
    const forest = new Forest(ctx, B, host, { budget: rng.range(5, 35) });
    let nontrivial = false;
    let serial = 1;
    let rendering = 0;
    let budget = 120;
    let depth = 0;
    const events = []; // every event hook ever used: { cell, fns, committed, rendered }
    const handles = [];
    const waiting = () => host.tasks.some((t) => t.kind !== 'task');
    let expecting = null;
    const call = (origin, hook = rng.pick(events)) => {
      if (!hook || rendering > 0 || budget <= 0 || depth > 3) return;
      budget--;
      const early = hook.committed === null && !hook.ended;
      // Before the mount the callback of any of its renders may be called.
      const want = hook.committed;
      const k = rng.int(3) === 0 ? rng.int(hook.fns.length) : hook.fns.length - 1;
      const fn = hook.fns[k];
      const self = rng.pick([undefined, null, 1, 'x', { self: 1 }, hook]);
      const args = Array.from({ length: rng.int(4) }, () => rng.pick([serial++, undefined, {}, NaN]));
      const outer = expecting;
      const e = { hook, want, self, args, throws: rng.bool(0.1) ? new Error('callback') : null, result: rng.pick([undefined, serial++, {}, null]), calls: 0, how: `${origin}, cell ${hook.cell.n}` };
      expecting = e;
      depth++;
      let got, thrown = null;
      try {
        got = Reflect.apply(fn, self, args);
      } catch (x) {
        thrown = x;
      }
      depth--;
      expecting = outer;
      if (e.calls !== 1) ctx.fail(`an effect event makes ${e.calls} calls (${e.how})`, forest.log.slice(-80).join(' '));
      if (thrown !== e.throws) ctx.fail(`an effect event throws ${thrown} instead of ${e.throws}`, String(thrown?.stack));
      if (thrown === null && !is(got, e.result)) ctx.fail(`an effect event returns ${String(got)} instead of the callback's result`);
      ctx.count('calls');
      ctx.count('calls from ' + origin);
      if (thrown !== null) ctx.count('calls that throw');
      if (k < hook.fns.length - 1) ctx.count('calls of earlier renders');
      if (hook.ended) ctx.count('calls after unmounting');
      if (early) ctx.count('calls before the mount');
      if (waiting() && hook.rendered !== hook.committed) {
        ctx.count('calls while a newer render waits');
        if (k < hook.fns.length - 1) nontrivial = true;
      }
    };
    const makeCallback = (cell) => {
      const cb = function (...args) {
        const e = expecting;
        if (e === null) ctx.fail(`the callback of cell ${cell.n} is called by nobody`);
        if (e.want === null ? e.hook.cell !== cell : e.want !== cb) ctx.fail(`the effect event calls callback ${cb.n} instead of ${e.want?.n} (${e.how})`, forest.log.slice(-80).join(' '));
        e.calls++;
        if (args.length !== e.args.length || args.some((a, i) => !is(a, e.args[i]))) ctx.fail(`the callback gets other arguments (${e.how})`);
        if (!is(this, e.self)) ctx.fail(`the callback gets another this (${e.how})`);
        if (rng.bool(0.1)) call('callbacks');
        if (e.throws !== null) throw e.throws;
        return e.result;
      };
      cb.n = serial++;
      return cb;
    };
    const makeRef = () => {
      const kind = rng.weighted([[5, 'object'], [2, 'cleanup'], [1.5, 'plain'], [0.7, 'none']]);
      const ref = { kind, n: serial++, current: null, gets: 0, cleanups: 0 };
      if (kind === 'none') ref.value = rng.pick([null, undefined]);
      else if (kind === 'object') {
        ref.value = rng.bool() ? { current: null } : new (class { current = null; })();
        ref.unused = ref.value.current = rng.bool(0.2) ? 'unused' : null;
      }
      else {
        ref.value = (handle) => {
          if (rendering > 0) ctx.fail('a ref is called during rendering');
          ref.gets++;
          ref.current = handle;
          if (kind === 'plain') return undefined;
          let done = false;
          return (...args) => {
            if (done) ctx.fail('the cleanup of a ref is called twice');
            if (args.length > 0) ctx.fail('the cleanup of a ref gets arguments');
            if (ref.current !== handle) ctx.fail('the cleanup of a ref is called after the ref got another handle');
            done = true;
            ref.current = null;
            ref.cleanups++;
            ctx.count('function refs cleaned up');
          };
        };
      }
      return ref;
    };
    const read = (ref) => (ref.kind === 'object' ? ref.value.current : ref.current);
    const depPool = [0, -0, NaN, 1, 'a', null, undefined, {}];
    const sameDeps = (a, b) => a !== undefined && b !== undefined && a.length === b.length && a.every((x, i) => is(x, b[i]));
    forest.useMore = (context, cell) => {
      cell.uses ??= Array.from({ length: rng.range(1, 3) }, () => {
        if (rng.bool()) {
          const hook = { kind: 'event', cell, fns: [], committed: null, rendered: null, ended: false };
          events.push(hook);
          return hook;
        }
        const hook = { kind: 'handle', cell, ref: makeRef(), refs: [], deps: undefined, hasDeps: rng.bool(0.75), committed: null, since: [], ended: false, created: 0 };
        hook.deps = hook.hasDeps ? Array.from({ length: rng.int(3) }, () => rng.pick(depPool)) : undefined;
        handles.push(hook);
        return hook;
      });
      for (const hook of cell.uses) {
        if (hook.kind === 'event') {
          const cb = hook.rendered === null || rng.bool(0.7) ? makeCallback(cell) : rng.bool(0.3) && hook.committed ? hook.committed : hook.rendered;
          hook.rendered = cb;
          const fn = context.use(B.EffectEvent(cb));
          if (typeof fn !== 'function') ctx.fail('EffectEvent returns ' + typeof fn);
          if (hook.fns.length < 6) hook.fns.push(fn);
          else hook.fns[5] = fn;
          context.useEffect(() => {
            hook.committed = cb;
            forest.ev(`cb${cell.n}:${cb.n}`);
          });
          context.useEffect(() => () => { hook.ended = true; }, []);
          continue;
        }
        if (rng.bool(0.2)) hook.ref = makeRef();
        if (hook.hasDeps && rng.bool(0.3)) hook.deps = hook.deps.map((d) => (rng.bool() ? rng.pick(depPool) : d));
        const { ref } = hook;
        const deps = hook.deps?.slice();
        const given = deps?.slice();
        if (!hook.refs.includes(ref)) hook.refs.push(ref);
        const render = { ref, deps, handle: null };
        hook.since.push(render);
        let before = 0;
        context.useEffect(() => { before = hook.created; });
        const create = (...args) => {
          if (args.length > 0) ctx.fail('createHandle() gets arguments');
          if (rendering > 0) ctx.fail('createHandle() is called during rendering');
          hook.created++;
          ctx.count('handles created');
          render.handle = rng.bool(0.9) ? { n: serial++ } : serial++;
          return render.handle;
        };
        const result = context.use(given === undefined && rng.bool() ? B.ImperativeHandle(ref.value, create) : B.ImperativeHandle(ref.value, create, given));
        if (result !== undefined) ctx.fail('ImperativeHandle returns a value');
        if (given !== undefined && (given.length !== deps.length || given.some((d, i) => !is(d, deps[i])))) ctx.fail('ImperativeHandle modifies the dependencies given');
        context.useEffect(() => {
          const n = hook.created - before;
          const last = hook.committed;
          const changed = (r) => last === null || r.ref.value !== last.ref.value || !sameDeps(r.deps, last.deps);
          const must = changed(render);
          const may = hook.since.some(changed); // also by a render that was superseded
          hook.since = [];
          const none = ref.kind === 'none';
          if (n > 1 || (none && n > 0) || (!none && must && n === 0) || (!may && n > 0)) ctx.fail(`cell ${cell.n} creates ${n} handles${must ? ' although its dependencies or ref changed' : may ? '' : ' although nothing changed'} (${ref.kind} ref)`, forest.log.slice(-60).join(' '));
          if (n === 0 && last !== null && !none) {
            render.handle = last.handle;
            ctx.count('handles kept');
          }
          if (last !== null && last.ref !== ref) ctx.count('refs replaced');
          if (none) ctx.count('hooks without a ref');
          else ctx.count(ref.kind === 'object' ? 'object refs' : 'function refs');
          hook.committed = render;
          ref.unused = null;
          check(hook, 'in its effects');
        });
        context.useEffect(() => () => { hook.ended = true; }, []);
      }
    };
    const check = (hook, when) => {
      for (const ref of hook.refs) {
        if (ref.kind === 'none' || ref.kind === 'plain') {
          if (ref.kind === 'plain' && ref === hook.committed?.ref && !hook.ended && ref.current !== hook.committed.handle) ctx.fail(`a function ref of cell ${hook.cell.n} has not got the latest handle ${when}`);
          continue;
        }
        const want = hook.committed?.ref === ref && !hook.ended ? hook.committed.handle : ref.unused ?? null;
        if (read(ref) !== want) ctx.fail(`a ref (${ref.kind}) of cell ${hook.cell.n} holds ${JSON.stringify(read(ref))} instead of ${JSON.stringify(want)} ${when}`, forest.log.slice(-80).join(' '));
        if (ref.kind === 'cleanup' && ref.gets - ref.cleanups !== (want === null ? 0 : 1)) ctx.fail(`a function ref of cell ${hook.cell.n} has been called ${ref.gets} times and cleaned up ${ref.cleanups} times ${when}`);
        ctx.count('refs compared');
        if (hook.ended && want === null) ctx.count('refs cleared by unmounting');
      }
    };
    const watch = () => {
      if (ctx.first) throw ctx.first;
      for (const hook of handles) {
        if (hook.done) continue;
        check(hook, 'after a turn');
        if (hook.ended) hook.done = true;
      }
    };
    forest.onR = (cell, when) => { if (when === 'start') rendering++; else rendering--; };
    forest.onFailed = (req, e) => ctx.fail(`update rejected: ${forest.describe(req)}: ${e?.message}`, String(e?.cause?.stack ?? e?.stack ?? e));
    forest.onIdle = watch;
    forest.onEffect = (cell, kind) => {
      const own = cell.uses.filter((h) => h.kind === 'event');
      if (rng.bool(0.3)) call(kind === 'unmount' ? 'cleanups' : 'effects', own.length > 0 && rng.bool() ? rng.pick(own) : undefined);
    };
    const inner = forest.within.bind(forest);
    forest.within = (o, f) => inner(o, () => {
      f();
      if (o === 'refs' || o === 'listeners' || o === 'handlers' || o === 'continuations') if (rng.bool(o === 'refs' ? 0.1 : 0.5)) call(o);
    });
    forest.onStep = () => {
      budget = 120;
      for (let k = rng.int(4); k > 0; k--) call('outside');
    };
    await forest.run(rng.pick(POLICIES));
    watch();
    forest.dispose();
    if (ctx.i < 2) ctx.sample(forest.log.slice(0, 60).join(' '));
    return { sig: forest.log.join(' '), nontrivial };
  },
};
