import { makeHost } from '../lib/sched.mjs';
import { Forest, POLICIES } from '../lib/forest.mjs';
import { observe } from '../lib/observe.mjs';

export default {
  id: 'C15',
  technique: 'runtime monitoring: a mutation observer is read at every render, commit, microtask and task boundary, and the place of each commit is checked against an online specification',
  note: 'Random exploration in jsdom; commit handlers call their commit function exactly once; direct DOM changes by effects are not part of the workload.',
  rule:
    'A case is the forest workload of C14. Mutation records of the document are drained at the start and end of every component render and update preparation, at every commit, and in microtasks and tasks in between: records may only appear between the first and the last commit of a batch, ' +
    'which happen without a microtask in between and together cover all updates of the batch. Each batch is committed inside a commit callback of the host, or in the microtask that rendered it if it contains a flushSync update, or inside the commit call of the handler of its only update. Non-trivial: some batch has several updates and changes the document.',
  quick: { cases: 3500, secs: 240 },
  thorough: { cases: 200000, secs: 600 },
  require: {
    'renders without mutations': 100000, 'batches of several updates': 4000, 'batches committed by the host': 10000, 'batches committed synchronously': 5000, 'batches committed by a handler': 1500, 'microtask probes': 100000, 'batches that change the document': 15000, 'handlers combined with flushSync': 200,
  },
  minDistinct: 2000,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const host = makeHost(B, { taskPriority: () => rng.pick(['user-blocking', 'user-visible', 'background']) });
    let commitTask = 0; // depth of host commit callbacks
    host.onRun = (e) => { if (e.kind === 'commit') commitTask++; };
    host.onRan = (e) => { if (e.kind === 'commit') commitTask--; };
    let multi = false;
    let watch;
    let batch = null; // { updates: Set, state: 'rendering'|'committing', tick }
    let tick = 0; // number of microtask boundaries seen
    const forest = new Forest(ctx, B, host);
    watch = observe(forest.stage);
    const quiet = (where) => {
      const r = watch.take();
      if (r.length > 0) {
        const m = r[0];
        ctx.fail(`the document changed outside of a commit, seen ${where}: ${m.type} of ${m.target.nodeName} ${m.attributeName ?? ''}`, forest.log.slice(-40).join(' '));
      }
    };
    const boundary = () => {
      queueMicrotask(() => {
        tick++;
        probe('in a microtask');
      });
    };
    const settleBatch = (where) => {
      if (batch?.state !== 'committing') return;
      // The synchronous step is over: everything must have been applied in it.
      const r = watch.take();
      const left = [...batch.updates].filter((u) => !batch.done.has(u));
      if (left.length > 0) ctx.fail(`a batch is applied partially, seen ${where}: update ${left[0].id} is still to be committed`, forest.log.slice(-60).join(' '));
      if (r.length > 0) ctx.count('batches that change the document');
      if (batch.updates.size > 1) {
        ctx.count('batches of several updates');
        if (r.length > 0) multi = true;
      }
      batch = null;
    };
    const probe = (where) => {
      ctx.count('microtask probes');
      settleBatch(where);
      quiet(where);
    };
    forest.onP = (u) => {
      settleBatch('at the next batch');
      quiet('before an update is prepared');
      if (batch === null || batch.state !== 'rendering') {
        batch = { updates: new Set(), done: new Set(), state: 'rendering', tick, seq: forest.nextReq };
        boundary();
      }
      if (batch.tick !== tick) ctx.fail(`update ${u.id} is rendered in another microtask than the rest of its batch`);
      batch.updates.add(u);
      const req = forest.byId.get(u.id);
      if (req) req.prepared = true;
    };
    forest.onPEnd = () => quiet('after an update has been prepared');
    forest.onR = (cell, when) => {
      quiet(`at the ${when} of the render of cell ${cell.n}`);
      cell.renderedAt = forest.log.length;
      ctx.count('renders without mutations');
    };
    forest.onC = (u) => {
      if (batch === null) return ctx.fail(`commit of update ${u.id} without a batch`, forest.log.slice(-40).join(' '));
      if (!batch.updates.has(u)) return ctx.fail(`update ${u.id} is committed with a batch it does not belong to`, forest.log.slice(-60).join(' '));
      if (batch.state === 'rendering') {
        quiet('before a commit');
        batch.state = 'committing';
        const reqs = [...batch.updates].map((x) => forest.byId.get(x.id)).filter(Boolean);
        // An update whose component has been rendered by another update is part
        // of a batch without being rendered itself.
        const joined = () => [...forest.open].some((r) => r.options?.flushSync && r.cell && r.n < batch.seq && !r.prepared && r.cell.renderedAt > r.at);
        const sync = reqs.some((r) => r.options?.flushSync) || (commitTask === 0 && !forest.handling && joined());
        const handled = reqs.filter((r) => r.options?.handler && !r.options.flushSync);
        const shown = () => reqs.map((r) => forest.describe(r)).join('\n');
        if (sync) {
          if (batch.tick !== tick) ctx.fail('flushSync updates are committed in another microtask than the one in which they are rendered', shown());
          if (commitTask > 0 || forest.handling) ctx.fail('flushSync updates are committed by a callback', shown());
          if (handled.length > 0) ctx.fail('an update with a handler is committed together with sync updates', shown());
          ctx.count('batches committed synchronously');
          if (reqs.some((r) => r.options?.handler)) ctx.count('handlers combined with flushSync');
        } else if (handled.length > 0) {
          if (forest.handling !== handled[0]) ctx.fail('an update with a handler is committed outside of the commit call of its handler', shown());
          if (batch.updates.size > 1) ctx.fail('an update with a handler shares its batch', shown());
          ctx.count('batches committed by a handler');
        } else {
          if (commitTask !== 1) ctx.fail('a batch is committed outside of the host commit callback', shown() + '\n' + forest.log.slice(-40).join(' '));
          if (forest.handling) ctx.fail('a batch is committed in a handler of another update', shown());
          ctx.count('batches committed by the host');
        }
        batch.ctick = tick;
        boundary();
      }
      if (batch.ctick !== tick) ctx.fail(`a microtask runs between the commits of a batch, before update ${u.id}`);
      if (batch.done.has(u)) ctx.fail(`update ${u.id} is committed twice`);
      batch.done.add(u);
    };
    forest.onSettled = (req) => {
      // Microtasks must not observe a partial batch, not even this one.
      probe('when an update finishes');
      if (req.options?.handler && !req.options.flushSync) {
        if ((req.handlerCalls ?? 0) > 1) ctx.fail(`the handler of an update is called ${req.handlerCalls} times: ${forest.describe(req)}`);
        if (req.handlerCalls === 1 && !req.handlerCommitted) ctx.fail(`update finishes before its handler committed: ${forest.describe(req)}`);
      }
      if (req.options?.handler && req.options.flushSync && req.handlerCalls) ctx.fail(`the handler of a flushSync update is called: ${forest.describe(req)}`);
    };
    forest.onRequest = (req) => {
      req.at = forest.log.length;
      if (batch?.state !== 'committing') quiet('when an update is requested');
    };
    forest.onFailed = (req, e) => ctx.fail(`update rejected: ${forest.describe(req)}: ${e?.message}`, String(e?.cause?.stack ?? e?.stack ?? e));
    forest.onStep = () => {
      probe('between tasks');
      if (rng.bool(0.3)) Promise.resolve().then(() => probe('in a microtask'));
    };
    await forest.run(rng.pick(POLICIES));
    probe('at the end');
    watch.stop();
    forest.dispose();
    if (ctx.i < 2) ctx.sample(forest.log.slice(0, 60).join(' '));
    return { sig: forest.log.join(' '), nontrivial: multi };
  },
};
