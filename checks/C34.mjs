import { makeHost, micro } from '../lib/sched.mjs';
import { Forest, POLICIES } from '../lib/forest.mjs';
import { checkVisible } from './C14.mjs';

export default {
  id: 'C34',
  technique: 'runtime monitoring: after every turn of a virtual host no update with flushSync may be unsettled unless another commit is under way; host requests are recorded while each update is requested',
  note: 'Random exploration; how updates without flushSync are ordered is the subject of C16.',
  rule:
    'A case is a random forest over 1-3 roots with 10-60 requests from outside, effects, cleanups, refs, listeners, continuations and commit handlers, a third of them with flushSync, alone or combined with a priority, a transition, a delay or a handler, while the host runs the callbacks of the other updates in any order with random pauses. ' +
    'Whenever microtasks have run and no batch is waiting for its frame or its handler, every flushSync update requested so far has settled and is in the DOM; none of them asks the host for a callback. Non-trivial: a flushSync update was requested while updates sharing one of its lanes were waiting.',
  quick: { cases: 3500, secs: 240 },
  thorough: { cases: 300000, secs: 600 },
  require: {
    'sync updates': 25000, 'sync updates with a transition': 4000, 'sync updates with a priority': 3000, 'sync updates with a delay': 2000, 'sync updates with a handler': 1500, 'turns without open sync updates': 20000, 'turns with a waiting batch': 3000,
    'sync updates behind a waiting batch': 1000, 'sync updates sharing lanes': 3000, 'sync updates in the DOM': 10000, 'sync updates from effects': 2000, 'sync updates from cleanups': 150, 'sync updates from handlers': 50,
  },
  minDistinct: 1500,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const host = makeHost(B, { taskPriority: () => rng.pick(['user-blocking', 'user-visible', 'background']) });
    const forest = new Forest(ctx, B, host, { budget: rng.range(10, 60) });
    let nontrivial = false;
    const base = forest.options.bind(forest);
    forest.options = () => {
      if (rng.bool(0.7)) return base();
      const o = { flushSync: true };
      if (rng.bool(0.4)) o.transition = rng.int(3);
      if (rng.bool(0.3)) o.priority = rng.pick(['user-blocking', 'user-visible', 'background']);
      if (rng.bool(0.2)) o.delay = rng.pick([10, 500]);
      if (rng.bool(0.15)) o.handler = (commit) => commit();
      return o;
    };
    const sync = (req) => req.options?.flushSync === true;
    const waiting = () => host.tasks.some((t) => t.kind !== 'task');
    let asked = 0;
    host.onRequest = (entry) => { if (entry.kind === 'task') asked++; };
    forest.onRequest = (req) => {
      asked = 0;
      if (!sync(req)) return;
      const o = req.options;
      ctx.count('sync updates');
      ctx.count(`sync updates from ${req.origin}`);
      for (const k of ['transition', 'priority', 'delay', 'handler']) if (o[k] !== undefined) ctx.count('sync updates with a ' + k);
      if ([...forest.open].some((r) => !sync(r) && r !== req && r.options && ['transition', 'priority', 'delay'].some((k) => o[k] !== undefined && r.options[k] === o[k]))) {
        ctx.count('sync updates sharing lanes');
        nontrivial = true;
      }
      if (waiting()) ctx.count('sync updates behind a waiting batch');
    };
    forest.onRequested = (req) => {
      if (sync(req) && asked > 0) ctx.fail(`a callback is requested from the host for ${forest.describe(req)}`);
    };
    forest.onSettled = (req) => {
      if (!sync(req)) return;
      checkVisible(ctx, forest, req);
      ctx.count('sync updates in the DOM');
    };
    forest.onFailed = (req, e) => ctx.fail(`update rejected: ${forest.describe(req)}: ${e?.message}`, String(e?.cause?.stack ?? e?.stack ?? e));
    forest.onIdle = () => {
      if (ctx.first) throw ctx.first;
      if (waiting()) {
        ctx.count('turns with a waiting batch');
        return;
      }
      for (const req of forest.open) {
        if (sync(req)) ctx.fail(`not committed although microtasks have run and no batch is waiting: ${forest.describe(req)}`, forest.log.join(' ') + '\n' + host.tasks.map((t) => JSON.stringify(t.options)).join(' '));
      }
      ctx.count('turns without open sync updates');
    };
    await forest.run(rng.pick(POLICIES));
    await micro();
    forest.onIdle();
    forest.dispose();
    if (ctx.i < 2) ctx.sample(forest.log.slice(0, 60).join(' '));
    return { sig: forest.log.join(' '), nontrivial };
  },
};
