import { Session } from '../lib/session.mjs';
import { show } from '../lib/app.mjs';

const POLICIES = ['fifo', 'random', 'priority', 'lowfirst', 'lifo'];
export default {
  id: 'C01',
  technique: 'runtime monitoring: real runtime and DOM under random histories and host schedules, DOM compared with a reference model',
  note: 'Random exploration in jsdom; trees up to about 60 nodes, histories up to about 14 groups of updates; four build/host configurations.',
  rule:
    'A case is a random application (templates, lists with unique, repeated or no keys, components, portals, 1-2 roots) with a history of 6-18 random edits, ' +
    'state updates, unmounts and remounts, awaited one by one or issued in overlapping groups under a random host schedule. After each quiescent ' +
    'point the DOM is compared node for node with the DOM denoted by the last committed value. Non-trivial: at least 3 edits were compared.',
  quick: { cases: 6000, secs: 240 },
  thorough: { cases: 200000, secs: 600 },
  require: { compared: 2000, 'batches of several updates': 200, elements: 10000 },
  minDistinct: 200,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const s = new Session(ctx, B, { roots: rng.range(1, 2), foreign: rng.bool(0.3), depth: rng.range(2, 4), budget: rng.range(5, 18), inRender: true, dups: rng.bool(0.4) });
    try {
      const concurrent = rng.bool(0.5);
      const n = rng.range(6, 14);
      const policy = rng.pick(POLICIES);
      ctx.note({ concurrent, policy });
      const sig = [];
      for (let i = 0; i < n; i++) {
        if (concurrent) {
          const k = rng.range(1, 5);
          for (let j = 0; j < k; j++) {
            s.randomOp();
            while (rng.bool(0.5)) await s.step(policy);
          }
        } else {
          s.randomOp();
        }
        await s.drain(policy);
        s.applyLog();
        s.check();
        ctx.count('compared');
        sig.push(s.roots.map((r) => (r.spec ? show(r.spec) : '-')).join('|'));
      }
      ctx.count('batches', s.batches);
      if (s.maxBatch > 1) ctx.count('batches of several updates');
      ctx.count('elements', s.cmp.checkedEls);
      ctx.count('component renders', s.world.renders);
      if (ctx.i < 3) ctx.sample({ concurrent, policy, history: ctx.trace.slice(0, 6) });
      return { sig: sig.join('\n'), nontrivial: n >= 3 };
    } finally {
      await s.finish();
    }
  },
};
