import { Session } from '../lib/session.mjs';
import { show, genSpec, mutateList, withKey, TEMPLATES, COMPONENTS, KEY_POOL } from '../lib/app.mjs';

const POLICIES = ['fifo', 'random', 'priority', 'lowfirst', 'lifo'];
const T = (name) => TEMPLATES.find((t) => t.name === name);
const ITEM_TEMPLATES = ['item', 'multi', 'box', 'only', 'duo', 'tri', 'empty', 'para'].map(T);

export default {
  id: 'C02',
  technique: 'runtime monitoring: element and instance identities recorded across random histories, checked against a reference reconciliation',
  note: 'Random exploration in jsdom; lists up to 12 items with keys of all kinds incl. NaN, null, objects and symbols; identity judged by element reference and per-instance ids.',
  rule:
    'A case is a history of random edits of one or two roots (half of the cases: one keyed or unkeyed list under permutation, insertion, removal, rekeying; ' +
    'half: arbitrary trees) with component state. After each quiescent point every element and component instance is compared with the identity that type and key call for. ' +
    'Non-trivial: elements were found kept.',
  quick: { cases: 6000, secs: 240 },
  thorough: { cases: 200000, secs: 600 },
  require: { compared: 2000, 'kept elements': 10000, 'moved or kept list edits': 1000 },
  minDistinct: 200,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const listMode = rng.bool(0.55);
    const s = new Session(ctx, B, { roots: listMode ? 1 : rng.range(1, 2), foreign: rng.bool(0.2), depth: rng.range(2, 4), budget: rng.range(5, 16), inRender: true, identity: true, unmounts: 0.2 });
    try {
      const policy = rng.pick(POLICIES);
      ctx.note({ listMode, policy });
      const n = rng.range(5, 12);
      const sig = [];
      let list = null;
      const st = { ...s.roots[0].st, templates: rng.bool(0.6) ? [rng.pick(ITEM_TEMPLATES)] : undefined };
      const wrapIn = rng.int(3);
      for (let i = 0; i < n; i++) {
        const k = rng.bool(0.25) ? rng.range(2, 4) : 1;
        for (let j = 0; j < k; j++) {
          if (listMode && rng.bool(0.7)) {
            const r = s.roots[0];
            const fresh = { ...st, budget: 10 };
            if (list === null) {
              list = { k: 'f', items: [], key: undefined, keyed: rng.bool(0.8), how: rng.int(4) };
              const keys = rng.shuffle(KEY_POOL);
              const m = rng.range(2, 9);
              for (let q = 0; q < m; q++) {
                let it = genSpec(rng, fresh, 2);
                if (rng.bool(0.4)) it = { k: 'c', c: rng.pick(COMPONENTS), props: { x: q, child: it }, key: undefined };
                list.items.push(withKey(it.k === 'e' ? { k: 'b', v: it.v } : it, list.keyed ? keys[q] : undefined));
              }
            } else list = mutateList(rng, fresh, list, 2);
            let spec = list;
            if (wrapIn === 1) spec = { k: 't', def: T('box'), h: [list], key: undefined };
            if (wrapIn === 2) spec = { k: 't', def: T('tri'), h: [list, { k: 'e', v: null }, { k: 't', def: T('static'), h: [] }], key: undefined };
            s.render(r, s.place(r, spec), s.randomOptions());
            ctx.count('moved or kept list edits');
          } else if (listMode) {
            const live = s.stateful();
            if (live.length > 0) s.dispatch(rng.pick(live), rng.range(1, 9), s.randomOptions());
          } else s.randomOp();
          while (rng.bool(0.3)) await s.step(policy);
        }
        await s.drain(policy);
        s.applyLog();
        s.check();
        ctx.count('compared');
        sig.push(s.roots.map((r) => (r.spec ? show(r.spec) : '-')).join('|'));
      }
      ctx.count('kept elements', s.cmp.keptEls);
      ctx.count('elements', s.cmp.checkedEls);
      ctx.count('kept model nodes', s.ms.kept);
      if (ctx.i < 3) ctx.sample({ listMode, policy, history: ctx.trace.slice(0, 6) });
      return { sig: sig.join('\n'), nontrivial: s.cmp.keptEls > 0 };
    } finally {
      await s.finish();
    }
  },
};
