import { makeHost, micro } from '../lib/sched.mjs';
import { Forest, POLICIES } from '../lib/forest.mjs';

const ids = (s) => (s ? s.split(',').map(Number) : []);

// What is in the DOM when `finished` of a request fulfils.
export function checkVisible(ctx, forest, req) {
  const describe = forest.describe(req);
  if (req.kind === 'render' || req.kind === 'unmount') {
    const { container, shown } = req.root;
    const header = container.querySelector(':scope > header');
    const gen = header ? Number(header.getAttribute('data-gen')) : null;
    if (!req.committed) ctx.fail(`finished without having been committed: ${describe}`);
    if (gen !== shown) ctx.fail(`finished, but the root shows generation ${gen} instead of ${shown}: ${describe}`, container.outerHTML);
    if (gen === null && container.firstChild !== null) ctx.fail(`unmounted root is not empty: ${describe}`, container.outerHTML);
    ctx.count(`finished ${req.kind}s found in the DOM`);
    return;
  }
  const { cell } = req;
  if (!cell.mounted) {
    ctx.count('finished updates of unmounted components');
    return;
  }
  const el = cell.el;
  if (!el?.isConnected) ctx.fail(`mounted cell ${cell.n} is not in the document: ${describe}`, forest.log.join(' ') + '\n' + el?.outerHTML + '\n' + forest.stage.outerHTML);
  if (req.kind === 'send') {
    const list = ids(el.getAttribute('data-list'));
    if (!list.includes(req.n)) ctx.fail(`finished, but the cell shows [${list}]: ${describe}`, forest.stage.innerHTML);
    ctx.count('finished actions found in the DOM');
  } else {
    const ext = Number(el.getAttribute('data-ext'));
    if (ext < req.ext) ctx.fail(`finished, but the cell shows ext ${ext} instead of ${req.ext}: ${describe}`, forest.stage.innerHTML);
    ctx.count('finished forced updates found in the DOM');
  }
}

export default {
  id: 'C14',
  technique: 'runtime monitoring: every update handle is tracked to its settlement and the DOM is inspected at the very moment it settles, under a virtual host that runs its callbacks in any order',
  note: 'Random exploration; commit handlers always call their commit function once. The DOM adapter with real timers is used in a few cases only (C31 covers it).',
  rule:
    'A case is a random forest over 1-3 roots with 8-50 requests (renders, unmounts, dispatched actions, forced updates with any combination of lanes) issued from outside, effects, cleanups, refs, listeners, continuations and commit handlers, ' +
    'while the host runs its callbacks in FIFO, LIFO, priority, inverse priority or random order with random pauses. When the host has run out of callbacks every promise must have fulfilled, each with its effect in the DOM at that moment; ' +
    'components never render after they were unmounted; at rest everything requested is visible. In some cases components throw now and then; those updates have to be rejected with what was thrown. step() is called now and then: it waits for one of the open updates, and answers false only if there is none. Non-trivial: at least two updates were open at once.',
  quick: { cases: 4500, secs: 240 },
  thorough: { cases: 300000, secs: 600 },
  require: {
    'updates settled': 40000, 'finished actions found in the DOM': 10000, 'finished renders found in the DOM': 8000, 'finished forced updates found in the DOM': 2000, 'finished updates of unmounted components': 800,
    'steps awaited': 8000, 'steps without updates': 1000, 'requests from effects': 2000, 'requests from cleanups': 300, 'requests from refs': 500, 'requests from listeners': 1000, 'requests from continuations': 2000, 'requests from handlers': 100, 'real adapters': 5, 'updates rejected with a thrown error': 300,
  },
  minDistinct: 3000,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const real = rng.bool(0.004);
    const host = real ? new B.DOMAdapter() : makeHost(B, { taskPriority: () => rng.pick(['user-blocking', 'user-visible', 'background']) });
    if (real) {
      host.tasks = [];
      ctx.count('real adapters');
    }
    const forest = new Forest(ctx, B, host, real ? { budget: 12 } : {});
    if (real) {
      host._push = (kind, f) => new Promise((resolve, reject) => setTimeout(() => { try { resolve(f()); } catch (e) { reject(e); } }, 2));
    }
    // In some cases components throw now and then: their updates have to settle, too.
    const failing = !real && rng.bool(0.08);
    const thrown = new Set();
    forest.onR = (cell, phase) => {
      if (failing && phase === 'start' && rng.bool(0.06)) {
        const error = new Error('failing render');
        thrown.add(error);
        ctx.count('renders that throw');
        throw error;
      }
      if (cell.gone) ctx.fail(`cell ${cell.n} renders although it is unmounted`);
    };
    forest.onRequest = (req) => ctx.count(`requests from ${req.origin}`);
    forest.onSettled = (req, v) => {
      ctx.count('updates settled');
      if (v !== undefined) ctx.fail(`finished fulfils with ${String(v)}`);
      // C17 tells what is shown after failures.
      if (thrown.size > 0) return;
      checkVisible(ctx, forest, req);
      if (rng.bool(0.1)) {
        // Nothing may undo it later in the same turn.
        queueMicrotask(() => checkVisible(ctx, forest, req));
      }
    };
    forest.onFailed = (req, e) => {
      for (let x = e; x instanceof Error; x = x.cause) if (thrown.has(x)) return ctx.count('updates rejected with a thrown error');
      failed(req, e);
    };
    const failed = (req, e) => ctx.fail(`update rejected: ${forest.describe(req)}: ${e?.message}`, String(e?.cause?.stack ?? e?.stack ?? e));
    const steps = failing ? { finish() {} } : watchSteps(ctx, B, forest);
    const policy = rng.pick(POLICIES);
    await forest.run(policy);
    if (real) {
      for (let i = 0; i < 200 && forest.open.size > 0; i++) await new Promise((r) => setTimeout(r, 10));
    }
    if (forest.open.size > 0) {
      ctx.fail(`the host has run all of its callbacks, but ${forest.open.size} updates never settle, e.g. ${forest.describe([...forest.open][0])}`, forest.log.join(' '));
    }
    await steps.finish();
    if (thrown.size > 0) {
      forest.dispose();
      return { sig: forest.log.join(' '), nontrivial: forest.overlaps > 0 };
    }
    for (const cell of forest.cells.values()) {
      if (!cell.mounted) continue;
      const got = ids(cell.el.getAttribute('data-list'));
      if (got.join() !== cell.log.join()) ctx.fail(`at rest cell ${cell.n} shows [${got}] instead of [${cell.log}]`, forest.log.join(' '));
    }
    for (const root of forest.roots) {
      const got = forest.outline(root);
      const want = forest.expectedOutline(root);
      if (got !== want) ctx.fail(`at rest root ${root.i} shows ${got} instead of ${want}`, root.container.outerHTML);
    }
    forest.dispose();
    ctx.max('requests in a case', forest.reqs.length);
    if (ctx.i < 2) ctx.sample(forest.log.slice(0, 60).join(' '));
    return { sig: forest.log.join(' '), nontrivial: forest.overlaps > 0 };
  },
};

// step() follows the update that is processed next.
function watchSteps(ctx, B, forest) {
  const waiting = new Set();
  const late = [];
  forest.onStep = () => {
    if (!ctx.rng.bool(0.1)) return;
    const open = [...forest.open];
    const call = { open };
    waiting.add(call);
    B.step(forest.runtime).then((more) => {
      waiting.delete(call);
      if (more === true) {
        ctx.count('steps awaited');
        if (!open.some((req) => req.settled !== null)) ctx.fail('step() resolves although none of the updates open when it was called has settled', open.map((req) => forest.describe(req)).join());
      } else if (more === false) {
        ctx.count('steps without updates');
        late.push(micro().then(() => {
          const left = open.filter((req) => req.settled === null);
          if (left.length > 0) ctx.fail(`step() finds no update although one is open: ${forest.describe(left[0])}`);
        }));
      } else ctx.fail(`step() gives ${String(more)}`);
    }, (e) => ctx.fail(`step() rejects although no update fails: ${e}`));
  };
  return {
    async finish() {
      const more = await B.step(forest.runtime);
      if (more !== false) ctx.fail(`step() gives ${String(more)} although all updates have settled`);
      await Promise.all(late);
      if (waiting.size > 0) ctx.fail('step() never resolves although all updates have settled');
    },
  };
}
