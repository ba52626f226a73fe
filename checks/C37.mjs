import { frameDocument } from '../lib/env.mjs';
import { makeHost, micro } from '../lib/sched.mjs';
import { makeRng } from '../lib/rng.mjs';
import { Forest, POLICIES } from '../lib/forest.mjs';

// One runtime with its own source of randomness. A step is a synchronous piece
// of its workload; between two steps all microtasks run.
function actor(ctx, B, seed, document) {
  const rng = makeRng('actor', seed);
  const host = makeHost(B, { document, taskPriority: () => rng.pick(['user-blocking', 'user-visible', 'background']) });
  const prefix = host.getIdentifier() + '-';
  const forest = new Forest({ note() {}, first: null, count() {} }, B, host, {
    rng,
    document,
    makeBomb: rng.bool(0.5) ? () => (rng.bool(0.04) ? { armed: true, error: new Error('bomb') } : null) : undefined,
  });
  const policy = rng.pick(POLICIES);
  class Marker {
    constructor(n) { this.n = n; }
    static getDefault() { return null; }
  }
  const short = (id) => (id.startsWith(prefix) ? id.slice(prefix.length) : '!' + id);
  forest.onR = (cell, when) => {
    forest.probe?.('R');
    if (when === 'end') forest.ev('r' + cell.n);
  };
  forest.onEffect = () => forest.probe?.('E');
  forest.onP = () => forest.probe?.('P');
  forest.onC = () => forest.probe?.('C');
  forest.onCEnd = (update) => forest.ev('c' + update.id);
  forest.useMore = (context, cell) => {
    const id = context.useId();
    const outer = context.inject(Marker);
    const [flag, setFlag] = context.useState(cell.n % 3);
    forest.ev(`i${short(id)},${outer?.n}`);
    context.provide(new Marker(cell.n));
    cell.start ??= (f) => context.startTransition(f);
    cell.flag = flag;
    cell.setFlag = setFlag;
  };
  forest.moreChildren = (context, cell) => {
    const { html, svg, text } = B;
    const n = cell.log.length + cell.n;
    forest.probe?.('T');
    switch (n % 6) {
      case 0: return html`<b class=${n} title=${n}>${n}</b>`;
      case 1: return html`<svg>${n}<${svg`<g id=${n}></g>`}></svg>`;
      case 2: return text`t ${n} ${cell.flag}`;
      case 3: return [html`<i .value=${n}>${n}</i>`, null, html`<em title=${n} class=${cell.flag} style=${{ order: n }}></em>`];
      case 4: return n;
      default: return html`<${[1, 2, 3].slice(n % 3).map((x) => html`<s>${x}</s>`.withKey(x))}>`;
    }
  };
  let steps = 0;
  let drained = 0;
  for (const r of forest.roots) forest.ev('root' + r.i);
  return {
    forest,
    B,
    done: false,
    // A piece of the workload. Returns false when nothing is left to do.
    step() {
      const s = steps++;
      if (s < forest.roots.length) {
        if (rng.bool(0.8)) forest.within('outside', () => forest.request(1));
        return true;
      }
      if (forest.budget > 0 && s < 300) {
        const k = rng.int(10);
        if (k < 1) {
          const live = [...forest.cells.values()].filter((c) => c.mounted && c.start);
          if (live.length > 0) {
            const c = rng.pick(live);
            c.start((transition) => {
              forest.ev('t' + transition);
              const h = c.setFlag((x) => x + 1, { transition });
              forest.ev(`u${h.id},${h.lanes}`);
              h.finished.then(() => forest.ev('U' + h.id), () => forest.ev('V' + h.id));
            });
          }
        } else if (k < 4) forest.request(1);
        else if (k < 5) forest.click();
        else if (k < 6) {
          const live = [...forest.cells.values()].filter((c) => c.mounted && c.setFlag);
          if (live.length > 0) {
            forest.ev('flag');
            rng.pick(live).setFlag((x) => x + 1, rng.pick([undefined, { flushSync: true }])).finished.catch(() => {});
          }
        } else forest.runTask(policy);
        return true;
      }
      forest.stopped = true;
      if (host.tasks.length > 0) {
        if (drained++ > 3000) throw new Error('HARNESS: host never becomes idle');
        forest.runTask(policy);
        return true;
      }
      return false;
    },
    result() {
      const html = forest.roots.map((r) => r.container.innerHTML).join('\n');
      return { log: forest.log, html, requests: forest.reqs.length, open: forest.open.size };
    },
  };
}

export default {
  id: 'C37',
  technique: 'runtime monitoring: differential oracle over recorded event logs; every runtime is run alone and together with others whose steps are interleaved with and nested inside of its own, and the complete logs must be equal',
  note: 'Random exploration in jsdom; the host callbacks of each runtime run in the same order in both runs. Only interference through the library is looked for, the runtimes share no application state.',
  rule:
    'A case makes 2-3 workloads (1-3 roots of random component forests with state, effects, refs, context values, ids, failing renders, handlers, transitions; 8-50 requests with random options and host callbacks in random order). Each one is run alone, then all of them are run together: their steps are interleaved at random, and some steps run inside of middleware, components, template evaluation, commits and effects of another runtime. They use the same copy of the library, sometimes different documents. ' +
    'Monitor: for each workload the logs of renders, effects, cleanups, refs, commits, ids, injected values, settlements and failures, and the final DOM, must be equal in both runs. Non-trivial: a step of one ran inside of another one.',
  quick: { cases: 500, secs: 240 },
  thorough: { cases: 30000, secs: 600 },
  require: { 'workloads compared': 1000, 'events compared': 100000, 'steps inside of components': 500, 'steps inside of templates': 200, 'steps inside of effects': 300, 'steps inside of commits': 300, 'steps inside of middleware': 300, 'workloads with failures': 100, 'runtimes of other documents': 50 },
  minDistinct: 200,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const n = rng.range(2, 3);
    const plans = [];
    for (let k = 0; k < n; k++) {
      const framed = rng.bool(0.15);
      if (framed) ctx.count('runtimes of other documents');
      plans.push({ seed: rng.int(2 ** 31), document: framed ? frameDocument() : document });
    }
    // 1. Alone.
    const alone = [];
    for (const plan of plans) {
      const a = actor(ctx, B, plan.seed, plan.document);
      try {
        while (a.step()) await micro();
        await micro();
        alone.push(a.result());
      } finally {
        a.forest.dispose();
      }
    }
    // 2. Together.
    const actors = plans.map((plan) => actor(ctx, B, plan.seed, plan.document));
    let nestedSteps = 0;
    try {
      let ran = new Set(); // since the last time microtasks ran
      const rate = rng.pick([0, 0.02, 0.1, 0.5]);
      const advance = (a) => {
        ran.add(a);
        if (!a.step()) a.done = true;
      };
      const places = new Set(rng.shuffle(['R', 'T', 'E', 'P', 'C']).slice(0, rng.range(1, 3)));
      const names = { R: 'components', T: 'templates', E: 'effects', P: 'middleware', C: 'commits' };
      for (const a of actors) {
        a.forest.probe = (where) => {
          if (!places.has(where) || !rng.bool(rate)) return;
          const others = actors.filter((x) => !x.done && !ran.has(x) && x !== a);
          if (others.length === 0) return;
          nestedSteps++;
          ctx.count('steps inside of ' + names[where]);
          advance(rng.pick(others));
        };
      }
      while (actors.some((a) => !a.done)) {
        ran = new Set();
        const live = actors.filter((x) => !x.done);
        const k = rng.bool(0.4) ? live.length : 1;
        for (const a of rng.shuffle(live).slice(0, k)) if (!ran.has(a) && !a.done) advance(a);
        await micro();
      }
      await micro();
      for (let k = 0; k < n; k++) {
        const x = alone[k];
        const y = actors[k].result();
        ctx.count('workloads compared');
        ctx.count('events compared', x.log.length);
        if (x.log.some((e) => e[0] === 'F')) ctx.count('workloads with failures');
        for (let i = 0; i < Math.max(x.log.length, y.log.length); i++) {
          if (x.log[i] !== y.log[i]) ctx.fail(`next to other runtimes, runtime ${k} does ${y.log[i]} instead of ${x.log[i]}`, `alone: ${x.log.slice(Math.max(0, i - 60), i + 20).join(' ')}\ntogether: ${y.log.slice(Math.max(0, i - 60), i + 20).join(' ')}`);
        }
        if (x.html !== y.html) ctx.fail(`next to other runtimes, runtime ${k} shows something else`, `alone: ${x.html}\ntogether: ${y.html}`);
        if (x.open !== y.open) ctx.fail(`next to other runtimes, ${y.open} updates of runtime ${k} never settle instead of ${x.open}`);
      }
      if (ctx.i < 2) ctx.sample({ events: alone.map((x) => x.log.length), requests: alone.map((x) => x.requests), nestedSteps });
      return { sig: alone.map((x) => x.log.join(' ')).join('|'), nontrivial: nestedSteps > 0 };
    } finally {
      for (const a of actors) a.forest.dispose();
    }
  },
};
