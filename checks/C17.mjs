import { makeHost } from '../lib/sched.mjs';
import { Forest, POLICIES } from '../lib/forest.mjs';

// Ways for a component to fail. Each returns the value thrown, or a test for it.
const KINDS = ['start', 'end', 'end', 'memo', 'reducer', 'effect deps', 'iterable', 'toElement', 'template', 'inject', 'more hooks', 'other hooks', 'child', 'props', 'equal'];

export default {
  id: 'C17',
  technique: 'runtime monitoring: components fail at random positions and times under random schedules; monitors watch every DOM mutation, effect, ref, commit and settled promise, and compare the DOM after a later render with the requested one',
  note: 'Random exploration in jsdom. Errors of effects and refs are not failures of this kind. The updates of a batch fail together.',
  rule:
    'A case is a random forest of stateful components below 1-3 roots (some memoised) with 6-30 renders, unmounts, dispatches and forced updates with random options from everywhere while components fail with 2-15 % of their renders in one of 14 ways: ' +
    'throwing before, between or after hooks, in useMemo, a reducer, dependencies, iterables, toElement, props or arePropsEqual, malformed templates, missing injections, other or more hooks than before; commit handlers and middleware fail now and then before anything is committed. At the end nothing fails and every root is rendered again, and once more: that has to keep its elements. ' +
    'Monitors: no DOM mutation, effect, cleanup or ref call outside of commits; no update of a failed batch commits; those rendered in it are rejected with the thrown value in the cause chain (with the value itself for handlers and middleware); finished updates of components are shown; all updates settle; finally the DOM shows the last values and, for every component, the finished actions once in order (those of failed updates may or may not be included). Non-trivial: a component failed.',
  quick: { cases: 4000, secs: 240 },
  thorough: { cases: 100000, secs: 600 },
  require: { 'failed updates': 5000, 'updates failing with others of their batch': 2000, 'successful updates': 20000, 'settled updates of components': 4000, 'roots compared': 3000, 'roots rendered again': 3000, 'components compared': 10000, 'messages compared': 500, 'updates failing with a handler': 300, 'updates failing with a middleware': 700, 'actions of failed updates applied later': 100, 'failures: reducer': 10, 'failures: equal': 5, 'failures: effect deps': 40, 'failures: other hooks': 40, 'failures: more hooks': 40, 'failures: template': 100, 'failures: iterable': 100, 'failures: memo': 100 },
  minDistinct: 500,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const host = makeHost(B, { taskPriority: () => rng.pick(['user-blocking', 'user-visible', 'background']) });
    let armed = true;
    const rate = rng.pick([0.02, 0.06, 0.15]);
    let serial = 0;
    // The updates rendered in the current batch and its failures, if any.
    let batch = { ids: [], bombs: [] };
    let inCommit = 0;
    let failures = 0;
    const kindsSeen = new Set();
    class Missing {}
    const bad = (m) => ctx.fail(m, forest.log.slice(-400).join(' '));
    const Equal = B.createComponent(function Equal({ n }) { return B.html`<b>${n}</b>`; }, {
      arePropsEqual: (a, b) => {
        if (b.bomb && !a.first) blow(b.bomb);
        return false;
      },
    });
    const Child = B.createComponent(function Child({ bomb }) {
      if (bomb) blow(bomb);
      return B.html`<u>${'child'}</u>`;
    });
    const forest = new Forest(ctx, B, host, {
      budget: rng.range(6, 30),
    });
    const other = new Map();
    forest.rootValue = (specs, gen, i, keep = false) => {
      if (!keep && rng.bool(0.15)) other.set(i, !other.get(i));
      const children = specs.map((x) => forest.element(x, gen, i));
      return other.get(i) ? B.html`<header data-gen=${gen} data-other></header><${children}>` : B.html`<header data-gen=${gen}></header><${children}>`;
    };
    const observer = new window.MutationObserver(() => {});
    observer.observe(forest.stage, { subtree: true, childList: true, attributes: true, characterData: true });
    const quiet = (when) => {
      const records = observer.takeRecords();
      if (inCommit === 0 && records.length > 0) bad(`the DOM is modified (${records[0].type}) outside of commits, ${when}`);
    };
    const makeBomb = (kind) => {
      const n = ++serial;
      const error = rng.weighted([[5, new Error('bomb' + n)], [1, 'text' + n], [1, undefined], [1, null], [1, { bomb: n }]]);
      return { kind, n, error, test: (e) => Object.is(e, error) };
    };
    const bombs = [];
    const blew = (bomb, cell) => {
      for (const c of forest.cells.values()) c.rendering = false;
      bombs.push(bomb);
      failures++;
      kindsSeen.add(bomb.kind);
      forest.ev(`!${bomb.kind}${bomb.n}`);
      batch.bombs.push(bomb);
      for (const id of batch.ids) {
        const req = forest.byId.get(id);
        if (req) req.bombs = batch.bombs;
      }
    };
    const blow = (bomb) => {
      blew(bomb);
      throw bomb.error;
    };
    forest.onP = (update) => {
      quiet('before a batch is rendered');
      if (batch.bombs.length > 0) batch = { ids: [], bombs: [] };
      batch.ids.push(update.id);
      if (armed && rng.bool(rate / 4)) blow(makeBomb('middleware'));
    };
    forest.onPEnd = () => {
      quiet('while a batch is rendered');
      if (armed && rng.bool(rate / 4)) blow(makeBomb('middleware'));
    };
    forest.onC = (update) => {
      quiet('before a commit');
      batch = { ids: [], bombs: [] };
      inCommit++;
      const req = forest.byId.get(update.id);
      if (req?.bombs) bad(`${forest.describe(req)} is committed although its batch failed`);
    };
    forest.onCEnd = () => {
      observer.takeRecords();
      inCommit--;
    };
    forest.onStep = () => {
      quiet('at some time');
      if (!armed || !rng.bool(0.2)) return;
      // An action whose reducer may fail.
      const live = [...forest.cells.values()].filter((c) => c.add && c.mounted);
      if (live.length === 0) return;
      const cell = rng.pick(live);
      const options = forest.options();
      const n = rng.int(5);
      const req = { n: forest.nextReq++, kind: 'add', origin: 'outside', cell, add: n, settled: null, options: typeof options === 'string' ? undefined : options };
      for (let k = rng.range(1, 3); k > 0; k--) {
        forest.issue({ ...req }, () => cell.add(n, req.options));
      }
    };
    const ev = forest.ev;
    forest.ev = function (x) {
      ev.call(this, x);
      const l = /^L(\d+):(.*)$/.exec(x);
      if (l) forest.cells.get(Number(l[1])).effectList = l[2];
      if (inCommit === 0 && /^(E|e|L|l|ref|unref)\d/.test(x)) bad(`${x}: an effect, cleanup or ref is called outside of commits`);
    };
    forest.onR = (cell, phase) => {
      if (phase !== 'start') return void (cell.rendering = false);
      cell.rendering = true;
      cell.bomb = armed && rng.bool(rate) ? makeBomb(rng.pick(KINDS)) : null;
      if (cell.bomb) cell.bomb.memo = cell.memo;
      if (cell.bomb?.kind === 'start') blow(cell.bomb);
    };
    forest.useMore = (context, cell) => {
      const b = cell.bomb;
      const is = (kind) => b !== null && b.kind === kind;
      context.useMemo(() => { if (is('memo')) blow(b); }, [b]);
      const [sum, add] = context.useReducer((s, a) => {
        if (cell.rendering && cell.bomb?.kind === 'reducer' && !cell.bomb.blown) {
          cell.bomb.blown = true;
          blow(cell.bomb);
        }
        return s + a;
      }, 0);
      cell.sum = sum;
      cell.add = add;
      context.useEffect(() => {}, is('effect deps') ? new Proxy([0], { get(t, k) { if (cell.bomb === b && cell.rendering) blow(b); return t[k]; } }) : [0]);
      if (is('inject')) {
        b.test = (e) => e instanceof ReferenceError;
        blew(b);
        context.inject(Missing);
      }
      const again = cell.renders > 1;
      if (is('more hooks') && again) {
        b.more = true;
      }
      if (is('other hooks') && again) {
        b.test = (e) => e instanceof TypeError;
        blew(b);
        context.useId();
      }
    };
    forest.moreChildren = (context, cell) => {
      const b = cell.bomb;
      const more = B.html`<em>${cell.sum}</em>`;
      if (b !== null) {
        if (b.kind === 'more hooks' && b.more) {
          b.test = (e) => e instanceof TypeError;
          blew(b);
          context.useId();
        }
        if (b.kind === 'end') blow(b);
        if (b.kind === 'iterable') {
          return [more, (function* () { yield 1; blow(b); })()];
        }
        if (b.kind === 'toElement') return [more, { get [B.toElement]() { blow(b); } }];
        if (b.kind === 'template') {
          b.test = (e) => e instanceof B.DOMAdapterError;
          blew(b);
          return [more, rng.bool() ? B.html`<div class=${1} CLASS=${2}></div>` : B.html`<table><tr><td><${1}></td></tr>${2}</table>`];
        }
        if (b.kind === 'child') return [more, Child({ bomb: b })];
        if (b.kind === 'props') return [more, Child({ get bomb() { blow(b); } })];
        if (b.kind === 'equal') return [more, Equal({ n: 1, bomb: b })];
      }
      return [more, rng.bool(0.5) ? Equal({ n: 2, first: rng.bool() }) : Child({})];
    };
    forest.failHandler = () => {
      if (!armed || !rng.bool(0.3)) return null;
      const bomb = makeBomb('handler');
      return () => {
        quiet('when a commit handler fails');
        blow(bomb);
      };
    };
    forest.onFailed = (req, e) => {
      quiet('when an update has failed');
      const chain = [];
      for (let x = e, k = 0; k < 10; k++) {
        chain.push(x);
        if (!(x instanceof Error) || !('cause' in x)) break;
        x = x.cause;
      }
      req.chain = chain;
    };
    forest.onSettled = (req) => {
      if (req.kind !== 'send' && req.kind !== 'force') return;
      const { cell } = req;
      if (!cell.mounted || !cell.el?.isConnected) return;
      ctx.count('settled updates of components');
      if (req.kind === 'send' && !cell.el.dataset.list.split(',').includes(String(req.n))) bad(`${forest.describe(req)} is finished but not shown`);
      if (req.kind === 'force' && !(Number(cell.el.dataset.ext) >= req.ext)) bad(`${forest.describe(req)} is finished but not shown`);
    };
    try {
      await forest.run(rng.pick(POLICIES));
      armed = false;
      await forest.drain();
      forest.stopped = true;
      // The runtime works on, and a value that does not fail is shown.
      for (const root of forest.roots) {
        const gen = ++forest.gen;
        const specs = root.spec ?? [forest.spec(1)];
        const strip = (x) => ({ ...x, memo: rng.bool(), kids: x.kids.map(strip) });
        const fresh = rng.bool() ? specs : specs.map(strip);
        root.fresh = fresh !== specs;
        root.last = fresh;
        const value = forest.rootValue(fresh, gen, root.i);
        const options = forest.options();
        const req = { n: forest.nextReq++, kind: 'render', origin: 'the end', root, gen, specs: fresh, settled: null, options };
        if (typeof options === 'string') req.options = undefined;
        forest.issue(req, () => root.root.render(value, req.options));
        req.last = true;
      }
      await forest.drain();
      quiet('at the end');
      for (const req of forest.reqs) {
        const what = forest.describe(req);
        if (req.settled === null) bad(`${what} is never settled`);
        if (req.last && req.settled !== 'ok') bad(`${what} fails although no component throws: ${req.chain.map((e) => e?.stack ?? String(e)).join(" <- ")}`);
        if (req.bombs && req.settled !== 'error') bad(`${what} is fulfilled although its batch failed (${req.bombs[0].kind})`);
        if (req.settled === 'error') {
          const bomb = (req.bombs ?? bombs).find((b) => req.chain.some((e) => b.test(e)));
          if (!bomb) bad(`${what} is rejected with ${req.chain.map(String).join(' <- ')}, which is not caused by ${req.bombs ? 'the error of its batch' : 'any error thrown'}`);
          if (req.bombs?.length === 1 && ['handler', 'middleware'].includes(bomb.kind)) {
            if (!Object.is(req.error, bomb.error)) bad(`${what} is rejected with ${req.error} instead of the error of the ${bomb.kind}`);
            ctx.count('updates failing with a ' + bomb.kind);
          } else if (ctx.variant === 'debug' && req.bombs?.length === 1 && !['template', 'equal'].includes(bomb.kind)) {
            // The message tells the component that failed.
            const name = bomb.kind === 'child' || bomb.kind === 'props' ? 'Child' : bomb.memo ? 'Memo' : 'Cell';
            if (!(req.chain[0] instanceof B.RenderError) || !req.chain[0].message.split('\n').at(-1).endsWith(`- ${name} <- ERROR occurred here!`)) bad(`${what} fails with ${req.chain[0]}, which does not tell the component ${name} that threw`);
            ctx.count('messages compared');
          }
          ctx.count('failed updates');
          if (!req.bombs) ctx.count('updates failing with others of their batch');
        } else ctx.count('successful updates');
      }
      for (const cell of forest.cells.values()) {
        // A render that failed may have left another list in `current`.
        if (cell.mounted) cell.current = cell.el.dataset.list === '' ? [] : cell.el.dataset.list.split(',').map(Number);
      }
      for (const root of forest.roots) {
        const want = forest.expectedOutline(root);
        const got = forest.outline(root);
        if (want !== got) bad(`root ${root.i} shows ${got} instead of ${want}`);
        const gens = [...root.container.querySelectorAll('[data-gen]')].filter((x) => Number(x.dataset.gen) !== root.shown);
        if (root.fresh && gens.length > 0) bad(`root ${root.i} shows parts of generation ${gens[0].dataset.gen} instead of ${root.shown}`);
        ctx.count('roots compared');
      }
      // What failed before no longer keeps elements from being reused.
      for (const root of forest.roots) {
        const header = root.container.querySelector('header');
        let failed = false;
        root.root.render(forest.rootValue(root.last, forest.gen, root.i, true)).finished.catch(() => { failed = true; });
        await forest.drain();
        if (failed) bad(`rendering root ${root.i} again fails although no component throws`);
        if (root.container.querySelector('header') !== header) bad(`rendering root ${root.i} again replaces its elements`);
        ctx.count('roots rendered again');
      }
      for (const cell of forest.cells.values()) {
        if (!cell.mounted) continue;
        ctx.count('components compared');
        if (cell.effectList !== cell.el.dataset.list) bad(`the effect of component ${cell.n} ran last for ${cell.effectList} but ${cell.el.dataset.list} is shown`);
        // The actions of failed updates may or may not be part of the state.
        const shown = cell.el.dataset.list === '' ? [] : cell.el.dataset.list.split(',').map(Number);
        const failed = new Set(forest.reqs.filter((q) => q.cell === cell && q.settled === 'error').map((q) => q.n));
        const required = cell.log.filter((n) => shown.includes(n) || !failed.has(n));
        if (cell.log.some((n) => failed.has(n) && shown.includes(n))) ctx.count('actions of failed updates applied later');
        if (shown.join() !== required.join()) bad(`component ${cell.n} shows the actions ${cell.el.dataset.list} instead of ${cell.log}`);
        if (cell.ext > 0 && Number(cell.el.dataset.ext) < Math.max(0, ...forest.reqs.filter((q) => q.cell === cell && q.ext && q.settled === 'ok').map((q) => q.ext))) bad(`component ${cell.n} shows ${cell.el.dataset.ext} instead of ${cell.ext}`);
        const em = cell.el.querySelector(':scope > .more > em');
        const adds = forest.reqs.filter((q) => q.cell === cell && q.add);
        let sums = new Set([0]);
        for (const q of adds) sums = new Set([...sums].flatMap((x) => (q.settled === 'error' ? [x, x + q.add] : [x + q.add])));
        if (!sums.has(Number(em.textContent))) bad(`component ${cell.n} shows the sum ${em.textContent} instead of ${[...sums].join(' or ')}`);
      }
    } finally {
      observer.disconnect();
      forest.dispose();
    }
    for (const k of kindsSeen) ctx.count('failures: ' + k);
    return { sig: forest.log.join(' '), nontrivial: failures > 0 };
  },
};
