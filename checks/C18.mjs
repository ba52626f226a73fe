import { makeHost } from '../lib/sched.mjs';
import { makeRng } from '../lib/rng.mjs';
import { Forest, POLICIES } from '../lib/forest.mjs';
import { addHooks } from '../lib/hooks.mjs';

class Recorder {
  constructor(ctx, forest) {
    this.ctx = ctx;
    this.forest = forest;
    this.open = null;
    this.reports = new Map(); // update id -> [{status}]
    this.order = [];
  }
  groupCollapsed(text) {
    if (this.open) this.ctx.fail('a report is opened within another one', text);
    const m = /^Update #(\d+) %c(\w+)%c at %c(\w*)%c in %c.*\(tx(\d+)\)$/.exec(text);
    if (!m) this.ctx.fail('a report without a heading for its update', text);
    this.open = { id: Number(m[1]), status: m[2], owner: m[3], number: Number(m[4]), lines: [] };
  }
  log(text) {
    if (!this.open) this.ctx.fail('a line is logged outside of a report', text);
    this.open.lines.push(text);
  }
  groupEnd() {
    if (!this.open) this.ctx.fail('a report is closed twice');
    const { id } = this.open;
    const list = this.reports.get(id) ?? [];
    list.push(this.open);
    this.reports.set(id, list);
    this.order.push(id);
    this.open = null;
  }
}
class Timing {
  constructor(ctx, real) {
    this.ctx = ctx;
    this.real = real;
    this.marks = [];
    this.measures = [];
  }
  mark(name) {
    this.marks.push(name);
    return this.real?.mark(name);
  }
  measure(name, a, b) {
    for (const m of [a, b]) {
      if (!this.marks.includes(m)) this.ctx.fail(`measure ${name} from a mark that was not set: ${m}`);
    }
    if (this.marks.lastIndexOf(a) > this.marks.lastIndexOf(b)) this.ctx.fail(`measure ${name} ends before it starts`);
    this.measures.push({ name, a, b });
    return this.real?.measure(name, a, b);
  }
}

// One run of a random program; `install` puts middleware into the runtime.
async function run(ctx, B, seed, install) {
  const rng = makeRng(seed);
  const host = makeHost(B, { taskPriority: () => rng.pick(['user-blocking', 'user-visible', 'background']) });
  host.getIdentifier = () => 'id';
  const failures = rng.bool(0.5);
  const explodeIn = failures && rng.bool(0.2) ? 'effect' : 'render';
  const bombs = [];
  const sub = Object.create(ctx, { rng: { value: rng } });
  let bombing = true;
  const forest = new Forest(sub, B, host, {
    budget: rng.range(6, 25),
    tap: false,
    before: (f) => {
      f.B = B;
      install?.(f);
    },
    makeBomb: failures
      ? () => {
          if (!rng.bool(0.06)) return null;
          const bomb = { armed: true, n: bombs.length, error: rng.weighted([[5, new Error('bomb' + bombs.length)], [1, 'text'], [1, undefined]]) };
          bombs.push(bomb);
          return bomb;
        }
      : undefined,
  });
  forest.host = host;
  if (rng.bool(0.5)) addHooks(forest);
  if (explodeIn === 'effect') {
    forest.explode = () => {};
    const useMore = forest.useMore;
    forest.useMore = (context, cell) => {
      useMore?.(context, cell);
      context.useEffect(() => {
        if (bombing && rng.bool(0.02)) {
          forest.ev('effect explodes in ' + cell.n);
          throw new Error('effect');
        }
      });
    };
  }
  forest.onFailed = (req, e) => {
    const chain = [];
    for (let x = e, k = 0; x instanceof Error && k < 10; x = x.cause, k++) chain.push(x.constructor.name + ':' + x.message);
    forest.ev('failed ' + chain.join(' <- '));
  };
  forest.onSettled = () => forest.ev('dom ' + forest.stage.innerHTML.length);
  let last = '';
  forest.onStep = () => {
    for (const b of bombs) if (b.armed && rng.bool(0.1)) b.armed = false;
    if (forest.poke && rng.bool(0.15) && !forest.stopped) forest.poke();
    const now = forest.stage.innerHTML;
    if (now !== last) forest.ev('DOM ' + now);
    last = now;
    forest.extraStep?.();
  };
  let escaped = null;
  try {
    await forest.run(rng.pick(POLICIES));
    for (const b of bombs) b.armed = false;
    bombing = false;
    forest.stopped = true;
    await forest.drain();
  } catch (e) {
    if (/^HARNESS/.test(e.message)) throw e;
    if (ctx.first) throw ctx.first;
    escaped = e;
    forest.ev('escaped ' + e.message);
  }
  forest.ev('DOM ' + forest.stage.innerHTML);
  forest.dispose();
  return forest;
}

// Middleware that record everything they see.
function recorders(ctx, B, forest, rng) {
  const { runtime, host } = forest;
  const mws = [];
  const state = { seen: new Map(), stack: [], commits: [], rendered: new Set(), inCommit: [], numbers: new Map(), ordinal: 0 };
  let count = 0;
  let registered = [];
  const add = () => {
    const mw = { n: count++, on: true, calls: 0 };
    const handler = {
      handle(update, render) {
        if (this !== handler) ctx.fail('handle() is called without its middleware as this');
        if (!mw.on) ctx.fail(`middleware ${mw.n} is called after it was removed`);
        mw.calls++;
        ctx.count('middleware calls');
        if (state.stack.length === 0) {
          state.pass = { id: update.id, list: registered.slice(), at: 0 };
          state.ordinal = 0;
          const times = state.seen.get(update.id) ?? 0;
          state.seen.set(update.id, times + 1);
          if (times > 0) ctx.fail(`update ${update.id} passes through the middleware twice`);
        }
        const { pass } = state;
        if (update.id !== pass.id) ctx.fail(`middleware ${mw.n} got update ${update.id} while update ${pass.id} passes`);
        if (pass.list[pass.at] !== mw) ctx.fail(`middleware ${mw.n} is called in the place of ${pass.list[pass.at]?.n} (registered: ${pass.list.map((m) => m.n)})`);
        pass.at++;
        state.stack.push(mw);
        let commit;
        try {
          commit = render(update);
        } catch (e) {
          state.failedRenders ??= new Set();
          state.failedRenders.add(update.id);
          throw e;
        } finally {
          if (state.stack.pop() !== mw) ctx.fail('middleware are not nested');
        }
        if (typeof commit !== 'function') ctx.fail(`render() returned ${typeof commit}`);
        if (pass.at !== pass.list.length) ctx.fail(`update ${update.id} passed only ${pass.at} of ${pass.list.length} middleware`);
        let committed = 0;
        return () => {
          if (committed++ > 0) ctx.fail(`the commit of middleware ${mw.n} for update ${update.id} is called twice`);
          const depth = state.inCommit.length;
          if (pass.list[depth] !== mw) ctx.fail(`the commit of middleware ${mw.n} runs in the place of that of ${pass.list[depth]?.n}`);
          if (depth > 0 && state.inCommit.at(-1).id !== update.id) ctx.fail('commits of two updates are nested');
          state.inCommit.push({ mw, id: update.id });
          if (depth === 0) state.numbers.set(update.id, state.ordinal++);
          ctx.count('middleware commits');
          if (rng.bool(0.3)) {
            // Middleware may come and go at any time between two updates.
          }
          try {
            commit();
            if (depth === 0) state.commits.push(update.id);
          } catch (e) {
            state.failedCommits ??= new Set();
            state.failedCommits.add(update.id);
            throw e;
          } finally {
            state.inCommit.pop();
            state.attempted ??= [];
            if (depth === 0) state.attempted.push(update.id);
          }
        };
      },
    };
    const un = runtime.use(handler);
    mw.remove = () => {
      if (!mw.on && rng.bool(0.5)) return;
      un();
      ctx.count('middleware removals');
      mw.on = false;
      registered = registered.filter((m) => m !== mw);
    };
    registered.push(mw);
    mws.push(mw);
    ctx.count('middleware added');
  };
  state.add = add;
  state.mws = mws;
  state.churn = () => {
    if (state.stack.length > 0) return;
    if (rng.bool(0.5)) {
      if (registered.length < 5) add();
    } else if (mws.length > 0) {
      const mw = rng.pick(mws);
      if (registered.length > 1 || !mw.on) mw.remove();
    }
  };
  state.registered = () => registered;
  return state;
}

export default {
  allowUnhandled: true,
  allowDomErrors: true,
  id: 'C18',
  technique: 'runtime monitoring: recording middleware check order, nesting and multiplicity of each call online; logger and profiler runs are compared, event by event, with a run without them, and their reports with the updates seen',
  note: 'Random exploration; middleware are added and removed between updates and in commits and effects, not within handle(), and each is registered once.',
  rule:
    'A case is a random forest with requests of all kinds, half of them with components that fail while rendering (or effects that throw), run without middleware and then with 1-5 recording middleware that come and go, and with UpdateLogger and/or UpdateProfiler in random order with stand-in or native APIs. ' +
    'Each rendered update passes once through the middleware registered at that moment in order, and its commit once through theirs; removed ones are never called; the event logs and DOM of both runs are equal; ' +
    'one closed report is logged for each update committed or failed (with its owner, number in the batch, priority and mode, also by clocks that stand still), and marks and measures are complete for each committed one. Non-trivial: at least five updates were committed.',
  quick: { cases: 2000, secs: 240 },
  thorough: { cases: 150000, secs: 600 },
  require: {
    'middleware calls': 20000, 'middleware commits': 20000, 'middleware removals': 1000, 'middleware added': 3000, 'runs compared': 1500, 'reports checked': 10000, 'reports of failed updates': 150, 'priorities and modes reported': 3000, 'reports of updates committed together': 1500, 'measures checked': 15000, 'failed commits': 20,
    'components rendered within middleware': 20000, 'removed while updates were open': 200,
  },
  minDistinct: 1000,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const seed = `${rng.int(2 ** 31)}/${rng.int(2 ** 31)}`;
    ctx.note({ seed });
    const plain = await run(ctx, B, seed, null);

    const useLogger = rng.bool(0.6);
    const useProfiler = rng.bool(0.6);
    const native = rng.bool(0.1);
    const side = makeRng(seed + 'side');
    let state, logger, timing;
    const unhandled0 = ctx.unhandled.length;
    const churn = rng.bool(0.6);
    // Clocks of browsers stand still for a while.
    const coarse = rng.pick([0, 0, 20, Infinity]);
    const now = performance.now;
    if (coarse > 0) performance.now = () => { const t = now.call(performance); return coarse === Infinity ? 5 : Math.floor(t / coarse) * coarse; };
    const running = run(ctx, B, seed, (forest) => {
      state = recorders(ctx, B, forest, side);
      const addons = [];
      if (useLogger) addons.push(() => forest.runtime.use(new B.UpdateLogger((logger = new Recorder(ctx, forest)))));
      if (useProfiler) addons.push(() => forest.runtime.use(new B.UpdateProfiler((timing = new Timing(ctx, native ? performance : null)))));
      // The addons are the innermost or the outermost of the middleware.
      const outer = rng.bool(0.5);
      if (outer) for (const a of side.shuffle(addons)) a();
      for (let i = rng.range(1, 3); i > 0; i--) state.add();
      if (!outer) for (const a of side.shuffle(addons)) a();
      const churnNow = (p) => {
        if (churn && side.bool(p)) {
          state.churn();
          if (forest.open.size > 0) ctx.count('removed while updates were open');
        }
      };
      forest.extraStep = () => churnNow(0.2);
      forest.onEffect = () => churnNow(0.02);
      forest.onRequest = () => churnNow(0.1);
      forest.onR = () => {
        const expected = state.registered().length;
        if (state.stack.length !== expected) ctx.fail(`a component renders inside of ${state.stack.length} of ${expected} middleware`);
        ctx.count('components rendered within middleware');
      };
    });
    let full;
    try {
      full = await running;
    } finally {
      performance.now = now;
    }
    if (native) {
      performance.clearMarks();
      performance.clearMeasures();
    }
    const a = plain.log;
    const b = full.log;
    for (let i = 0; i < Math.max(a.length, b.length); i++) {
      if (a[i] !== b[i]) ctx.fail(`event ${i} is ${String(b[i]).slice(0, 400)} with middleware, and ${String(a[i]).slice(0, 400)} without`, a.slice(Math.max(0, i - 12), i + 1).join('\n').slice(0, 4000));
    }
    ctx.count('runs compared');
    const failedRenders = state.failedRenders ?? new Set();
    const failedCommits = state.failedCommits ?? new Set();
    ctx.count('failed commits', failedCommits.size);
    // Every render of a root that took effect was seen.
    for (const req of full.reqs) {
      if (req.settled !== 'ok' || !(req.kind === 'render' || req.kind === 'unmount')) continue;
      if (!state.seen.has(req.handle.id)) ctx.fail(`the update of ${full.describe(req)} did not pass through the middleware`);
      if (!state.commits.includes(req.handle.id)) ctx.fail(`the commit of ${full.describe(req)} did not pass through the middleware`);
    }
    const attempted = state.attempted ?? [];
    if (logger) {
      if (logger.open) ctx.fail('a report was left open');
      for (const id of state.seen.keys()) {
        const reports = logger.reports.get(id) ?? [];
        const failed = failedRenders.has(id);
        const expected = failed || attempted.includes(id) ? 1 : 0;
        if (reports.length !== expected) ctx.fail(`${reports.length} reports for update ${id}, which ${failed ? 'failed' : expected ? 'was committed' : 'was never committed'}`, a.join(' ').slice(0, 3000));
        ctx.count('reports checked', reports.length);
        for (const r of reports) {
          if (failed !== (r.status === 'FAILED')) ctx.fail(`update ${id} ${failed ? 'failed' : 'was committed'} but is reported as ${r.status}`);
          if (failed) ctx.count('reports of failed updates');
          const number = failed ? 0 : state.numbers.get(id);
          if (r.number !== number) ctx.fail(`the report of update ${id} is numbered tx${r.number} instead of tx${number}`);
          if (number > 0) ctx.count('reports of updates committed together');
          const req = full.byId.get(id);
          if (req) {
            const owner = req.root ? req.root.root.constructor.name : req.cell.memo ? full.Memo.name : full.Cell.name;
            if (r.owner !== owner) ctx.fail(`the report of update ${id} (${full.describe(req)}) names ${r.owner} instead of ${owner}`);
            const under = r.lines.find((l) => l.startsWith('Under'));
            const depth = under === undefined ? 0 : under.replace(/^Under %c/, '').split(' > ');
            if (depth.at(-1) !== owner || (req.root && depth.length > 1)) ctx.fail(`the report of update ${id} (${full.describe(req)}) has the owners ${depth}`);
            const o = req.options;
            if (o && !failed) {
              const priority = o.flushSync || o.handler ? 'user-blocking' : o.priority ?? (o.transition !== undefined || o.delay !== undefined ? 'background' : null);
              const mode = o.flushSync ? 'synchronous' : o.handler ? 'user-handler' : 'animation-frame';
              const rendered = r.lines.find((l) => l.startsWith('Rendered')).split('%c')[1];
              const committed = r.lines.find((l) => l.startsWith('Committed')).split('%c')[1];
              if (priority !== null && rendered !== priority) ctx.fail(`the report of update ${id} (${full.describe(req)}) has the priority ${rendered} instead of ${priority}`);
              if (committed !== mode) ctx.fail(`the report of update ${id} (${full.describe(req)}) has the mode ${committed} instead of ${mode}`);
              ctx.count('priorities and modes reported');
            }
          }
          const has = (re) => r.lines.filter((l) => re.test(l)).length;
          if (has(/^Rendered/) !== (failed ? 0 : 1) || has(/^Committed/) !== (failed ? 0 : 1)) ctx.fail(`the report of update ${id} is incomplete`, r.lines);
        }
      }
      for (const id of logger.reports.keys()) if (!state.seen.has(id)) ctx.fail(`report for update ${id}, which was never rendered`);
      const order = logger.order.filter((id) => attempted.includes(id));
      if (order.join() !== attempted.join()) ctx.fail(`reports in the order ${order} for commits in the order ${attempted}`);
    }
    if (timing) {
      for (const id of state.seen.keys()) {
        const marks = timing.marks.filter((m) => m.endsWith(':' + id)).map((m) => m.split(':')[1]);
        const want = ['render-start'];
        if (!failedRenders.has(id)) {
          want.push('render-end');
          if (attempted.includes(id)) want.push('commit-start');
          if (state.commits.includes(id)) want.push('commit-end');
        }
        if (marks.join() !== want.join()) ctx.fail(`update ${id} was marked ${marks} instead of ${want}`);
        const ms = timing.measures.filter((m) => m.a.endsWith(':' + id));
        const spans = ms.map((m) => `${m.name.split(' ')[0]}=${m.a.split(':')[1]}..${m.b.split(':')[1]}`).sort();
        const wantSpans = state.commits.includes(id) ? ['Commit=commit-start..commit-end', 'Render=render-start..render-end', 'Update=render-start..commit-end'] : [];
        if (spans.join() !== wantSpans.join() || ms.some((m) => !m.b.endsWith(':' + id))) ctx.fail(`update ${id} was measured as ${spans}`);
        ctx.count('measures checked', ms.length);
      }
    }
    if (ctx.i < 2) ctx.sample({ updates: state.seen.size, commits: state.commits.length, middleware: state.mws.map((m) => m.calls), failed: failedRenders.size, reports: logger?.order.length ?? null, measures: timing?.measures.length ?? null });
    return { sig: seed, nontrivial: state.commits.length >= 5 };
  },
};
