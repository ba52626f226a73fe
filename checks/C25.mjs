import { makeHost, micro } from '../lib/sched.mjs';
import { Forest, POLICIES } from '../lib/forest.mjs';

const is = Object.is;
const show = (v) => (typeof v === 'function' ? 'fn' + v.n : typeof v === 'object' && v !== null ? 'obj' + v.n : is(v, -0) ? '-0' : String(v));

export default {
  id: 'C25',
  technique: 'runtime monitoring: each value returned by DeferredValue is matched online against the values committed before, and the pending flag in the DOM with a model of the running transitions at every step of a virtual host',
  note: 'Random exploration; updates of an action are requested with its transition and no further options; custom equality functions are not used.',
  rule:
    'A case is a forest of components over 1-3 roots using DeferredValue (values of any type, new, repeated and alternating ones, with any initial value and dispatch options) and/or Transition, with transitions started from outside, listeners, effects and other actions: sync, throwing, async, rejected and overlapping ones, whose actions update any cells before and after awaiting, under random host schedules. ' +
    'Deferred values are the initial one and then committed ones in order, never the one just passed, and the latest at rest; a component is pending at every step at which one of its transitions has not ended or not been committed, and idle at rest otherwise. Non-trivial: a deferred value lagged behind or two transitions overlapped.',
  quick: { cases: 2500, secs: 240 },
  thorough: { cases: 200000, secs: 600 },
  require: {
    'deferred values compared': 30000, 'deferred values lagging': 2000, 'deferred values at rest': 3000, 'initial values': 500, 'transitions started': 5000, 'transitions sync': 1000, 'transitions async': 1000, 'transitions rejected': 300, 'transitions throwing': 300,
    'overlapping transitions': 1000, 'callbacks for deferred values': 3000, 'pending while running': 10000, 'pending while not committed': 300, 'idle at rest': 3000, 'updates of actions': 3000, 'updates of actions visible when idle': 1500,
  },
  minDistinct: 1500,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const host = makeHost(B, { taskPriority: () => rng.pick(['user-blocking', 'user-visible', 'background']) });
    const forest = new Forest(ctx, B, host, { budget: rng.range(6, 30) });
    let budget = rng.range(3, 20);
    // Updates of other components are only certain to be rendered together
    // with the end of the transition if no other update shares its lane.
    const plain = rng.bool(0.4);
    let transitions = 0;
    if (plain) {
      const base = forest.options.bind(forest);
      forest.options = () => {
        const o = base();
        return o === 'handler+' ? 'handler' : o === undefined || typeof o === 'string' || o.transition === undefined ? o : { priority: 'background' };
      };
    }
    let nontrivial = false;
    let serial = 1;
    let deferring = null; // while the effect of DeferredValue runs
    host.onRequest = ({ kind, options }) => {
      if (kind !== 'task' || deferring === null) return;
      ctx.count('callbacks for deferred values');
      if (typeof options.transition !== 'number') ctx.fail('the value is not deferred in a transition: ' + JSON.stringify(options));
      for (const [k, v] of Object.entries(deferring.options ?? {})) if (options[k] !== v) ctx.fail(`the value is deferred without the option ${k}: ` + JSON.stringify(options));
    };
    const running = []; // async actions: {go()}
    const value = (cell) => {
      switch (rng.int(8)) {
        case 0: case 1: return serial++;
        case 2: return 's' + serial++;
        case 3: return { n: serial++ };
        case 4: return Object.assign(() => {}, { n: serial++ });
        case 5: return rng.pick([null, undefined, NaN, 0, -0, '', false, true]);
        default: return cell.vals.length > 0 ? rng.pick(cell.vals) : 'first';
      }
    };
    forest.useMore = (context, cell) => {
      cell.plan ??= { deferred: !plain && rng.bool(0.6), transition: rng.bool(0.6), hasInitial: rng.bool(0.4), initial: rng.pick(['init', 0, null, false, '', NaN, undefined, 'init']), lazy: rng.bool(0.3), options: rng.pick([undefined, undefined, { priority: 'background' }, { priority: 'user-visible' }, { flushSync: true }, { delay: 20 }]) };
      const { plan } = cell;
      if (plan.deferred) {
        cell.vals ??= [];
        const first = cell.renders === 1;
        if (first || rng.bool(0.5)) {
          cell.value = value(cell);
          cell.vals.push(cell.value);
        }
        const v = cell.value;
        // Runs before the effect of the hook.
        context.useEffect(() => {
          if (cell.passed.length === 0 || !is(cell.passed.at(-1), v)) cell.passed.push(v);
          cell.latest = v;
          deferring = plan;
        });
        const options = { ...plan.options };
        const given = plan.hasInitial && plan.initial !== undefined;
        if (plan.hasInitial) options.initialValue = plan.lazy && given ? () => plan.initial : plan.initial;
        const d = context.use(plan.hasInitial || plan.options ? B.DeferredValue(v, options) : B.DeferredValue(v));
        context.useEffect(() => { deferring = null; });
        if (cell.renders === 1) {
          const want = given ? plan.initial : v;
          if (!is(d, want)) ctx.fail(`cell ${cell.n}: the first value is ${show(d)} instead of ${show(want)} (initial value ${plan.hasInitial ? show(plan.initial) : 'none'})`);
          cell.passed = [d];
          cell.at = 0;
          ctx.count('initial values', given ? 1 : 0);
        } else if (cell.passed.length === 1 && !cell.connected && !is(d, cell.passed[0])) {
          ctx.fail(`cell ${cell.n}: the value changes to ${show(d)} before the component has been mounted`);
        }
        context.useEffect(() => { cell.connected = true; }, []);
        let i = cell.at;
        while (i < cell.passed.length && !is(cell.passed[i], d)) i++;
        if (i === cell.passed.length) ctx.fail(`cell ${cell.n}: DeferredValue returns ${show(d)} while rendering ${show(v)}; committed so far: ${cell.passed.map(show)}, at ${cell.at}`);
        cell.at = i;
        cell.deferred = d;
        ctx.count('deferred values compared');
        if (!is(d, v)) {
          ctx.count('deferred values lagging');
          nontrivial = true;
        }
        forest.ev(`D${cell.n}:${show(v)}>${show(d)}`);
      }
      if (plan.transition) {
        const [pending, start] = context.use(B.Transition());
        if (typeof pending !== 'boolean') ctx.fail(`pending is ${String(pending)}`);
        cell.starts ??= [];
        if (cell.starts.length < 4) cell.starts.push(start);
        else cell.starts[3] = start;
        cell.ts ??= [];
        cell.pending = pending;
        if (cell.renders === 1 && pending) ctx.fail('pending at first');
        forest.ev(`T${cell.n}:${pending}`);
      }
    };
    forest.moreChildren = (context, cell) => (cell.plan.transition ? [B.html`<b data-p=${String(cell.pending)}></b>`] : []);
    const shown = (cell) => cell.el.querySelector(':scope > .more > b')?.dataset.p === 'true';
    const visible = (t, cell) => t.reqs.every((r) => (r.cell !== cell && (!plain || transitions >= 24)) || !r.cell.mounted || r.settled || r.cell.el.getAttribute('data-list').split(',').includes(String(r.n)));
    const act = (cell, transition, t) => {
      for (let k = rng.int(3); k > 0; k--) {
        const live = [...forest.cells.values()].filter((c) => c.mounted && c.send);
        if (live.length === 0) return;
        const target = rng.bool(0.4) ? cell : rng.pick(live);
        const req = { n: forest.nextReq++, kind: 'send', origin: 'action', cell: target, options: { transition }, settled: null };
        forest.issue(req, () => target.send(req.n, req.options));
        t.reqs.push(req);
        ctx.count('updates of actions');
      }
      if (rng.bool(0.1)) begin();
    };
    const begin = () => {
      if (budget <= 0 || forest.stopped) return;
      const live = [...forest.cells.values()].filter((c) => c.mounted && c.starts);
      if (live.length === 0) return;
      budget--;
      const cell = rng.pick(live);
      const start = rng.pick(cell.starts);
      const kind = rng.weighted([[3, 'sync'], [4, 'async'], [1.5, 'rejected'], [1, 'throwing'], [0.5, 'settled'], [0.3, 'thenable']]);
      const t = { n: serial++, kind, ended: false, shown: false, reqs: [] };
      if (cell.ts.some((x) => !x.ended)) {
        ctx.count('overlapping transitions');
        nontrivial = true;
      }
      cell.ts.push(t);
      ctx.count('transitions started');
      ctx.count('transitions ' + kind);
      ctx.note(`transition ${t.n} ${kind} in cell ${cell.n}`);
      forest.ev(`B${cell.n}:${t.n}`);
      const error = new Error('action');
      let result;
      let runs = 0;
      let got, thrown;
      try {
        got = start((transition) => {
          runs++;
          if (typeof transition !== 'number') ctx.fail(`the transition is ${transition}`);
          transitions = Math.max(transitions, transition);
          act(cell, transition, t);
          switch (kind) {
            case 'sync': return (result = rng.pick([undefined, null, 1, 'x', result]));
            case 'thenable': return (result = { then: 1 });
            case 'throwing': throw error;
            case 'settled': return (result = Promise.resolve(serial));
          }
          return (result = new Promise((resolve, reject) => {
            let left = rng.int(3);
            const go = () => {
              if (left-- > 0) {
                act(cell, transition, t);
                running.push({ go });
                return;
              }
              if (rng.bool()) act(cell, transition, t);
              forest.ev(`X${cell.n}:${t.n}`);
              if (kind === 'rejected') reject(error);
              else resolve(t.n);
              t.settled = true;
            };
            running.push({ go });
          }));
        });
      } catch (e) {
        thrown = e;
      }
      if (runs !== 1) ctx.fail(`the action ran ${runs} times`);
      if (kind === 'throwing' ? thrown !== error : thrown !== undefined) ctx.fail(`startTransition throws ${thrown} (${kind})`, thrown?.stack);
      if (kind !== 'throwing' && got !== result) ctx.fail(`startTransition returns ${String(got)} instead of the result of the action`);
      if (kind === 'async' || kind === 'rejected' || kind === 'settled') {
        result.catch(() => {});
        result.then(() => {}, () => {}).then(() => { t.ended = true; });
      } else t.ended = true;
    };
    const committing = () => host.tasks.some((x) => x.kind !== 'task');
    const watch = () => {
      if (ctx.first) throw ctx.first;
      for (const cell of forest.cells.values()) {
        if (!cell.mounted || !cell.starts) continue;
        const p = shown(cell);
        for (const t of cell.ts) {
          if (t.done) continue;
          if (!t.shown) {
            if (committing()) continue; // another commit has to finish first
            if (!t.ended && !p) ctx.fail(`cell ${cell.n} is not pending although transition ${t.n} (${t.kind}) has started`, forest.log.join(' '));
            if (!t.ended) t.shown = true;
            else if (p) t.shown = true;
            if (t.ended && !p) t.done = true;
            continue;
          }
          if (!t.ended) {
            if (!p) ctx.fail(`cell ${cell.n} is idle although transition ${t.n} (${t.kind}) has not ended`, forest.log.join(' '));
            ctx.count('pending while running');
          } else if (!visible(t, cell)) {
            if (!p) ctx.fail(`cell ${cell.n} is idle although the updates of transition ${t.n} (${t.kind}) have not been committed`, forest.log.join(' '));
            ctx.count('pending while not committed');
          } else if (!p) {
            t.done = true;
            if (t.reqs.length > 0) ctx.count('updates of actions visible when idle');
          }
        }
      }
    };
    const rest = (when) => {
      watch();
      for (const cell of forest.cells.values()) {
        if (!cell.mounted) continue;
        if (cell.starts) {
          const open = cell.ts.some((t) => !t.ended);
          if (shown(cell) !== open) ctx.fail(`${when}: cell ${cell.n} is ${open ? 'idle' : 'pending'} although ${open ? 'a transition is running' : 'all of its transitions have ended'} (${cell.ts.map((t) => t.kind)})`, forest.log.join(' '));
          if (!open) ctx.count('idle at rest');
        }
        if (cell.plan.deferred) {
          if (!is(cell.deferred, cell.latest)) ctx.fail(`${when}: cell ${cell.n} still shows the deferred value ${show(cell.deferred)} instead of ${show(cell.latest)}`, forest.log.join(' '));
          ctx.count('deferred values at rest');
        }
      }
    };
    forest.onFailed = (req, e) => ctx.fail(`update rejected: ${forest.describe(req)}: ${e?.message}`, String(e?.cause?.stack ?? e?.stack ?? e));
    forest.onIdle = watch;
    forest.onEffect = (cell, kind) => { if (kind === 'list' && rng.bool(0.05)) begin(); };
    const click = forest.click;
    forest.click = () => { click.call(forest); if (rng.bool(0.3)) begin(); };
    forest.onStep = () => {
      if (rng.bool(0.25)) begin();
      if (running.length > 0 && rng.bool(0.25)) running.splice(rng.int(running.length), 1)[0].go();
    };
    const policy = rng.pick(POLICIES);
    await forest.run(policy);
    rest('after the program');
    forest.onStep = () => {};
    while (running.length > 0) {
      running.splice(rng.int(running.length), 1)[0].go();
      if (rng.bool(0.7)) {
        await forest.drain(policy);
        rest('while transitions are running');
      }
    }
    budget = 0;
    await forest.drain(policy);
    rest('in the end');
    forest.dispose();
    if (ctx.i < 2) ctx.sample(forest.log.slice(0, 60).join(' '));
    return { sig: forest.log.join(' '), nontrivial };
  },
};
