const is = Object.is;
const OBJ = [{}, [], () => {}];
const EDGES = [0, -0, NaN, null, undefined, '', '0', false, true, ...OBJ];
const show = (v) => (is(v, -0) ? '-0' : typeof v === 'object' && v !== null ? 'obj' + OBJ.indexOf(v) : typeof v === 'function' ? 'fn' : String(v));

export default {
  id: 'C21',
  technique: 'runtime monitoring: log of writes and subscriber calls checked online against the notification rules, with reentrant workloads',
  note: 'Random exploration; subscribers do not throw; whether a subscriber added during a notification hears of that same write is left open, as in the statement.',
  rule:
    'A case drives 1-3 atoms and accessors with 30-80 random subscribe, unsubscribe (also twice) and write operations; subscribers themselves unsubscribe others or themselves, subscribe new ones and write, up to 3 levels deep. ' +
    'For every write of a different value each subscription present at the start and not removed before its turn is called exactly once, in order of subscription, with the right event. Non-trivial: some subscription was removed during a notification.',
  quick: { cases: 4000, secs: 240 },
  thorough: { cases: 1000000, secs: 600 },
  require: { writes: 50000, 'equal writes': 10000, calls: 100000, 'removed during a notification': 5000, 'removed before their turn': 2000, 'added during a notification': 2000, 'nested writes': 3000, 'removed twice': 1000, 'same function twice': 1000 },
  minDistinct: 1000,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    let nextValue = 100;
    let removedDuring = 0;
    const signals = Array.from({ length: rng.range(1, 3) }, (_, i) => {
      const v = rng.pick(EDGES);
      const x = { i, v, subs: [], stack: [], writes: 0 };
      if (rng.bool(0.6)) x.s = new B.Atom(v);
      else {
        let store = v;
        x.s = new B.Accessor(() => store, (nv) => { store = nv; });
      }
      return x;
    });
    let active = 0; // notifications in progress
    let budget = 200;
    let nextSub = 1;
    const fns = [];
    const subscribe = (x) => {
      const sub = { id: nextSub++, x, on: true, stop: null };
      let fn;
      // The same function may be subscribed again: then calls are told apart
      // by count only.
      if (fns.length > 0 && rng.bool(0.1)) {
        fn = rng.pick(fns);
        ctx.count('same function twice');
      } else {
        fn = (event) => called(fn, event);
        fns.push(fn);
      }
      sub.fn = fn;
      x.subs.push(sub);
      if (active > 0) ctx.count('added during a notification');
      sub.stop = x.s.subscribe(fn);
      ctx.note(`subscribe s${x.i} -> ${sub.id}`);
    };
    const unsubscribe = (sub) => {
      ctx.note(`unsubscribe ${sub.id}`);
      if (!sub.on) ctx.count('removed twice');
      else if (active > 0) {
        removedDuring++;
        ctx.count('removed during a notification');
      }
      sub.on = false;
      const r = sub.stop();
      void r;
    };
    const called = (fn, event) => {
      ctx.count('calls');
      if (!event || typeof event !== 'object') ctx.fail('a subscriber is called without an event');
      const x = signals.find((y) => y.s === event.source);
      if (!x) ctx.fail('the source of an event is not the signal written');
      // The innermost notification of this signal must be the one reported.
      const w = x.stack[x.stack.length - 1];
      if (!w) ctx.fail(`a subscriber of s${x.i} is called although nothing is being written`);
      if (event.type !== 'set' || event.path.length !== 0) ctx.fail(`event of type ${event.type} with path ${event.path} for a write`);
      if (!is(event.oldValue, w.old) || !is(event.newValue, w.v)) ctx.fail(`a subscriber of s${x.i} hears of ${show(event.oldValue)} -> ${show(event.newValue)} during the write ${show(w.old)} -> ${show(w.v)}`);
      if (!is(x.s.value, x.v)) ctx.fail(`s${x.i} reads ${show(x.s.value)} inside a subscriber, expected ${show(x.v)}`);
      // Which subscription is it? The next one in order with this function.
      let j = w.at;
      while (j < w.queue.length && (!w.queue[j].on || w.queue[j].fn !== fn)) {
        if (w.queue[j].on) ctx.fail(`subscription ${w.queue[j].id} of s${x.i} is skipped`);
        ctx.count('removed before their turn');
        j++;
      }
      if (j < w.queue.length) w.at = j + 1;
      else {
        const late = x.subs.filter((s) => s.on && s.fn === fn && !w.queue.includes(s) && !w.late.has(s));
        if (late.length === 0) ctx.fail(`a subscriber of s${x.i} is called twice for a write, or after it was removed`);
        w.late.add(late[0]);
        w.at = w.queue.length;
      }
      const me = j < w.queue.length ? w.queue[j] : null;
      if (budget <= 0) return;
      const n = rng.weighted([[6, 0], [3, 1], [1, 2]]);
      for (let k = 0; k < n; k++) {
        budget--;
        const all = signals.flatMap((y) => y.subs);
        switch (rng.weighted([[3, 'self'], [3, 'next'], [2, 'any'], [2, 'two'], [1.5, 'sub'], [active < 3 ? 2 : 0, 'write']])) {
          case 'self': if (me) unsubscribe(me); break;
          case 'next': if (w.queue[w.at]) unsubscribe(w.queue[w.at]); break;
          case 'two': for (const z of w.queue.slice(Math.max(0, w.at - 1), w.at + 1 + rng.int(2))) unsubscribe(z); break;
          case 'any': unsubscribe(rng.pick(all)); break;
          case 'sub': subscribe(rng.bool(0.7) ? x : rng.pick(signals)); break;
          case 'write': ctx.count('nested writes'); write(rng.bool(0.6) ? x : rng.pick(signals)); break;
        }
      }
    };
    const write = (x) => {
      const equal = rng.bool(0.25);
      const v = equal ? x.v : rng.bool(0.4) ? rng.pick(EDGES) : nextValue++;
      const old = x.v;
      ctx.note(`s${x.i}: ${show(old)} -> ${show(v)}`);
      const silent = is(old, v);
      ctx.count(silent ? 'equal writes' : 'writes');
      const w = { old, v, queue: silent ? [] : x.subs.filter((s) => s.on), at: 0, late: new Set() };
      if (silent) {
        // Nobody may be called: no record for it on the stack.
        const saved = x.stack;
        x.stack = [];
        x.s.value = v;
        x.stack = saved;
        return;
      }
      x.v = v;
      x.stack.push(w);
      active++;
      x.s.value = v;
      active--;
      x.stack.pop();
      for (let j = w.at; j < w.queue.length; j++) {
        if (w.queue[j].on) ctx.fail(`subscription ${w.queue[j].id} of s${x.i} did not hear of ${show(old)} -> ${show(v)}`);
        ctx.count('removed before their turn');
      }
    };
    const steps = rng.range(30, 80);
    for (let i = 0; i < steps; i++) {
      const x = rng.pick(signals);
      const all = signals.flatMap((y) => y.subs);
      switch (rng.weighted([[x.subs.filter((s) => s.on).length < 8 ? 4 : 0.2, 'sub'], [all.length ? 1 : 0, 'unsub'], [5, 'write']])) {
        case 'sub': subscribe(x); break;
        case 'unsub': unsubscribe(rng.pick(all)); break;
        case 'write': write(x); break;
      }
      if (ctx.first) throw ctx.first;
      if (!is(x.s.value, x.v)) ctx.fail(`s${x.i} reads ${show(x.s.value)}, expected ${show(x.v)}`);
    }
    if (ctx.i < 2) ctx.sample(ctx.trace.slice(0, 8));
    return { sig: ctx.trace.join('\n'), nontrivial: removedDuring > 0 };
  },
};
