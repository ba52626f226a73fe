import { micro } from '../lib/sched.mjs';
import { Forest } from '../lib/forest.mjs';
import { checkVisible } from './C14.mjs';

const CONTINUOUS = [
  'drag', 'dragenter', 'dragleave', 'dragover', 'mouseenter', 'mouseleave', 'mousemove', 'mouseout', 'mouseover',
  'pointerenter', 'pointerleave', 'pointermove', 'pointerout', 'pointerover', 'scroll', 'touchmove', 'wheel',
];
const OTHER = [
  'click', 'dblclick', 'mousedown', 'mouseup', 'keydown', 'keyup', 'keypress', 'input', 'change', 'submit', 'focus', 'blur', 'focusin', 'pointerdown', 'pointerup',
  'touchstart', 'touchend', 'touchcancel', 'dragstart', 'dragend', 'drop', 'contextmenu', 'paste', 'scrollend', 'load', 'popstate', 'message', 'custom', 'x-drag', 'DRAG', 'Mousemove', '',
];
const PRIORITIES = ['user-blocking', 'user-visible', 'background'];

// Stand-ins for the scheduling APIs of a browser, on virtual time.
class Loop {
  constructor(ctx) {
    this.ctx = ctx;
    this.now = 0;
    this.tasks = [];
    this.timers = new Map();
    this.frames = new Map();
    this.posted = [];
    this.nextTimer = 1001;
    this.nextFrame = 500001;
    this.framesEnabled = true;
    this.used = {};
    this.saved = {};
  }
  use(api) {
    this.used[api] = (this.used[api] ?? 0) + 1;
    this.ctx.count('native calls: ' + api);
  }
  push(kind, f, extra = {}) {
    const t = { kind, due: this.now, ...extra };
    t.run = () => {
      const i = this.tasks.indexOf(t);
      if (i < 0) return;
      this.tasks.splice(i, 1);
      this.now = Math.max(this.now, t.due);
      t.ran = true;
      return f();
    };
    this.tasks.push(t);
    return t;
  }
  // Which of the APIs exist.
  install({ postTask, channel, idle, frames }) {
    const set = (o, k, v) => {
      this.saved[k] ??= [];
      this.saved[k].push([o, Object.getOwnPropertyDescriptor(o, k)]);
      Object.defineProperty(o, k, { value: v, configurable: true, writable: true });
    };
    const both = (k, v) => {
      set(globalThis, k, v);
      set(window, k, v);
    };
    this.set = both;
    both('scheduler', postTask ? {
      postTask: (f, options = {}) => {
        this.use('postTask');
        this.posted.push(options);
        return new Promise((resolve, reject) => {
          this.push('postTask', () => { try { resolve(f()); } catch (e) { reject(e); } }, { priority: options.priority, due: this.now + (options.delay ?? 0), options });
        });
      },
    } : postTask === null ? {} : undefined);
    const loop = this;
    class Port {
      onmessage = null;
      postMessage(data) {
        loop.use('MessageChannel');
        const other = this.other;
        loop.push('message', () => other.onmessage?.({ data }), { priority: 'user-blocking' });
      }
      start() {}
      close() {}
      addEventListener(type, f) { this.onmessage = f; }
    }
    both('MessageChannel', class { constructor() { this.port1 = new Port(); this.port2 = new Port(); this.port1.other = this.port2; this.port2.other = this.port1; } });
    both('requestIdleCallback', idle ? (f) => {
      this.use('requestIdleCallback');
      this.push('idle', () => f({ didTimeout: false, timeRemaining: () => 5 }), { priority: 'background' });
      return 7;
    } : undefined);
    both('setTimeout', (f, ms = 0) => {
      this.use('setTimeout');
      const id = this.nextTimer++;
      const t = this.push('timer', () => { this.timers.delete(id); f(); }, { due: this.now + ms, ms });
      this.timers.set(id, t);
      return id;
    });
    both('clearTimeout', (id) => {
      const t = this.timers.get(id);
      if (t) { this.timers.delete(id); this.tasks.splice(this.tasks.indexOf(t), 1); }
    });
    this.framesEnabled = frames;
    both('requestAnimationFrame', (f) => {
      this.use('requestAnimationFrame');
      const id = this.nextFrame++;
      const t = this.push('frame', () => { this.frames.delete(id); f(this.now); }, { due: this.now + 1 + this.ctx.rng.int(17) });
      this.frames.set(id, t);
      return id;
    });
    both('cancelAnimationFrame', (id) => {
      const t = this.frames.get(id);
      if (t) { this.frames.delete(id); this.tasks.splice(this.tasks.indexOf(t), 1); }
    });
  }
  restore() {
    for (const [k, list] of Object.entries(this.saved)) {
      for (const [o, d] of list.reverse()) {
        if (d) Object.defineProperty(o, k, d);
        else delete o[k];
      }
    }
  }
  // What may run next: timers only once nothing else is due before them.
  runnable() {
    return this.tasks.filter((t) => this.framesEnabled || t.kind !== 'frame');
  }
  async step(rng, policy) {
    let ts = this.runnable();
    if (ts.length === 0) return false;
    if (policy === 'time') {
      const due = Math.min(...ts.map((t) => Math.max(t.due, this.now)));
      ts = ts.filter((t) => t.due <= due);
    }
    const t = policy === 'fifo' ? ts[0] : policy === 'lifo' ? ts.at(-1) : rng.pick(ts);
    t.run();
    // Sometimes several tasks run before the promises get their turn.
    if (!rng.bool(0.1)) await micro();
    return true;
  }
}
const POLICIES = ['time', 'time', 'fifo', 'lifo', 'random'];

export default {
  allowUnhandled: true,
  id: 'C31',
  technique: 'runtime monitoring: the adapter runs against recording stand-ins of every native scheduling API on virtual time, which fire in any order; each invocation, settlement and cancellation is checked online',
  note: 'Random exploration; native APIs are models (MessageChannel, postTask, timers, idle and animation frame callbacks); abort signals are not used.',
  rule:
    'A case makes 3-15 overlapping requests (callbacks with any priority and delay, commits; sync, async, throwing and rejecting ones) to 1-2 adapters while a random subset of the native APIs exists, frames are produced or not, and the native callbacks fire in any order; or runs a whole forest of components on the adapter; or asks for the task priority inside of nested dispatches of 49 event types and in documents in any state. ' +
    'Each callback is invoked exactly once, asynchronously and not before its delay; its promise settles with it; each commit follows the first of its frame and its timeout, and cancels the other. Non-trivial: always.',
  quick: { cases: 3000, secs: 240 },
  thorough: { cases: 200000, secs: 600 },
  require: {
    'callbacks run': 8000, 'commits run in a frame': 1500, 'commits run by the timeout': 1500, 'failures passed on': 1500, 'delays observed': 500, 'priorities inside events': 3000, 'priorities outside events': 1000, 'nested events': 500, 'forest updates settled': 1000,
    'native calls: postTask': 1000, 'native calls: MessageChannel': 500, 'native calls: requestIdleCallback': 300, 'native calls: setTimeout': 2000, 'native calls: requestAnimationFrame': 2000,
  },
  minDistinct: 500,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const kind = rng.weighted([[4, 'requests'], [2, 'priority'], [2, 'forest']]);
    if (kind === 'priority') return this.priority(ctx, B);
    const loop = new Loop(ctx);
    const apis = { postTask: rng.weighted([[2, true], [3, false], [0.5, null]]), idle: rng.bool(), frames: rng.bool(0.7) };
    loop.install(apis);
    ctx.note(apis);
    try {
      await this[kind](ctx, B, loop, apis);
    } finally {
      loop.restore();
    }
    return { sig: ctx.trace.map((x) => (typeof x === 'string' ? x : JSON.stringify(x))).join() };
  },
  async requests(ctx, B, loop, apis) {
    const { rng } = ctx;
    const adapters = [new B.DOMAdapter()];
    if (rng.bool(0.3)) adapters.push(new B.DOMAdapter());
    const policy = rng.pick(POLICIES);
    const all = [];
    const make = () => {
      const commit = rng.bool(0.45);
      const how = rng.weighted([[5, 'sync'], [2, commit ? 'sync' : 'async'], [1, 'throw'], [1, commit ? 'throw' : 'reject']]);
      const priority = rng.pick([...PRIORITIES, undefined]);
      const delay = rng.weighted([[5, undefined], [1, 0], [1, 1], [1, 50], [1, 100], [1, 500]]);
      const r = { commit, how, priority, delay, at: loop.now, runs: 0, settled: null, error: new Error('callback') };
      ctx.note(`${commit ? 'commit' : 'callback'} ${how} ${commit ? '' : priority + ' ' + delay}`);
      let sync = true;
      const callback = (...args) => {
        r.runs++;
        if (sync) ctx.fail('the callback is invoked synchronously');
        if (r.runs > 1) ctx.fail('the callback is invoked twice');
        if (r.settled) ctx.fail('the promise settled before its callback ran');
        if (!commit && delay !== undefined) {
          if (loop.now < r.at + delay) ctx.fail(`a callback with a delay of ${delay} runs after ${loop.now - r.at}`);
          if (delay > 0) ctx.count('delays observed');
        }
        ctx.count('callbacks run');
        switch (how) {
          case 'throw': throw r.error;
          case 'reject': return Promise.reject(r.error);
          case 'async': return new Promise((resolve) => { loop.push('user', () => { r.inner = true; resolve(); }); });
        }
      };
      const before = loop.tasks.length;
      const adapter = rng.pick(adapters);
      const options = rng.bool(0.1) && priority === undefined && delay === undefined ? undefined : { ...(priority && { priority }), ...(delay !== undefined && { delay }), ...(rng.bool(0.2) && { transition: 1, flushSync: false }) };
      const n = loop.posted.length;
      const p = commit ? adapter.requestCommit(callback) : adapter.requestCallback(callback, options);
      sync = false;
      if (typeof p?.then !== 'function') ctx.fail('no promise is returned');
      p.then(() => { r.settled = 'ok'; }, (e) => { r.settled = 'error'; r.reason = e; });
      r.native = loop.tasks.slice(before);
      if (r.native.length === 0) ctx.fail('nothing was requested from the host');
      if (!commit && apis.postTask) {
        if (loop.posted.length !== n + 1) ctx.fail('postTask() is not used although it exists');
        const o = loop.posted[n] ?? {};
        if (o.priority !== priority || (o.delay ?? 0) !== (delay ?? 0)) ctx.fail(`postTask() got ${JSON.stringify(o)} for ${JSON.stringify(options)}`);
      }
      if (commit) {
        r.frame = r.native.find((t) => t.kind === 'frame');
        r.timer = r.native.find((t) => t.kind === 'timer');
        if (!r.frame || !r.timer || r.native.length !== 2) ctx.fail(`a commit requested ${r.native.map((t) => t.kind)}`);
      } else if (r.native.length !== 1) ctx.fail(`a callback requested ${r.native.map((t) => t.kind)}`);
      all.push(r);
    };
    const check = (rest) => {
      for (const r of all) {
        const fired = r.native.filter((t) => t.ran);
        if (fired.length === 0) {
          if (r.runs > 0) ctx.fail('the callback ran although nothing requested for it has fired');
          if (r.settled) ctx.fail('the promise settled although nothing has fired');
        } else {
          if (r.runs !== 1) ctx.fail(`${r.commit ? 'the commit' : 'the callback'} was invoked ${r.runs} times after its ${fired.map((t) => t.kind)} fired`);
          if (r.commit) {
            for (const t of r.native) if (!t.ran && loop.tasks.includes(t)) ctx.fail(`the ${t.kind} of a commit is not cancelled after its ${fired[0].kind}`);
            if (!r.counted) ctx.count(fired[0].kind === 'frame' ? 'commits run in a frame' : 'commits run by the timeout');
            // While time passes evenly, a frame comes within 17 ms.
            if (policy === 'time' && apis.frames && fired[0].kind !== 'frame') ctx.fail(`a commit ran by its timeout of ${r.timer.ms} ms although frames are produced`);
            r.counted = true;
          }
          const open = r.how === 'async' && !r.inner;
          const want = open ? null : r.how === 'throw' || r.how === 'reject' ? 'error' : 'ok';
          if (r.settled !== want) ctx.fail(`the promise of a callback (${r.how}) is ${r.settled} instead of ${want}`);
          if (want === 'error') {
            if (r.reason !== r.error) ctx.fail(`the promise is rejected with ${r.reason}`);
            if (!r.passed) ctx.count('failures passed on');
            r.passed = true;
          }
        }
        if (rest && r.runs !== 1) ctx.fail(`${r.commit ? 'a commit' : 'a callback'} was invoked ${r.runs} times in the end`);
      }
    };
    for (let i = rng.range(3, 15); i > 0; i--) {
      make();
      while (rng.bool(0.4)) await loop.step(rng, policy);
      await micro();
      check(false);
    }
    let n = 0;
    while (await loop.step(rng, policy)) {
      if (n++ > 500) throw new Error('HARNESS: never idle');
    }
    await micro();
    check(true);
    // Frames that come late do nothing any more.
    if (loop.tasks.length > 0) ctx.fail(`${loop.tasks.length} native callbacks are left: ${loop.tasks.map((t) => t.kind)}`);
    if (ctx.unhandled.length > 0) ctx.fail('unhandled: ' + String(ctx.unhandled[0]?.stack ?? ctx.unhandled[0]).slice(0, 800));
    if (ctx.i < 3) ctx.sample(all.map((r) => `${r.commit ? 'commit' : 'callback'} ${r.how} via ${r.native.map((t) => t.kind + (t.ran ? '!' : ''))}`));
  },
  async forest(ctx, B, loop) {
    const { rng } = ctx;
    const host = new B.DOMAdapter();
    host.tasks = loop.tasks;
    host._push = (kind, f) => new Promise((resolve, reject) => { loop.push('user', () => { try { resolve(f()); } catch (e) { reject(e); } }); });
    const forest = new Forest(ctx, B, host, { budget: rng.range(5, 20) });
    const policy = rng.pick(POLICIES);
    forest.runTask = function () {
      const ts = loop.runnable();
      if (ts.length > 0) (policy === 'fifo' ? ts[0] : policy === 'lifo' ? ts.at(-1) : rng.pick(ts)).run();
    };
    forest.onSettled = (req) => {
      ctx.count('forest updates settled');
      checkVisible(ctx, forest, req);
    };
    forest.onFailed = (req, e) => ctx.fail(`update rejected: ${forest.describe(req)}: ${e?.message}`);
    await forest.run('fifo');
    if (forest.open.size > 0) ctx.fail(`the host has run everything, but ${forest.open.size} updates never settle, e.g. ${forest.describe([...forest.open][0])}`);
    for (const root of forest.roots) {
      const got = forest.outline(root);
      const want = forest.expectedOutline(root);
      if (got !== want) ctx.fail(`at rest root ${root.i} shows ${got} instead of ${want}`);
    }
    forest.dispose();
  },
  async priority(ctx, B) {
    const { rng } = ctx;
    const adapter = new B.DOMAdapter();
    const el = document.createElement('div');
    const inner = document.createElement('p');
    el.append(inner);
    document.body.append(el);
    const expected = (type) => (CONTINUOUS.includes(type) ? 'user-visible' : 'user-blocking');
    const outside = () => {
      const got = adapter.getTaskPriority();
      const want = document.readyState === 'complete' ? 'background' : 'user-blocking';
      if (got !== want) ctx.fail(`the priority is ${got} instead of ${want} outside of events, while the document is ${document.readyState}`);
      ctx.count('priorities outside events');
    };
    const names = [];
    const dispatch = (depth) => {
      const type = rng.pick(rng.bool() ? CONTINUOUS : OTHER);
      if (type === '') return;
      names.push(type);
      const target = rng.pick([el, inner]);
      const check = () => {
        const got = adapter.getTaskPriority();
        if (got !== expected(type)) ctx.fail(`the priority is ${got} inside of a ${type} event`);
        ctx.count('priorities inside events');
      };
      const listener = () => {
        check();
        if (depth < 2 && rng.bool(0.4)) {
          ctx.count('nested events');
          dispatch(depth + 1);
          check();
        }
      };
      el.addEventListener(type, listener);
      target.dispatchEvent(rng.bool(0.3) ? new window.MouseEvent(type, { bubbles: true }) : new window.Event(type, { bubbles: true }));
      el.removeEventListener(type, listener);
    };
    for (let i = rng.range(3, 12); i > 0; i--) {
      if (rng.bool(0.4)) outside();
      dispatch(0);
      if (rng.bool(0.2)) { await micro(); outside(); }
    }
    el.remove();
    // Documents in other states.
    for (const readyState of ['loading', 'interactive', 'complete']) {
      for (const event of [undefined, { type: rng.pick(CONTINUOUS) }, { type: rng.pick(OTHER) }]) {
        for (const view of event ? [{ event }] : [{ event }, null]) {
          const got = new B.DOMAdapter({ defaultView: view, readyState }).getTaskPriority();
          const want = event ? expected(event.type) : readyState === 'complete' ? 'background' : 'user-blocking';
          if (got !== want) ctx.fail(`the priority is ${got} instead of ${want} in ${event ? event.type : 'no event'} while the document is ${readyState}`);
          ctx.count(event ? 'priorities inside events' : 'priorities outside events');
        }
      }
    }
    return { sig: names.join() };
  },
};
