import { existsSync } from 'node:fs';
import { makeHost } from '../lib/sched.mjs';
import { makeRng } from '../lib/rng.mjs';
import { Forest, POLICIES } from '../lib/forest.mjs';
import { addHooks } from '../lib/hooks.mjs';
import { Session } from '../lib/session.mjs';
import { TEMPLATES, BOUND_TEMPLATES } from '../lib/app.mjs';

// One run of a program under one schedule, as a list of observations.
async function runForest(ctx, B, seed) {
  const rng = makeRng(seed);
  const host = makeHost(B, { taskPriority: () => rng.pick(['user-blocking', 'user-visible', 'background']) });
  host.getIdentifier = () => 'id';
  const forest = new Forest(Object.create(ctx, { rng: { value: rng }, note: { value() {} } }), B, host, {});
  if (rng.bool(0.7)) addHooks(forest);
  const dom = () => forest.ev('DOM ' + forest.stage.innerHTML);
  let last = '';
  forest.onStep = () => {
    if (forest.poke && rng.bool(0.2) && !forest.stopped) forest.poke();
    const now = forest.stage.innerHTML;
    if (now !== last) forest.ev('DOM ' + now);
    last = now;
  };
  forest.onFailed = (req, e) => forest.ev(`failed ${e?.constructor?.name}`);
  const keep = [];
  try {
    await forest.run(rng.pick(POLICIES));
    forest.stopped = true;
    await forest.drain();
    dom();
  } catch (e) {
    if (/HARNESS/.test(e.message)) throw e;
    forest.ev('escaped ' + e.message);
  } finally {
    forest.dispose();
  }
  keep.push(...forest.log);
  return keep;
}
async function runSession(ctx, B, seed) {
  const rng = makeRng(seed);
  const log = [];
  const sub = Object.create(ctx, { rng: { value: rng }, note: { value() {} }, fail: { value(m) { log.push('FAIL ' + m); throw new Error('SESSION ' + m); } } });
  let labels = 0;
  const bound = rng.bool(0.6);
  const s = new Session(sub, B, {
    roots: rng.range(1, 2), depth: rng.range(2, 4), budget: rng.range(6, 16), foreign: rng.bool(0.2),
    templates: bound ? [...TEMPLATES, ...BOUND_TEMPLATES, ...BOUND_TEMPLATES] : TEMPLATES,
    makeEvent: (r) => { const l = labels++; return r.bool(0.2) ? null : Object.assign(() => log.push('event' + l), { label: 'e' + l }); },
    makeRef: (r) => { const l = labels++; return r.bool(0.2) ? null : Object.assign((el) => { log.push(`ref${l} ${el.localName}`); return () => log.push('unref' + l); }, { label: 'r' + l }); },
  });
  s.host.getIdentifier = () => 'id';
  s.world.useHooks = (context, iid, def) => {
    if (def.stateless) return;
    const id = context.useId();
    context.useEffect(() => { log.push(`E${iid} ${id}`); return () => log.push(`e${iid}`); });
  };
  const track = s.track;
  s.track = (handle, op) => {
    handle.finished.then(() => log.push(`S${handle.id}`), () => log.push(`F${handle.id}`));
    return track.call(s, handle, op);
  };
  const policy = rng.pick(POLICIES);
  const html = () => log.push('DOM ' + s.world.stage.innerHTML);
  const dump = () => { for (const e of s.log) log.push(e.t + (e.id ?? e.iid) + (e.state ?? '')); s.log = []; };
  try {
    const n = rng.range(3, 8);
    for (let i = 0; i < n; i++) {
      const k = rng.range(1, 3);
      for (let j = 0; j < k; j++) {
        s.randomOp();
        while (rng.bool(0.3)) await s.step(policy);
      }
      await s.drain(policy);
      dump();
      s.applyLog();
      const els = [...s.world.stage.querySelectorAll('*')];
      if (els.length > 0) {
        const t = rng.pick(els);
        t.dispatchEvent(new window.Event('click', { bubbles: true }));
        t.dispatchEvent(new window.Event('x-ev'));
      }
      html();
    }
  } catch (e) {
    if (/HARNESS/.test(e.message)) throw e;
    log.push('escaped ' + e.message.replace(/[\s\S]*SESSION/, ''));
  } finally {
    await s.finish();
  }
  return log;
}

// The workload of another check: its own verdict and trace are the log.
const OTHERS = {};
for (const id of ['C01', 'C02', 'C03', 'C04', 'C05', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C26', 'C27', 'C28', 'C30', 'C33']) {
  if (existsSync(new URL(`./${id}.mjs`, import.meta.url))) OTHERS[id] = (await import(`./${id}.mjs`)).default;
}
class Stop extends Error {}
async function runOther(ctx, B, seed, id, mv) {
  const rng = makeRng(seed);
  const log = [];
  const sub = {
    i: 9, rng, env: ctx.env, tier: 'quick', dir: ctx.dir, consoleLog: [], unhandled: ctx.unhandled, domErrors: ctx.domErrors, trace: [], first: null,
    count(name, n) { log.push(`${name}+${n ?? 1}`); }, max() {}, sample() {},
    note(x) { this.trace.push(x); },
    fail(m) { throw (this.first ??= new Stop(m)); },
    async lib() { return B; },
    async pickLib() { rng.bool(); rng.bool(); this.variant = 'either'; this.mv = mv; return (this.B = B); },
  };
  try {
    const r = (await OTHERS[id].run(sub, 9)) ?? {};
    log.push('held ' + (r.nontrivial !== false));
    if (sub.first) throw sub.first;
  } catch (e) {
    if (/^HARNESS/.test(e.message)) throw e;
    log.push('failed');
  }
  return log;
}

export default {
  allowUnhandled: true,
  allowDomErrors: true,
  id: 'C19',
  technique: 'runtime monitoring: the same program is run under the same schedule against the debug and the production build, and their complete observation logs are compared',
  note: 'Random exploration; the production build is made with the DEBUG label dropped as the documentation describes; messages of errors and warnings are not compared.',
  rule:
    'A case is a random program (a forest of components with up to three further hooks or addons each, arbitrary trees of templates, portals, listeners, refs and components, or a workload of one of the other checks) with random requests, writes and host schedule, executed once per build from the same seed, with or without moveBefore. ' +
    'The logs of renders, effects, cleanups, ref calls, hook results, commits, settlements and DOM snapshots must be equal, event by event. Non-trivial: the program had more than 30 events.',
  quick: { cases: 2400, secs: 240 },
  thorough: { cases: 150000, secs: 600 },
  require: { 'events compared': 200000, forests: 500, trees: 500, 'workloads of other checks': 500, 'DOM snapshots compared': 5000, 'hook results compared': 10000 },
  minDistinct: 1000,
  async run(ctx) {
    const { rng } = ctx;
    const mv = rng.bool();
    const seed = `${rng.int(2 ** 31)}/${rng.int(2 ** 31)}`;
    const kind = rng.weighted([[3, 'forest'], [3, 'tree'], ...Object.keys(OTHERS).map((id) => [4 / Object.keys(OTHERS).length, id])]);
    const f = kind === 'forest' ? runForest : kind === 'tree' ? runSession : (c, B, s) => runOther(c, B, s, kind, mv);
    ctx.note({ kind, seed, mv });
    const debugFirst = rng.bool();
    const B1 = await ctx.lib(debugFirst ? 'debug' : 'prod', mv);
    const a = await f(ctx, B1, seed);
    const B2 = await ctx.lib(debugFirst ? 'prod' : 'debug', mv);
    const b = await f(ctx, B2, seed);
    ctx.count(kind === 'forest' ? 'forests' : kind === 'tree' ? 'trees' : 'workloads of other checks');
    const n = Math.max(a.length, b.length);
    for (let i = 0; i < n; i++) {
      ctx.count('events compared');
      if (a[i] !== b[i]) {
        const [d, p] = debugFirst ? [a, b] : [b, a];
        ctx.fail(`event ${i} differs: ${String(d[i]).slice(0, 300)} in the debug build, ${String(p[i]).slice(0, 300)} in the production build`, d.slice(Math.max(0, i - 15), i + 1).join('\n').slice(0, 4000));
      }
      if (a[i].startsWith('DOM ')) ctx.count('DOM snapshots compared');
      if (a[i].startsWith('V')) ctx.count('hook results compared');
    }
    const bad = a.find((x) => x.startsWith('FAIL') || x.startsWith('escaped') || x.startsWith('failed'));
    if (bad) ctx.count('programs that failed in both builds');
    if (ctx.i < 2) ctx.sample(a.slice(0, 30));
    return { sig: seed, nontrivial: n > 30 };
  },
};
