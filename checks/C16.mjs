import { makeHost } from '../lib/sched.mjs';
import { Forest, POLICIES } from '../lib/forest.mjs';

const PRIORITIES = ['user-blocking', 'user-visible', 'background'];
// Lanes of a request as the documentation describes them, most urgent first.
const LANE = { sync: 1, handler: 2, 'user-blocking': 4, 'user-visible': 8, background: 16 };
function expectedLanes(o, hostPriority) {
  let lanes = 0;
  if (o?.flushSync) lanes |= LANE.sync;
  if (o?.handler) lanes |= LANE.handler;
  if (o?.priority) lanes |= LANE[o.priority];
  const transition = o?.transition !== undefined;
  const delay = o?.delay !== undefined;
  if (lanes === 0 && !transition && !delay) lanes = LANE[hostPriority];
  return { lanes, transition, delay };
}
const TRANSITIONS = 0b0011111111111111111111111100000;
const rankOf = (lanes) => 31 - Math.clz32(lanes & -lanes);
const bits = (lanes) => {
  const r = [];
  for (let b = 0; b < 32; b++) if (lanes & (1 << b)) r.push(b);
  return r;
};
const kindOf = (rank) => ['sync', 'handler', 'user-blocking', 'user-visible', 'background'][rank] ?? (rank < 29 ? 'transition' : 'delay');
const urgency = (lanes) => { const r = rankOf(lanes); return r < 5 ? r : r < 29 ? 5 : 6; };

export default {
  id: 'C16',
  technique: 'runtime monitoring: an online checker follows every request from the host callback it is given to its render and commit and flags priority inversions, early renders and reordering',
  note: 'Random exploration; urgency is judged by the most urgent option of a request, and requests that share the pending callback of an earlier one are due with it.',
  rule:
    'A case is the forest workload of C14 with random host priorities. Every request must reach the host with its options and priority unless callbacks for all its lanes are pending; when a batch is rendered no ready update of higher urgency may be left out, no update may be rendered before it or one of lower urgency is due, ' +
    'and renders of one root with equal urgency are rendered and committed in request order. Non-trivial: some batch was rendered while less urgent ready or unready updates were waiting.',
  quick: { cases: 4000, secs: 240 },
  thorough: { cases: 200000, secs: 600 },
  require: {
    'host requests compared': 40000, 'requests joining a pending callback': 5000, 'batches with waiting updates': 8000, 'batches checked for inversions': 30000, 'updates checked for earliness': 30000, 'ordered renders of a root': 3000, 'default priorities': 10000, 'ready updates of lower urgency waiting': 1500, 'updates rendered with one that is due': 50,
  },
  minDistinct: 2000,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    let reported = null;
    const host = makeHost(B, { taskPriority: () => (reported = rng.pick(PRIORITIES)) });
    const forest = new Forest(ctx, B, host);
    let issuing = null;
    let flushing = false; // between the first render of a batch and the end of its commit
    let nontrivial = false;
    host.onRequest = (entry) => {
      if (entry.kind === 'task') {
        if (issuing === null) ctx.fail('the host is asked for a callback outside of a request');
        if (issuing.entry) ctx.fail(`two host callbacks for one request: ${forest.describe(issuing)}`);
        issuing.entry = entry;
      }
    };
    host.onRun = (entry) => { if (entry.kind === 'task') { entry.ran = true; entry.ranAt = ++clock; } };
    let clock = 0;
    const entries = []; // { entry, lanes } of requests, oldest first
    forest.onRequest = (req) => {
      issuing = req;
      queueMicrotask(() => { for (const r of forest.open) if (r.gates === null && !r.entry.ran) r.turned = r.entry.ran = true, r.entry.ranAt = ++clock; });
      req.entry = null;
      reported = null;
    };
    forest.onRequested = (req, h) => {
      issuing = null;
      if (h.id < 0) return (req.noop = true);
      const o = req.options;
      req.at = forest.log.length;
      req.clock = clock;
      const want = expectedLanes(o, reported);
      const fixed = h.lanes & 31;
      if (fixed !== want.lanes) ctx.fail(`request is given lanes ${h.lanes.toString(2)}: ${forest.describe(req)}, host reports ${reported}`);
      if (bits(h.lanes).some((b) => b >= 5 && b < 29) !== want.transition || bits(h.lanes).some((b) => b >= 29) !== want.delay) ctx.fail(`transition or delay lanes are wrong (${h.lanes.toString(2)}): ${forest.describe(req)}`);
      if (!o || Object.keys(o).length === 0) ctx.count('default priorities');
      req.lanes = h.lanes;
      req.rank = urgency(h.lanes);
      if (h.lanes & 1) {
        if (req.entry) ctx.fail(`a flushSync request waits for the host: ${forest.describe(req)}`);
        req.gates = null;
        if (flushing) req.turned = true; // goes on with the running flush
        req.entry = { ran: false };
        entries.push({ entry: req.entry, lanes: h.lanes });
        return;
      }
      if (req.entry) {
        ctx.count('host requests compared');
        const { options } = req.entry;
        const priority = o?.priority ?? (h.lanes & 6 ? 'user-blocking' : h.lanes & 8 ? 'user-visible' : 'background');
        const expected = { ...o, priority };
        const keys = new Set([...Object.keys(expected), ...Object.keys(options ?? {})]);
        for (const k of keys) {
          if (!Object.is(expected[k], options?.[k])) ctx.fail(`the host is asked for a callback with ${k} ${options?.[k]} instead of ${expected[k]}: ${forest.describe(req)}`);
        }
        req.gates = [{ all: [req.entry] }];
        entries.push({ entry: req.entry, lanes: h.lanes });
      } else {
        // Shares callbacks that are pending, or lanes that are being flushed.
        ctx.count('requests joining a pending callback');
        req.gates = bits(h.lanes).map((b) => ({ all: entries.filter((e) => !e.entry.ran && e.lanes & (1 << b)).map((e) => e.entry), staged: flushing }));
        for (const [i, g] of req.gates.entries()) {
          if (g.all.length === 0 && !flushing) ctx.fail(`nobody is asked to run ${forest.describe(req)}: no callback is pending for its lane ${bits(h.lanes)[i]}`, forest.log.slice(-40).join(' '));
        }
      }
    };
    const ranSince = (req, b) => entries.some((e) => e.entry.ranAt > req.clock && e.lanes & (1 << b));
    // Certainly due: every callback it could be waiting for has run.
    const surely = (req) => (req.gates === null ? req.turned === true : req.gates !== undefined && req.gates.every((g) => g.all.length > 0 && g.all.every((e) => e.ran)));
    // Possibly due.
    const perhaps = (req) => {
      // Another callback for the lanes counts as well.
      if (req.gates === null) return req.turned === true;
      if (req.gates === undefined) return true;
      if (req.gates.every((g) => (g.all.length === 0 ? g.staged : g.all.some((e) => e.ran) || g.staged))) return true;
      return bits(req.lanes).every((b) => ranSince(req, b) || req.gates.some((g) => g.all.some((e) => e.ran)));
    };
    let batch = null;
    const close = () => {
      if (batch === null) return;
      const { updates, waiting, early } = batch;
      for (const { req, due, detail } of early) {
        // The updates of a transition are rendered together.
        const excuse = [...due, ...updates.filter((v) => !early.some((e) => e.req === v))].find((v) => (req.lanes & TRANSITIONS) === req.lanes && v.lanes & req.lanes);
        if (!excuse) ctx.fail(`update is rendered before it is due: ${forest.describe(req)}`, detail);
        ctx.count('updates rendered with their transition');
      }
      const ranks = updates.map((r) => r.rank);
      const worst = Math.max(...ranks);
      ctx.count('batches checked for inversions');
      for (const w of waiting) {
        if (w.prepared || w.settled !== null) continue;
        if (w.cell && (w.cell.renderedAt ?? -1) > w.at) continue; // rendered with an ancestor
        if (w.rank < worst) {
          ctx.fail(`update of lower urgency (${kindOf(rankOf(updates[ranks.indexOf(worst)].lanes))}) is rendered while a ready one (${kindOf(rankOf(w.lanes))}) waits: ${forest.describe(w)}`, updates.map((u) => forest.describe(u)).join('\n') + '\n' + forest.log.slice(-60).join(' '));
        }
        if (w.rank > worst) ctx.count('ready updates of lower urgency waiting');
      }
      if ([...forest.open].some((r) => !r.noop && !r.prepared)) {
        nontrivial = true;
        ctx.count('batches with waiting updates');
      }
      batch = null;
    };
    forest.onR = (cell, when) => {
      if (when === 'start') cell.renderedAt = forest.log.length;
    };
    let committing = false;
    forest.onP = (u) => {
      const req = forest.byId.get(u.id);
      if (!req) ctx.fail(`update ${u.id} was never requested`);
      if (committing) {
        committing = false;
        close();
      }
      if (batch === null) {
        batch = { updates: [], early: [], waiting: [...forest.open].filter((r) => !r.noop && !r.prepared && r.lanes !== undefined && surely(r)), others: [...forest.open].filter((r) => !r.noop && !r.prepared && r.lanes !== undefined) };
      }
      flushing = true;
      if (req.prepared) ctx.fail(`update is rendered twice: ${forest.describe(req)}`);
      // Too early?
      ctx.count('updates checked for earliness');
      if (!perhaps(req)) {
        const excuse = batch.others.find((v) => v !== req && v.rank >= req.rank && perhaps(v));
        if (!excuse) batch.early.push({ req, due: batch.others.filter((v) => v !== req && perhaps(v)), detail: forest.log.slice(-60).join(' ') + '\n' + [...forest.open].map((r) => forest.describe(r) + ' ' + (r.lanes !== undefined && perhaps(r))).join('\n') });
        ctx.count('updates rendered with one that is due');
      }
      if (req.root) {
        for (const w of forest.open) {
          if (w.root === req.root && w.lanes !== undefined && !w.prepared && w.handle.id < u.id && w.rank === req.rank && (w.rank < 5 || w.lanes === req.lanes)) {
            ctx.fail(`rendered before an earlier render of the same root with equal urgency: ${forest.describe(req)} before ${forest.describe(w)}`, forest.log.slice(-60).join(' '));
          }
          if (w.root === req.root && w.prepared && w !== req && w.rank === req.rank) ctx.count('ordered renders of a root');
        }
      }
      req.prepared = true;
      batch.updates.push(req);
    };
    const lastCommit = new Map();
    forest.onC = (u) => {
      committing = true;
      const req = forest.byId.get(u.id);
      if (req.root) {
        const k = req.root.i + '/' + (req.rank < 5 ? req.rank : req.lanes);
        const last = lastCommit.get(k) ?? -1;
        if (u.id < last) ctx.fail(`committed after a later request of the same root and urgency: ${forest.describe(req)}`);
        lastCommit.set(k, u.id);
      }
    };
    forest.onSettled = () => {
      if (committing) {
        committing = false;
        close();
      }
    };
    // All microtasks have run: a flush only goes on if its commit is awaited.
    forest.onIdle = () => {
      if (committing) {
        committing = false;
        close();
      }
      flushing = batch !== null;
    };
    forest.onFailed = (req, e) => ctx.fail(`update rejected: ${forest.describe(req)}: ${e?.message}`, String(e?.cause?.stack ?? e?.stack ?? e));
    await forest.run(rng.pick(POLICIES));
    forest.dispose();
    if (ctx.i < 2) ctx.sample(forest.log.slice(0, 60).join(' '));
    return { sig: forest.log.join(' '), nontrivial };
  },
};
