import { frameDocument } from '../lib/env.mjs';
import { makeHost, micro } from '../lib/sched.mjs';
import { Forest, POLICIES } from '../lib/forest.mjs';

export default {
  id: 'C36',
  technique: 'runtime monitoring: several runtimes with random forests of components work in one document, with roots inside of elements of other roots; monitors attribute every DOM mutation, failure and provided value to its root and compare the DOM and state of each root with its own requests',
  note: 'Random exploration in jsdom; all runtimes have hosts of their own with independent random schedules. Each root has a container of its own.',
  rule:
    'A case runs 2-3 runtimes (sometimes two copies of the library) with 1-3 roots each in one document; components of each contain elements whose content is a further root of the same or another runtime (up to 8, nested), created by an effect and unmounted by its cleanup. 20-70 requests with random options come from everywhere, hosts run their callbacks in random order, and components of one runtime fail. ' +
    'Monitors: mutations happen only in commits, in the container of the root the update belongs to and not in containers nested in it; updates of other runtimes never fail; all settle; injected values come from the own root; at the end every root shows its last committed value with the state of its own actions; removed roots are empty and their effects are cleaned up. Non-trivial: a root inside of another was updated.',
  quick: { cases: 1500, secs: 240 },
  thorough: { cases: 60000, secs: 600 },
  require: { 'runtimes of other documents': 200, 'nodes of their document': 10000, 'roots inside of others': 2000, 'roots of other runtimes inside': 800, 'roots compared': 5000, 'commits watched': 10000, 'mutations attributed': 20000, 'values injected': 5000, 'failed updates': 500, 'removed roots': 500, 'updates of roots inside': 3000, 'updates requested from within another runtime': 200 },
  minDistinct: 500,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const B2 = rng.bool(0.3) ? await ctx.lib(ctx.variant === 'debug' ? 'prod' : 'debug', ctx.mv) : B;
    if (B2 !== B) ctx.count('two copies of the library');
    const observer = new window.MutationObserver(() => {});
    const owners = new WeakMap(); // container -> root
    const forests = [];
    const bad = (m) => ctx.fail(m, forests.map((f) => f.log.slice(-200).join(' ')).join('\n'));
    const nested = [];
    const dead = [];
    let pockets = 8;
    let committing = null;
    let armed = true;
    let inside = 0;
    const failing = rng.bool(0.6) ? 0 : -1;
    const n = rng.range(2, 3);
    const framed = rng.bool(0.3);
    if (framed) ctx.count('runtimes of other documents');
    const describe = (r) => `root ${r.i} of runtime ${r.forest.k}`;
    const nearest = (node) => {
      for (let x = node; x !== null; x = x.parentNode) if (owners.has(x)) return owners.get(x);
      return null;
    };
    const quiet = () => {
      const records = observer.takeRecords();
      if (records.length > 0) bad(`the DOM is modified (${records[0].type}) outside of commits`);
    };
    try {
      for (let k = 0; k < n; k++) {
        const L = k === 1 ? B2 : B;
        const place = k === 1 && framed ? frameDocument() : document;
        const host = makeHost(L, { document: place, taskPriority: () => rng.pick(['user-blocking', 'user-visible', 'background']) });
        const forest = new Forest(ctx, L, host, {
          budget: rng.range(10, 25),
          document: place,
          makeBomb: k === failing ? () => (rng.bool(0.06) ? { armed: true, error: new Error('bomb') } : null) : undefined,
        });
        forest.k = k;
        forests.push(forest);
        class Marker {
          constructor(root) { this.root = root; }
          static getDefault() { return null; }
        }
        forest.explode = (bomb) => {
          if (armed) throw bomb.error;
        };
        forest.nextRoot = forest.roots.length;
        forest.all = [...forest.roots];
        for (const r of forest.roots) {
          r.forest = forest;
          owners.set(r.container, r);
        }
        const Pocket = L.createComponent(function Pocket({ gen }) {
          const box = this.useMemo(() => ({ el: null }), []);
          this.useEffect(() => {
            const target = rng.pick(forests.filter((x) => x.document === forest.document));
            const container = box.el;
            const root = { i: target.nextRoot++, container, root: new target.B.DOMRoot(container, target.runtime), spec: null, shown: null, forest: target, inner: true };
            owners.set(container, root);
            target.roots.push(root);
            target.all.push(root);
            nested.push(root);
            ctx.count('roots inside of others');
            if (target !== forest) ctx.count('roots of other runtimes inside');
            root.spec = [target.spec(2)];
            render(target, root, rng.bool(0.3) ? { flushSync: true } : target.options());
            return () => {
              target.roots.splice(target.roots.indexOf(root), 1);
              dead.push(root);
              ctx.count('removed roots');
              unmount(target, root, rng.bool(0.4) ? { flushSync: true } : undefined);
            };
          }, []);
          return L.html`<div class="pocket" data-gen=${gen} ${(el) => { box.el = el; }}></div>`;
        });
        forest.useMore = (context, cell) => {
          const marker = context.inject(Marker);
          ctx.count('values injected');
          if (marker !== null && marker.root !== cell.root) bad(`a component of root ${cell.root} gets the value of root ${marker.root}`);
          const outer = forests.some((f) => f !== forest && f.Marker && context.inject(f.Marker) !== null);
          if (outer) bad('a component gets a value of another runtime');
          if (cell.n % 2 === 0) context.provide(new Marker(cell.root));
        };
        forest.Marker = Marker;
        forest.moreChildren = (context, cell) => {
          cell.pocket ??= pockets > 0 && rng.bool(0.25) ? pockets-- : 0;
          return cell.pocket ? Pocket({ gen: cell.renders % 3 }) : null;
        };
        forest.onRequested = (req) => {
          if (committing !== null && committing !== forest) ctx.count('updates requested from within another runtime');
          const r = rootOf(forest, req);
          if (r?.inner) ctx.count('updates of roots inside');
        };
        forest.onFailed = (req, e) => {
          if (k !== failing) bad(`an update of runtime ${k} fails: ${e?.message}`);
          ctx.count('failed updates');
        };
        forest.onC = (update) => {
          quiet();
          committing = forest;
          ctx.count('commits watched');
        };
        forest.onCEnd = (update) => {
          committing = null;
          const records = observer.takeRecords();
          const req = forest.byId.get(update.id);
          const own = rootOf(forest, req);
          if (!own) bad(`an unknown update ${update.id} of runtime ${k}`);
          for (const x of records) {
            const at = nearest(x.type === 'attributes' ? x.target.parentNode : x.target);
            if (at === null) continue;
            ctx.count('mutations attributed');
            if (at.inner) inside++;
            if (at !== own) bad(`an update of ${describe(own)} modifies ${describe(at)} (${x.type} of ${x.target.nodeName})`);
          }
        };
      }
      function rootOf(forest, req) {
        return req?.root ?? forest.all[req?.cell?.root];
      }
      function render(target, root, o) {
        const gen = ++target.gen;
        const specs = root.spec;
        if (o === 'handler' || o === 'handler+' || o === 'sync+handler') o = undefined;
        const value = target.B.html`<header data-gen=${gen}></header><${specs.map((s) => target.element(s, gen, root.i))}>`;
        return target.issue({ n: target.nextReq++, kind: 'render', origin: 'pockets', settled: null, options: o, root, gen, specs }, () => root.root.render(value, o));
      }
      function unmount(target, root, o) {
        root.spec = null;
        return target.issue({ n: target.nextReq++, kind: 'unmount', origin: 'pockets', settled: null, options: o, root }, () => root.root.unmount(o));
      }
      if (framed) observer.observe(frameDocument().body, { subtree: true, childList: true, attributes: true, characterData: true });
      observer.observe(document.body, { subtree: true, childList: true, attributes: true, characterData: true });
      // 1. everything at once
      const policy = rng.pick(POLICIES);
      for (const f of forests) for (const r of [...f.roots]) if (rng.bool(0.9)) f.within('outside', () => f.request(1));
      let idle = 0;
      while (forests.some((f) => f.budget > 0) && idle++ < 500) {
        const f = rng.pick(forests);
        const k = rng.int(10);
        if (k < 3) f.request(1);
        else if (k < 4) f.click();
        else if (k < 8) f.runTask(policy);
        if (k > 5) {
          await micro();
          quiet();
        }
        if (ctx.first) throw ctx.first;
      }
      const drain = async () => {
        await micro();
        for (let t = 0; forests.some((f) => f.host.tasks.length > 0); t++) {
          if (t > 5000) bad('the hosts never become idle');
          rng.pick(forests).runTask(policy);
          await micro();
          quiet();
        }
      };
      await drain();
      for (const f of forests) f.stopped = true;
      // 2. nothing fails any more
      armed = false;
      if (failing >= 0) {
        const f = forests[failing];
        for (const r of [...f.roots]) r.spec !== null ? render(f, r) : unmount(f, r);
        await drain();
      }
      // 3. removed roots
      for (const r of [...dead]) unmount(r.forest, r);
      await drain();
      for (const f of forests) {
        const elementOf = (c) => {
          const r = f.all[c.root];
          return [...r.container.querySelectorAll(`section[data-n="${c.n}"]`)].find((x) => nearest(x) === r);
        };
        if (f.open.size > 0) bad(`${f.describe([...f.open][0])} never settles`);
        // Actions of failed updates may or may not be shown.
        if (f.k === failing) for (const c of f.cells.values()) {
          const el = c.mounted && elementOf(c);
          if (el) c.current = el.dataset.list === '' ? [] : el.dataset.list.split(',').map(Number);
        }
        for (const r of f.all) {
          const got = f.outline(r);
          const want = f.expectedOutline(r);
          if (got !== want) bad(`${describe(r)}${r.inner ? ' (inside)' : ''} shows ${got}, expected ${want}`);
          if (dead.includes(r) && got !== '') bad(`${describe(r)} was removed but shows ${got}`);
          ctx.count('roots compared');
          for (const x of r.container.querySelectorAll('*')) {
            if (nearest(x) !== r) continue;
            ctx.count('nodes of their document');
            if (!(x instanceof f.document.defaultView.Element)) bad(`${describe(r)} has a <${x.localName}> of another document`);
          }
        }
        for (const c of f.cells.values()) {
          const r = f.all[c.root];
          if (dead.includes(r) && c.mounted) bad(`effects of a component of ${describe(r)}, which was removed, are not cleaned up`);
          if (!c.mounted) continue;
          const el = elementOf(c);
          if (!el) bad(`component ${c.n} of ${describe(r)} is mounted elsewhere`);
          const shown = el.dataset.list;
          if (f.k !== failing) {
            const want = c.log.join(',');
            if (shown !== want) bad(`component ${c.n} of ${describe(r)} shows ${shown}, expected ${want}`);
          } else {
            const set = new Set(shown === '' ? [] : shown.split(',').map(Number));
            const order = c.log.filter((x) => set.has(x)).join(',');
            if (shown !== order) bad(`component ${c.n} shows ${shown}, not in the order of ${c.log}`);
          }
        }
      }
      if (ctx.i < 2) ctx.sample({ runtimes: n, roots: forests.map((f) => f.all.length), requests: forests.map((f) => f.reqs.length) });
      return { sig: forests.map((f) => f.reqs.map((q) => q.kind[0] + (q.origin?.[0] ?? '')).join('')).join('|'), nontrivial: inside > 0 };
    } finally {
      observer.disconnect();
      for (const f of forests) {
        f.stopped = true;
        f.dispose();
      }
    }
  },
};
