import { makeHost, drain, choose, micro } from '../lib/sched.mjs';

const POLICIES = ['fifo', 'random', 'priority', 'lifo'];
const TAGS = ['q', 's', 'u'];

export default {
  id: 'C13',
  technique: 'runtime monitoring: log of ref callback calls and cleanups and values of Ref objects at every effect, listener and rest point against the bindings of the committed tree',
  note: 'Random exploration in jsdom; each Ref object is bound to at most one element at a time.',
  rule:
    'A case is a random tree of elements (templates, keyed lists, components, portals) whose element holes get callbacks, Ref objects, arrays of both or nothing, re-assigned at random (swaps and moves between elements in one update included) over 5-14 rounds of root renders and own updates. At every effect and listener ' +
    'each Ref object must hold exactly its element or null; at rest the outstanding callback calls must be those bound, and a single update calls exactly the changed ones. Non-trivial: refs moved between living elements.',
  quick: { cases: 1300, secs: 240 },
  thorough: { cases: 150000, secs: 600 },
  require: { 'callback calls': 10000, 'callback cleanups': 8000, 'unchanged callbacks not called': 5000, 'refs checked in effects': 20000, 'refs checked in listeners': 5000, 'refs moved': 2000, 'refs cleared': 5000, 'swaps in a component': 1000 },
  minDistinct: 500,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const host = makeHost(B);
    const runtime = new B.Runtime(host);
    const policy = rng.pick(POLICIES);
    const stage = document.createElement('div');
    document.body.append(stage);
    const overlapping = rng.bool(0.3);

    // ---- refs
    let calls = [];
    const outstanding = new Set();
    const refs = Array.from({ length: rng.range(1, 5) }, (_, n) => ({ n, ref: new B.Ref(null), at: null }));
    const cbs = Array.from({ length: rng.range(1, 5) }, (_, n) => {
      const cb = { n, cleans: rng.bool(0.8) };
      cb.fn = (el) => {
        if (!(el instanceof window.Element)) ctx.fail(`callback ${n} is called with ${el}`);
        ctx.count('callback calls');
        const rec = { cb, el, done: false };
        calls.push(rec);
        if (!cb.cleans) return;
        outstanding.add(rec);
        return () => {
          ctx.count('callback cleanups');
          if (rec.done) ctx.fail(`the cleanup of callback ${n} on <${el.localName}> is called twice`);
          rec.done = true;
          outstanding.delete(rec);
        };
      };
      return cb;
    });

    // ---- tree
    let nextKey = 1;
    const gen = (depth) => ({
      key: nextKey++,
      tag: rng.pick(TAGS),
      comp: rng.bool(0.4),
      portal: rng.bool(0.1) ? stage.appendChild(document.createElement('aside')) : null,
      b: [],
      how: 'none',
      kids: depth > 0 ? Array.from({ length: rng.range(0, 3) }, () => gen(depth - 1)) : [],
    });
    const edit = (s) => {
      let kids = s.kids.map(edit);
      if (rng.bool(0.25)) kids = rng.shuffle(kids);
      if (rng.bool(0.15)) kids.push(gen(1));
      if (rng.bool(0.15)) kids.splice(rng.int(kids.length), 1);
      return { ...s, kids, tag: rng.bool(0.06) ? rng.pick(TAGS) : s.tag, comp: rng.bool(0.04) ? !s.comp : s.comp };
    };
    const all = (specs, out = []) => {
      for (const s of specs) {
        out.push(s);
        all(s.kids, out);
      }
      return out;
    };
    // Re-assign refs: `pos` maps ref -> node key, null = unbound.
    const refAt = new Map();
    const assign = (specs) => {
      const nodes = all(specs);
      const keep = new Set(nodes.map((s) => s.key));
      for (const r of refs) {
        const cur = refAt.get(r);
        if (cur !== undefined && !keep.has(cur)) refAt.delete(r);
        if (rng.bool(0.4)) {
          if (rng.bool(0.2) || nodes.length === 0) refAt.delete(r);
          else refAt.set(r, rng.pick(nodes).key);
        }
      }
      if (rng.bool(0.3) && refs.length > 1) {
        const [a, b] = rng.shuffle(refs);
        const x = refAt.get(a);
        const y = refAt.get(b);
        if (x !== undefined && y !== undefined) {
          refAt.set(a, y);
          refAt.set(b, x);
        }
      }
      for (const s of nodes) {
        const mine = refs.filter((r) => refAt.get(r) === s.key);
        let fns = s.b.filter((x) => x.fn);
        if (rng.bool(0.4)) fns = rng.shuffle(cbs).slice(0, rng.weighted([[2, 0], [3, 1], [1, 2]]));
        s.b = rng.bool(0.5) ? [...mine, ...fns] : [...fns, ...mine];
        s.how = s.b.length === 0 ? rng.pick(['none', 'array']) : s.b.length === 1 ? (s.how === 'array' && rng.bool(0.8) ? 'array' : rng.pick(['single', 'single', 'array'])) : 'array';
      }
    };
    const value = (s) => {
      const vs = s.b.map((x) => x.fn ?? x.ref);
      return s.how === 'none' ? null : s.how === 'single' ? vs[0] : vs;
    };
    let root;
    let committedSpecs = []; // what the DOM must hold
    const elOf = (key) => stage.querySelector(`[data-n="${key}"]`);
    const checkRefs = (when, nodes = all(committedSpecs)) => {
      for (const r of refs) {
        const s = nodes.find((x) => x.b.includes(r));
        const el = s ? elOf(s.key) : null;
        if (s && !el) ctx.fail(`HARNESS? node ${s.key} is not in the document (${when})`, stage.innerHTML);
        if (r.ref.current !== el) {
          ctx.fail(`${when}: Ref ${r.n} holds ${r.ref.current ? r.ref.current.outerHTML.slice(0, 80) : r.ref.current}, but it is bound to ${el ? `node ${s.key}` : 'nothing'}`, stage.innerHTML);
        }
        ctx.count(el ? `refs checked ${when}` : 'refs cleared');
      }
    };
    const strict = !overlapping;
    const listener = () => {
      if (strict) checkRefs('in listeners');
    };
    const body = (s) => {
      const kids = s.kids.map(real);
      const tpl = { q: B.html`<q data-n=${s.key} @x-go=${listener} ${value(s)}><${kids}></q>`, s: B.html`<s ${value(s)} data-n=${s.key} @x-go=${listener}><${kids}></s>`, u: B.html`<u data-n=${s.key} ${value(s)}><b>x</b><${kids}></u>` };
      return tpl[s.tag];
    };
    const forces = new Set();
    const Node = B.createComponent(function Node({ s }) {
      const swap = this.useMemo(() => ({ a: new B.Ref(null), b: new B.Ref(null), calls: 0 }), []);
      const c = this.useRef(null);
      const [n, set] = this.useState(0);
      this.useEffect(() => {
        if (strict) checkRefs('in effects');
        // own refs
        const host = stage.querySelector(`[data-w="${s.key}"]`);
        const [x, y] = [host?.children[0] ?? null, host?.children[1] ?? null];
        const m = n % 4;
        const want = m === 0 ? [x, y] : m === 1 ? [y, x] : m === 2 ? [x, null] : [null, x];
        if (swap.a.current !== want[0] || swap.b.current !== want[1]) ctx.fail(`own refs of node ${s.key} in state ${m} hold the wrong elements`, host?.outerHTML ?? stage.innerHTML);
        if (c.current !== host) ctx.fail(`useRef of node ${s.key} does not hold its element`);
        ctx.count('swaps in a component');
      });
      this.useEffect(() => {
        const f = (o) => (rng.bool(0.7) ? set((k) => k + 1, o) : this.forceUpdate(o));
        forces.add(f);
        return () => {
          forces.delete(f);
        };
      }, []);
      const m = n % 4;
      const first = m === 0 || m === 2 ? swap.a : swap.b;
      const second = m === 0 ? swap.b : m === 1 ? swap.a : null;
      return [body(s), B.html`<dl data-w=${s.key} ${c}><i ${first}></i><b ${second}></b></dl>`];
    });
    const real = (s) => {
      const v = (s.comp ? Node({ s }) : body(s)).withKey(s.key);
      return s.portal ? B.createPortal(v, s.portal).withKey(s.key) : v;
    };
    const container = stage.appendChild(document.createElement('main'));
    root = new B.DOMRoot(container, runtime);
    const options = () => rng.pick([undefined, { flushSync: true }, { priority: 'user-blocking' }, { transition: 1 }]);
    // (element, kind, position) -> callback
    let bound = new Map();
    const bindings = () => {
      const out = new Map();
      for (const s of all(committedSpecs)) {
        const el = elOf(s.key);
        if (!el) ctx.fail(`node ${s.key} is not shown`, stage.innerHTML);
        s.b.forEach((x, i) => {
          if (x.fn) {
            if (!out.has(el)) out.set(el, new Map());
            out.get(el).set(s.how + i, x);
          }
        });
      }
      return out;
    };
    try {
      let specs = Array.from({ length: rng.range(1, 3) }, () => gen(rng.range(0, 2)));
      const n = rng.range(5, 14);
      let moved = 0;
      const sig = [];
      for (let i = 0; i < n; i++) {
        const k = i === 0 ? 'render' : rng.weighted([[6, 'render'], [2, 'own'], [0.5, 'unmount']]);
        calls = [];
        const before = new Map(refAt);
        const hs = [];
        const times = overlapping ? rng.range(1, 3) : 1;
        for (let j = 0; j < times; j++) {
          if (k === 'render') {
            if (i > 0) specs = specs.map(edit);
            if (rng.bool(0.2)) specs = rng.shuffle(specs);
            assign(specs);
            committedSpecs = specs;
            hs.push(root.render(specs.map(real), overlapping ? { flushSync: true } : options()));
          } else if (k === 'own') {
            if (forces.size > 0) hs.push(rng.pick([...forces])(options()));
          } else {
            committedSpecs = [];
            hs.push(root.unmount(overlapping ? { flushSync: true } : options()));
          }
          while (overlapping && rng.bool(0.4)) {
            if (host.tasks.length) host.tasks[choose(host, rng, policy)].run();
            await micro();
          }
        }
        ctx.note(`${k}: ${all(committedSpecs).map((s) => `${s.key}${s.tag}${s.comp ? 'C' : ''}:${s.how}[${s.b.map((x) => (x.fn ? 'f' : 'r') + x.n)}]`).join(' ')}`);
        await drain(host, rng, policy);
        for (const h of hs) await h.finished.catch((e) => ctx.fail(`update failed: ${e.message}`, String(e.cause?.stack ?? e.stack)));
        if (ctx.first) throw ctx.first;
        for (const [r, key] of refAt) if (before.has(r) && before.get(r) !== key) { moved++; ctx.count('refs moved'); }
        if (k === 'unmount') {
          specs = specs.map((s) => ({ ...s }));
        }
        checkRefs('at rest');
        // callbacks
        const now = bindings();
        const want = new Map();
        let due = 0;
        for (const [el, m] of now) {
          for (const [pos, cb] of m) {
            if (cb.cleans) want.set(cb, [...(want.get(cb) ?? []), el]);
            if (bound.get(el)?.get(pos) === cb) ctx.count('unchanged callbacks not called');
            else due++;
          }
        }
        for (const cb of cbs) {
          if (!cb.cleans) continue;
          const have = [...outstanding].filter((o) => o.cb === cb).map((o) => o.el);
          const w = want.get(cb) ?? [];
          if (have.length !== w.length || have.some((el) => !w.includes(el))) ctx.fail(`callback ${cb.n} is active on ${have.length} element(s) [${have.map((e) => e.getAttribute('data-n'))}], but bound to [${w.map((e) => e.getAttribute('data-n'))}]`, stage.innerHTML);
        }
        if (strict && calls.length !== due) ctx.fail(`${calls.length} ref callbacks were called (${calls.map((c) => `f${c.cb.n} on ${c.el.getAttribute('data-n')}`)}), ${due} bindings are new or changed`, stage.innerHTML);
        bound = now;
        for (const el of stage.querySelectorAll('[data-n]')) if (rng.bool(0.3)) el.dispatchEvent(new window.Event('x-go'));
        sig.push(ctx.trace.at(-1));
      }
      await root.unmount({ flushSync: true }).finished;
      committedSpecs = [];
      checkRefs('at rest');
      if (outstanding.size > 0) ctx.fail(`${outstanding.size} ref callbacks are not cleaned up after unmounting`);
      if (ctx.i < 2) ctx.sample(ctx.trace.slice(0, 5));
      return { sig: sig.join('\n'), nontrivial: moved > 0 };
    } finally {
      stage.remove();
    }
  },
};
