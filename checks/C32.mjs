import { makeHost, micro, drain } from '../lib/sched.mjs';
import { makeStore } from '../lib/hooks.mjs';
import { growthCase } from '../lib/growth.mjs';

const POLICIES = ['fifo', 'random', 'priority', 'lowfirst', 'lifo'];

// Everything created for one cycle, held weakly.
class Ledger {
  constructor() {
    this.refs = []; // [cycle, label, WeakRef]
    this.cycle = 0;
  }
  track(label, x) {
    this.refs.push([this.cycle, label, new WeakRef(x)]);
    return x;
  }
}

export default {
  id: 'C32',
  technique: 'runtime monitoring: weak references to every element, component context, closure and value of trees mounted and removed under survivors are dereferenced after forced garbage collections',
  note: 'Random exploration; what an engine or jsdom may cache is avoided by the workload, and collectability is decided by the collector of V8 only.',
  rule:
    'A case is a document of survivors (two roots, a component with state, a keyed list, other stateful and memoised components, an outlet of portals, atoms, computed and derivable signals, a store, a navigation adapter, a ref, kept update handles, sometimes a logger or profiler) under which 3-6 random trees are shown one after another (in a hole, in the list, in a root of their own or a surviving one, or as bindings of a surviving element) and removed again (by an update, a re-render or unmount()) with any update options and host schedule, while their components and the survivors are updated, also after the removal, and some renders fail. ' +
    'Everything made for a tree (elements, component contexts, types and templates, props, states, actions, memos, effects and cleanups, listeners, refs, subscriptions, provided values, handles, containers, roots, errors) is watched by weak references, which are all cleared by a garbage collection once the updates have finished. ' +
    'In every twentieth case random operations (of about forty: states, mounts, transitions, failing renders, scopes, property signals, subscriptions, navigations, middleware, compositions, ...) are repeated, and the number of all objects of the heap must not grow by one for each round. ' +
    'Non-trivial: every case.',
  quick: { cases: 700, secs: 240 },
  thorough: { cases: 60000, secs: 600 },
  require: {
    'rounds repeated': 200, cycles: 2500, 'objects watched': 60000, 'in slot': 400, 'in list': 400, 'in attr': 400, 'in root': 400, 'in root2': 400, updates: 200, 'updates of removed components': 300, 'cycles with failed updates': 40,
    'kind component': 3000, 'kind template': 2500, 'kind list': 1200, 'kind portal': 600, 'kind signal': 400,
    ...Object.fromEntries(['state', 'reducer', 'memo', 'ref', 'effect', 'atom', 'computed', 'mapped', 'derivable', 'local', 'localc', 'store', 'ownstore', 'deferred', 'event', 'handle', 'transition', 'provide', 'force', 'navigation'].map((h) => ['hook ' + h, 250])),
    ...Object.fromEntries(['element', 'context', 'this', 'type', 'template', 'props', 'listener', 'ref callback', 'ref cleanup', 'class list', 'style', 'property', 'key', 'own container', 'own root', 'attr listener', 'own outlet'].map((h) => ['watched ' + h, 150])),
    ...Object.fromEntries(['state', 'state made', 'action', 'reduced', 'memo', 'effect', 'cleanup', 'selector', 'handle', 'provided', 'error', 'deferred', 'transition action', 'boxed value', 'own computed', 'intercept', 'snapshot getter'].map((h) => ['watched ' + h, 20])),
  },
  minDistinct: 300,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    if (ctx.i % 20 === 5) return growthCase(ctx, B);
    const host = makeHost(B, { taskPriority: () => rng.pick(['user-blocking', 'user-visible', 'background']) });
    const world = makeWorld(ctx, B, host);
    await world.start();
    const cycles = rng.range(3, 6);
    const kinds = [];
    for (let k = 1; k <= cycles; k++) {
      world.ledger.cycle = k;
      kinds.push(await world.cycle(k));
      ctx.count('cycles');
    }
    await world.rest();
    await world.verify();
    // The survivors are still at work (and thereby still reachable).
    await world.alive();
    ctx.sample({ cycles: kinds, watched: world.ledger.refs.length });
    return { sig: kinds.join(), nontrivial: true };
  },
};

const alive = ([, , ref]) => ref.deref() !== undefined;

// For finding out what keeps something alive: marks it and writes a snapshot.
async function dump(left) {
  left.forEach(mark);
  await micro();
  const { writeHeapSnapshot } = await import('node:v8');
  await micro();
  writeHeapSnapshot(process.env.VERIF_HEAP.replace('%', left.ctx.i));
}
function mark([, , ref]) {
  const x = ref.deref();
  if (x && Object.isExtensible(x)) x.__leaked = true;
}

function makeWorld(ctx, B, host) {
  const { rng } = ctx;
  const ledger = new Ledger();
  const track = (label, x) => ledger.track(label, x);
  const runtime = new B.Runtime(host);
  if (rng.bool(0.15)) runtime.use(new B.UpdateLogger({ log() {}, group() {}, groupCollapsed() {}, groupEnd() {}, warn() {}, error() {}, info() {}, debug() {}, time() {}, timeEnd() {} }));
  if (rng.bool(0.15)) runtime.use(new B.UpdateProfiler({ mark() {}, measure() {} }));
  const stage = document.createElement('div');
  document.body.append(stage);
  const container = document.createElement('main');
  const outlet = document.createElement('aside');
  stage.append(container, outlet);
  const root = new B.DOMRoot(container, runtime);
  const policy = rng.pick(POLICIES);
  const atoms = [new B.Atom(1), new B.Atom('a')];
  const box = new B.Atom(null); // holds a value of the cycle for a while
  const computed = [new B.Computed((a) => a + '!', [atoms[0]]), new B.Computed((a, b) => `${a}/${b}`, atoms)];
  const derivable = B.Derivable.from({ x: { y: 1 }, list: [1, 2] });
  const store = makeStore(0);
  const navigation = new B.InMemoryAdapter('/a', null);
  const sharedRef = new B.Ref(null);
  const rejected = [];
  const handles = []; // handles are kept by the user
  let serial = 0;
  const options = () => rng.weighted([
    [4, undefined], [2, { flushSync: true }], [1, { priority: 'user-blocking' }], [1, { priority: 'background' }],
    [2, { transition: rng.int(3) }], [0.5, { delay: 10 }], [0.5, { transition: 1, priority: 'background' }],
    [0.5, { handler: (commit) => { commit(); } }],
    [0.5, { handler: (commit) => Promise.resolve().then(commit) }],
  ]);
  const keep = (h) => {
    // (The reason of a rejection leads to the failed component.)
    const handle = { ...h, finished: null };
    h.finished.then(() => { handle.finished = h.finished; }, (e) => {
      const { message } = e?.cause ?? e;
      if (message !== 'bomb') rejected.push(message);
    });
    handles.push(handle);
    return h;
  };

  // ------------------------------------------------------------ survivors
  let setSlot, setList, setAttr, setEpoch, poke;
  const Shell = B.createComponent(function Shell() {
    const [slot, set] = this.useState(null);
    const [list, setL] = this.useState([]);
    const [attr, setA] = this.useState(null);
    const [epoch, setE] = this.useState(0);
    setSlot = set;
    setList = setL;
    setAttr = setA;
    setEpoch = setE;
    const f = attr?.f ?? null;
    return B.html`<header>shell</header><section class=${attr?.cls ?? null} style=${attr?.css ?? null} title=${attr?.text ?? null} .foo=${attr ?? null} @click=${f} ${attr?.ref ?? null}><${slot?.make() ?? null}></section><ul><${list.map((x) => keyed(x.value ? x.value.make() : (x.key.length % 2 ? Memo : Item)({ n: x.key }), x.key))}></ul><${Sibling({ n: 1 })}><${Memo({ n: 2 }).withKey(epoch)}><footer>${list.length}</footer>`;
  });
  const keyed = (x, key) => (typeof x?.withKey === 'function' ? x : B.html`<${x}>`).withKey(key);
  const Item = B.createComponent(function Item({ n }) {
    const a = this.use(atoms[0]);
    return B.html`<li>item ${n} ${a}</li>`;
  });
  const Sibling = B.createComponent(function Sibling() {
    const [n, set] = this.useState(0);
    poke = set;
    this.use(atoms[1]);
    this.use(computed[1]);
    this.use(B.SyncExternalStore(store.subscribe, store.get));
    this.use(box);
    return B.html`<p>sibling ${n} <${computed[0]}></p>`;
  });
  const Memo = B.createComponent(function Memo({ n }) {
    this.useEffect(() => {});
    return B.html`<p>memo ${n}</p>`;
  }, { arePropsEqual: (a, b) => a.n === b.n });

  // -------------------------------------------------------------- payload
  const body = (context, props) => {
    const { live } = props;
    const d = track('context', {});
    context.useMemo(() => { track('this', context); return d; }, []);
    for (const [hook, n] of props.plan) {
      switch (hook) {
        case 'state': {
          const [s, set] = context.useState(() => track('initial state', { n: 0 }));
          live.setters.push(() => keep(set(track('state', { n: s.n + 1 }), options())));
          live.setters.push(() => keep(set(() => track('state made', { n: s.n + 1 }), options())));
          break;
        }
        case 'reducer': {
          const [, send] = context.useReducer((s, a) => track('reduced', { a, s: a.n }), track('reducer state', {}));
          live.setters.push(() => keep(send(track('action', { n }), options())));
          break;
        }
        case 'memo': context.useMemo(() => track('memo', { context }), [props]); break;
        case 'ref': context.useRef(null).current = track('ref value', { context }); break;
        case 'effect': {
          const big = track('effect value', {});
          context.useEffect(track('effect', () => (void big, track('cleanup', () => void big))), n ? [] : undefined);
          break;
        }
        case 'atom': context.use(atoms[n % 2]); break;
        case 'computed': context.use(computed[n % 2]); break;
        case 'mapped': context.use(context.useMemo(() => track('mapped', atoms[n % 2].map(track('selector', (x) => ({ x, props })))), [])); break;
        case 'derivable': context.use(n ? derivable.get('x').get('y') : derivable.get('list')); break;
        case 'local': {
          const a = context.use(B.LocalAtom(track('local value', {})));
          track('local atom', a);
          context.use(a);
          break;
        }
        case 'localc': context.use(context.use(B.LocalComputed(track('local computation', (x) => ({ x, props })), [atoms[n % 2]]))); break;
        case 'store': context.use(B.SyncExternalStore(store.subscribe, n ? store.get : track('snapshot getter', () => (void props, store.get())))); break;
        case 'ownstore': {
          const subscribe = context.useMemo(() => track('own subscribe', (f) => { store.subs.add(f); return () => { store.subs.delete(f); void props; }; }), []);
          context.use(B.SyncExternalStore(subscribe, store.get));
          break;
        }
        case 'deferred': context.use(B.DeferredValue(context.useMemo(() => track('deferred', {}), [props]), n ? { priority: 'background' } : undefined)); break;
        case 'event': {
          const f = context.use(B.EffectEvent(track('event callback', () => props)));
          live.calls.push(f);
          break;
        }
        case 'handle': context.use(B.ImperativeHandle(n ? sharedRef : track('handle ref', () => () => {}), track('handle maker', () => track('handle', { props })))); break;
        case 'transition': {
          const [, start] = context.use(B.Transition());
          live.setters.push(() => start(track('transition action', () => (n ? Promise.resolve(track('result', {})) : 1))));
          break;
        }
        case 'provide': context.provide(track('provided', new (class Service {})())); break;
        case 'navigation': context.use(B.SyncNavigation(navigation, n ? track('intercept', () => void props) : undefined)); break;
        case 'force': live.setters.push(() => keep(context.forceUpdate(options()))); break;
      }
    }
    live.renders++;
    if (props.bomb > 0 && live.armed && live.renders % props.bomb === 0) {
      live.exploded++;
      throw track('error', new Error('bomb'));
    }
    return props.kids.make();
  };
  const Node = B.createComponent(function Node(props) { return body(this, props); });
  const Stable = B.createComponent(function Stable(props) { return body(this, props); }, { arePropsEqual: (a, b) => a.plan === b.plan && a.kids === b.kids });
  const HOOKS = ['state', 'reducer', 'memo', 'ref', 'effect', 'atom', 'computed', 'mapped', 'derivable', 'local', 'localc', 'store', 'ownstore', 'deferred', 'event', 'handle', 'transition', 'provide', 'force', 'navigation'];

  const watch = (f, live) => (el) => {
    if (live) live.el = el;
    track('element <' + el.localName + '>', el);
    return f?.(el);
  };
  // A description of a random tree; make() gives an element of it.
  const plant = (live, depth) => {
    const t = (label, x) => track(label, x);
    const kind = rng.weighted([[4, 'component'], [3, 'template'], [1.5, 'list'], [0.8, 'portal'], [0.5, 'signal'], [0.7, 'text'], [depth > 2 ? 0 : 0.5, 'empty']]);
    const kid = () => (depth > 0 ? plant(live, depth - 1) : { make: () => null, kind: 'none' });
    const node = t('spec', { kind, kids: null, make: null });
    live.kinds.push(kind);
    switch (kind) {
      case 'component': {
        const kids = kid();
        node.kids = kids;
        const plan = rng.shuffle(HOOKS).slice(0, rng.int(5)).map((h) => [h, rng.int(2)]);
        for (const [h] of plan) live.hooks.add(h);
        const bomb = live.armed && rng.bool(0.4) ? rng.range(1, 4) : 0;
        const type = rng.weighted([[3, Node], [2, Stable], [1, t('type', B.createComponent(t('function', function Own(props) { return body(this, props); })))]]);
        // (Trees may replace each other, and their components use different hooks.)
        node.make = () => type(t('props', { live, plan, kids, bomb })).withKey(plan);
        break;
      }
      case 'template': {
        const kids = [kid(), rng.bool(0.3) ? kid() : null];
        node.kids = kids;
        const shape = rng.int(5);
        const strings = t('template', ['<u ', '><', '></u><hr>']);
        const listener = rng.bool() ? t('listener', () => { live.clicks++; void node; }) : t('listener object', { handleEvent() { live.clicks++; } });
        const ref = t('ref callback', watch(rng.bool() ? () => t('ref cleanup', () => void node) : null, live));
        const own = t('ref object', new B.Ref(null));
        node.make = () => {
          switch (shape) {
            case 0: return B.html`<div class=${t('class list', ['a', { b: true }])} @click=${listener} ${ref}><${kids[0].make()}></div>`;
            case 1: return B.html`<p ${ref} style=${t('style', { color: 'red' })} .data=${t('property', {})}><${kids[0].make()}></p><${kids[1]?.make() ?? null}>`;
            case 2: return B.html`<${kids[0].make()}><b ${ref} title=${t('attribute', { toString: () => 'x' })}>${t('text', { toString: () => 'y' })}</b>`;
            case 3: return B.html(strings, ref, kids[0].make());
            default: return B.html`<input ${rng.bool() ? own : sharedRef} $value=${'v'}><i ${ref}></i><${kids[0].make()}>`;
          }
        };
        break;
      }
      case 'list': {
        const n = rng.int(4);
        const items = Array.from({ length: n }, kid);
        node.kids = items;
        const keys = items.map((_, i) => (rng.bool(0.3) ? t('key', { i }) : i));
        live.lists.push(items, keys);
        node.make = () => items.map((x, i) => B.html`<li ${t('item ref', watch())}><${x.make()}></li>`.withKey(keys[i]));
        break;
      }
      case 'portal': {
        const kids = kid();
        node.kids = kids;
        const target = rng.bool(0.7) ? outlet : t('own outlet', document.createElement('div'));
        node.make = () => B.createPortal(B.html`<em ${t('portal ref', watch())}>portal <${kids.make()}></em>`, target);
        break;
      }
      case 'signal': {
        const s = rng.pick([atoms[0], computed[1], null]) ?? t('own computed', new B.Computed(t('own computation', (a) => `${a}${String(!live)}`), [atoms[0]]));
        node.make = () => B.html`<span ${t('signal ref', watch())}><${s}></span>`;
        break;
      }
      case 'text': node.make = () => 'text' + serial++; break;
      default: node.make = () => null;
    }
    return node;
  };

  // ------------------------------------------------------------- workload
  const rest = async () => {
    await drain(host, rng, policy);
    await micro();
  };
  const somewhat = async () => {
    switch (rng.int(4)) {
      case 0: return;
      case 1: return micro();
      case 2: if (host.tasks.length > 0) host.tasks[rng.int(host.tasks.length)].run(); return micro();
      default: return rest();
    }
  };
  const act = async (live) => {
    const n = rng.int(5);
    for (let i = 0; i < n; i++) {
      switch (rng.int(12)) {
        case 0: if (live.setters.length) { ctx.count('updates'); await rng.pick(live.setters)(); } break;
        case 1: if (live.setters.length) { ctx.count('updates'); rng.pick(live.setters)(); } break;
        case 11: keep(setEpoch((x) => x + 1, options())); break;
        case 2: atoms[0].value = rng.int(3); break;
        case 3: atoms[1].value = rng.pick(['a', 'b']); break;
        case 4: store.set(rng.int(3)); break;
        case 5: keep(poke((x) => x + 1, options())); break;
        case 6: box.value = track('boxed value', {}); break;
        case 7: if (live.lists.length) { const k = rng.int(live.lists.length / 2) * 2; const order = rng.shuffle(live.lists[k].map((_, i) => i)); live.lists[k].splice(0, Infinity, ...order.map((i) => live.lists[k][i])); live.lists[k + 1].splice(0, Infinity, ...order.map((i) => live.lists[k + 1][i])); } break;
        case 9: navigation.navigate(rng.pick(['/a', '/b']), { state: track('navigation state', {}) }); break;
        case 10: rng.pick([
          () => (derivable.value = { x: { y: serial++ }, list: [1] }),
          () => (derivable.get('x').get('y').value = serial++),
          () => derivable.scope((d) => void d.list.push(serial++)),
        ])(); break;
        case 8: if (live.el?.isConnected) live.el.click(); break;
      }
      await somewhat();
    }
  };
  const makeLive = () => track('live', { armed: rng.bool(0.15), exploded: 0, setters: [], calls: [], lists: [], kinds: [], hooks: new Set(), renders: 0, clicks: 0, el: null });
  const replacement = () => {
    const kind = rng.int(4);
    return kind === 0 ? { make: () => 'gone' } : kind === 1 ? { make: () => B.html`<p>gone</p>` } : kind === 2 ? { make: () => [] } : null;
  };
  let present = [];
  const place = {
    slot: {
      show: async (tree) => keep(setSlot(() => tree, options())),
      hide: async () => { const r = replacement(); keep(setSlot(() => r, options())); },
    },
    list: {
      show: async (tree) => { const at = rng.int(present.length + 1); const key = 'k' + serial++; present = present.toSpliced(at, 0, { key, value: tree });
        if (rng.bool() && present.length < 5) present = present.toSpliced(rng.int(present.length + 1), 0, { key: 'i' + (serial++) + (rng.bool() ? 'a' : '') }); const p = present; keep(setList(() => p, options())); },
      hide: async () => {
        present = rng.shuffle(present.filter((x) => x.value === undefined));
        if (rng.bool() && present.length < 4) present = present.toSpliced(rng.int(present.length + 1), 0, { key: 'i' + (serial++) + (rng.bool() ? 'a' : '') });
        const p = present;
        keep(setList(() => p, options()));
      },
    },
    attr: {
      show: async () => {
        const value = track('attr', { cls: track('attr class', ['x']), css: track('attr style', { color: 'red' }), text: track('attr text', { toString: () => 't' }), f: track('attr listener', () => {}), ref: track('attr ref', () => track('attr ref cleanup', () => {})) });
        keep(setAttr(() => value, options()));
      },
      hide: async () => keep(setAttr(() => (rng.bool() ? null : { cls: 'y' }), options())),
    },
    root: {
      show: async (tree) => {
        const container = track('own container', document.createElement('div'));
        stage.append(container);
        const own = track('own root', new B.DOMRoot(container, runtime));
        world.own = { own, container };
        keep(own.render(tree.make(), options()));
      },
      hide: async (last) => {
        const { own, container } = world.own;
        keep(own.unmount(options()));
        if (last) world.own = null;
        if (rng.bool()) await rest();
        if (last) container.remove();
      },
    },
    root2: {
      // A root that survives.
      show: async (tree) => keep(root2.render(tree.make(), options())),
      hide: async () => { keep(rng.bool() ? root2.unmount(options()) : root2.render(rng.pick(['other', null, []]), options())); },
    },
  };
  const container2 = document.createElement('main');
  stage.append(container2);
  const root2 = new B.DOMRoot(container2, runtime);
  const world = {
    ledger,
    own: null,
    kinds: [],
    rest,
    async start() {
      keep(root.render(Shell({}), options()));
      await rest();
    },
    async cycle(k) {
      const where = rng.pick(Object.keys(place));
      const p = place[where];
      const live = makeLive();
      const tree = plant(live, 3);
      // (The removal of the previous tree must not fail with this one.)
      if (live.armed) await rest();
      await p.show(tree);
      await somewhat();
      let sure = rng.bool(0.85);
      if (sure) await rest();
      await act(live);
      if (rng.bool(0.6)) {
        await rest();
        sure = true;
      }
      const stale = rng.bool(0.3) ? live.setters.slice(0, 2) : [];
      const n = live.renders;
      live.fails = live.armed;
      live.armed = rng.bool(0.3) && live.armed;
      // (What is to show the tree may come later than what is to remove it.)
      const last = !live.fails && sure;
      await p.hide(last);
      await somewhat();
      for (const s of stale) {
        s();
        ctx.count('updates of removed components');
        await somewhat();
      }
      if (rng.bool(0.8)) await rest();
      if (!last) {
        // What was to remove the tree may have failed with its updates.
        live.armed = false;
        await rest();
        await p.hide(true);
        await rest();
      }
      ctx.count('in ' + where);
      for (const x of live.kinds) ctx.count('kind ' + x);
      for (const x of live.hooks) ctx.count('hook ' + x);
      if (live.exploded > 0) {
        ctx.count('cycles with failed updates');
        world.failed = true;
      }
      live.armed = false;
      world.kinds.push(`${where}${live.exploded ? '!' : ''}`);
      return `${where}:${live.kinds}:${[...live.hooks].sort()}:${n}`;
    },
    async verify() {
      if (world.failed) {
        // What failed last may be kept until the same place renders again.
        keep(root.unmount());
        keep(root2.render('end'));
        await rest();
        setSlot = setList = setAttr = setEpoch = poke = null;
        ctx.count('cases with failed updates');
      }
      // jsdom remembers the last event.
      document.body.click();
      box.value = null;
      navigation.navigate('/end').catch((e) => (e.cause ?? e).message === 'bomb' || rejected.push(e.message));
      await rest();
      // (Updates made by the library itself fail unheard.)
      rejected.push(...ctx.unhandled.splice(0).map((e) => (e?.cause ?? e)?.message).filter((m) => m !== 'bomb'));
      // A collection already under way spares what was marked before.
      for (let i = 0; i < 8; i++) {
        await micro();
        globalThis.gc();
        ctx.count('collections');
        if (!ledger.refs.some(alive)) break;
      }
      // Timers and idle work of the engine may hold on for a while.
      for (let i = 0; i < 6 && ledger.refs.some(alive); i++) {
        await new Promise((resolve) => setTimeout(resolve, 10 << i));
        document.body.click();
        globalThis.gc();
        ctx.count('late collections');
      }
      if (rejected.length > 0) ctx.fail('an update is rejected', { rejected });
      const left = ledger.refs.filter(alive);
      ctx.count('objects watched', ledger.refs.length);
      for (const [, l] of ledger.refs) ctx.count('watched ' + l.replace(/ <.*/, ''));
      if (left.length > 0) {
        if (process.env.VERIF_HEAP) await dump(Object.assign(left, { ctx }));
        ctx.fail(`${left.length} of ${ledger.refs.length} objects of removed trees are still alive`, { kinds: world.kinds, left: left.slice(0, 30).map(([c, l]) => `${c}: ${l}`) });
      }
    },
    async alive() {
      if (poke) keep(poke((x) => x + 1));
      keep(root2.render('end'));
      await rest();
      if (poke && !container.querySelector('p')) ctx.fail('the survivors are gone');
      stage.remove();
    },
  };
  return world;
}
