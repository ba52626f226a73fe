// Counts the objects of the whole heap between rounds of the same operations:
// whatever is kept once per round adds up, whether or not the workload knows it.
import { appendFileSync } from 'node:fs';
import v8 from 'node:v8';
import { makeHost, micro, drain } from './sched.mjs';
import { makeStore } from './hooks.mjs';

const ROUNDS = 24;
const WINDOWS = 3;

async function settle() {
  for (let i = 0; i < 2; i++) {
    await micro();
    globalThis.gc();
  }
  await new Promise((resolve) => setTimeout(resolve, 1));
}
// (Functions and arrays are objects as well.)
const population = () => v8.queryObjects(Object, { format: 'count' });

function makeOperations(ctx, B, host) {
  const { rng } = ctx;
  const runtime = new B.Runtime(host);
  const stage = document.createElement('div');
  document.body.append(stage);
  const main = document.createElement('main');
  const aside = document.createElement('aside');
  const outlet = document.createElement('p');
  stage.append(main, aside, outlet);
  const root = new B.DOMRoot(main, runtime);
  const root2 = new B.DOMRoot(aside, runtime);
  const atom = new B.Atom(0);
  const other = new B.Atom('x');
  const computed = new B.Computed((a, b) => `${a}${b}`, [atom, other]);
  const state = B.Derivable.from({ a: { b: { c: 1 } }, list: [{ n: 1 }, { n: 2 }], get sum() { return this.list.length; } });
  const store = makeStore(0);
  const navigation = new B.InMemoryAdapter('/', null);
  const ref = new B.Ref(null);
  let setN, start, force, add, fail = false, local;
  const Child = B.createComponent(function Child({ n }) {
    this.useEffect(() => () => {}, [n]);
    const [m] = this.useState(() => ({ n }));
    return B.html`<li title=${n} @click=${() => m}>${this.useId()} ${this.use(computed)} ${this.use(B.SyncExternalStore(store.subscribe, store.get))}</li>`;
  });
  const Page = B.createComponent(function Page() {
    const scene = this.use(B.SyncNavigation(navigation));
    return B.html`<b>${scene.url}</b>`;
  });
  const Shell = B.createComponent(function Shell() {
    const [n, set] = this.useState(0);
    setN = set;
    force = (o) => this.forceUpdate(o);
    [, add] = this.useReducer((s, a) => [...s.slice(-2), a], []);
    const [pending, begin] = this.use(B.Transition());
    start = begin;
    const deferred = this.use(B.DeferredValue(n));
    const call = this.use(B.EffectEvent(() => n));
    this.use(B.ImperativeHandle(ref, () => ({ n }), [n]));
    local = this.use(B.LocalAtom(0));
    this.use(local);
    this.use(atom);
    this.use(state.get('a'));
    this.useEffect(() => void call(), [n]);
    const memo = this.useMemo(() => ({ n }), [n]);
    if (fail) throw new Error('bomb');
    const kids = Array.from({ length: n % 4 }, (_, i) => Child({ n: i }).withKey((i * (n % 3)) + '/' + i));
    return B.html`<div class=${{ a: n % 2, b: true }} style=${{ color: n % 2 ? 'red' : 'blue' }} .x=${memo} @click=${call} data-n=${n}><ul><${kids}></ul>${deferred} ${pending}<${n % 5 === 1 ? B.createPortal(Child({ n }), outlet) : null}><${computed}><${state.get('list')?.value.length}></div>`;
  });
  const done = () => drain(host, rng, 'fifo');
  const show = (o) => root.render(Shell({}), o);
  const option = rng.pick([undefined, { flushSync: true }, { transition: 1 }, { priority: 'background' }, { delay: 10 }, { handler: (commit) => commit() }]);
  const optionB = rng.pick([undefined, { flushSync: true }, { transition: 2 }, { priority: 'user-blocking' }]);
  const quiet = (h) => h.finished.catch(() => {});
  const n = rng.range(1, 4);
  const library = {
    state: async () => { for (let i = 0; i < n; i++) quiet(setN((x) => x + 1, option)); await done(); },
    'state twice': async () => { quiet(setN((x) => x + 1, option)); quiet(setN(0, optionB)); await done(); },
    'equal state': async () => { quiet(setN((x) => x, option)); await done(); },
    reducer: async () => { quiet(add({}, option)); quiet(add({}, optionB)); await done(); },
    force: async () => { quiet(force(option)); quiet(force(option)); await done(); },
    mount: async () => { root2.render(Child({ n }), option); await done(); root2.unmount(optionB); await done(); },
    'mount and drop': async () => { root2.render(Child({ n }), option); root2.unmount(option); await done(); },
    'mount a component of its own': async () => { const Own = B.createComponent(function Own() { this.useEffect(() => {}); return this.useId(); }); root2.render(B.html`<b><${Own({})}></b>`); await done(); root2.render(null); await done(); },
    'a root of its own': async () => { const e = document.createElement('div'); stage.append(e); const r = new B.DOMRoot(e, runtime); r.render(Child({ n }), option); await done(); r.unmount(); await done(); e.remove(); },
    'a runtime of its own': async () => { const h = makeHost(B); const e = document.createElement('div'); stage.append(e); const r = new B.DOMRoot(e, new B.Runtime(h)); r.render(Child({ n })); await drain(h, rng); r.unmount(); await drain(h, rng); e.remove(); },
    atom: async () => { for (let i = 0; i < n; i++) atom.value++; await done(); },
    'equal atom': async () => { atom.value = atom.value; await done(); },
    'local atom': async () => { local.value++; await done(); },
    subscribe: async () => { const offs = [atom, computed, state, state.get('a')].map((s) => s.subscribe(() => {})); atom.value++; for (const f of offs) f(); await done(); },
    'computed signals': async () => { const c = new B.Computed((x) => x + 1, [atom]); void c.value; void atom.map((x) => x).value; atom.value++; void c.value; await done(); },
    scope: async () => { state.scope((d) => { d.a.b.c++; void d.list[0].n; d.list.push({ n: 1 }); d.list.shift(); }); await done(); },
    'read in a scope': async () => { state.scope((d) => [d.a.b.c, d.list.map((x) => x.n), d.sum]); await done(); },
    'throw in a scope': async () => { try { state.scope((d) => { d.a.b.c++; throw new Error('x'); }); } catch {} await done(); },
    'nested scopes': async () => { state.get('a').scope((d) => { d.b.c++; state.get('list').scope((l) => { l.reverse(); void d.b.c; }); }); await done(); },
    'property signals': async () => { state.get('a').get('b').get('c').value++; void state.value; await done(); },
    'replaced values': async () => { const d = state.get('list').get(0); void d?.get('n')?.value; state.get('list').value = [{ n: 1 }, { n: 2 }]; void state.get('list').get(1).get('n').value; void state.value; await done(); },
    'deleted values': async () => { state.scope((d) => { d.a.more = { x: 1 }; }); void state.get('a').get('more').get('x').value; state.get('a').get('more').delete(); void state.value; await done(); },
    getters: async () => { void state.get('sum').value; state.scope((d) => { d.list.push({}); d.list.pop(); }); void state.get('sum').value; await done(); },
    'a derivable of its own': async () => { const d = B.Derivable.from({ a: { b: 1 } }); d.subscribe(() => {}); d.get('a').get('b').value = 2; d.scope((x) => { x.a.b++; }); void d.value; },
    store: async () => { store.set(n + store.get()); await done(); },
    transition: async () => { start(() => { quiet(setN((x) => x + 1)); }); await done(); },
    'asynchronous transition': async () => { start(async (t) => { await null; quiet(setN((x) => x + 1, { transition: t })); }); await done(); },
    'failing transition': async () => { try { start(() => { throw new Error('x'); }); } catch {} start(() => Promise.reject(new Error('x')))?.catch?.(() => {}); await done(); },
    navigate: async () => { const off = navigation.listen(() => {}); root2.render(Page({})); await done(); off(); quiet({ finished: navigation.navigate('/' + n + 'a') }); await done(); root2.unmount(); await done(); await navigation.navigate('/' + n, { state: { n } }); await done(); },
    middleware: async () => { const off = runtime.use({ handle: (u, f) => f(u) }); quiet(force()); await done(); off(); off(); },
    'a failing render': async () => { fail = true; quiet(force(option)); await done(); fail = false; quiet(force(optionB)); await done(); },
    'a malformed template': async () => { quiet(root2.render(B.html(Object.assign(['<b ', '="x">'], {}), n))); await done(); quiet(root2.render(null)); await done(); },
    'templates of their own': async () => { root2.render(B.html(['<b>', '</b>'], n), option); await done(); root2.render(null); await done(); },
    partial: async () => { root2.render(B.Partial.html`<b>${B.Partial.html`<i>${n}</i>`}</b>`.unwrap?.() ?? null); await done(); },
    'lists of lists': async () => { for (const k of [0, n, 1]) { root2.render(Array.from({ length: k + 1 }, (_, i) => B.html`<i><${i}></i>`.withKey(i * k))); await done(); } },
    'class and style': async () => { for (const k of [0, 1]) { root2.render(B.html`<i class=${[`c${k}`, { d: k }]} style=${k ? { color: 'red' } : { margin: '1px' }} @click=${k ? () => {} : { handleEvent() {}, once: true }} ${() => () => {}} .p=${{}}></i>`); await done(); } },
    events: async () => { main.querySelector('div')?.dispatchEvent(new window.Event('click')); await done(); },
  };
  return { library, show, done, stage, off: async () => { quiet(root.unmount()); quiet(root2.unmount()); await done(); stage.remove(); } };
}

export async function growthCase(ctx, B) {
  const t0 = Date.now();
  const { rng } = ctx;
  const host = makeHost(B);
  const { library, show, done, off } = makeOperations(ctx, B, host);
  show();
  await done();
  const names = rng.shuffle(Object.keys(library)).slice(0, rng.range(1, 5));
  ctx.note(names.join(', '));
  const rounds = async (k) => {
    for (let i = 0; i < k && !ctx.first; i++) for (const name of names) await library[name]();
  };
  await rounds(10);
  const counts = [];
  for (let w = 0; w <= WINDOWS; w++) {
    if (w > 0) await rounds(ROUNDS);
    await settle();
    counts.push(population());
    // One window without growth is enough.
    if (w > 0 && counts[w] - counts[w - 1] < ROUNDS * 0.9) break;
  }
  if (process.env.VERIF_GROWTH) appendFileSync(process.env.VERIF_GROWTH, `${counts.join(' ')} ${names.join(', ')} ${Date.now() - t0}\n`);
  const grown = counts.slice(1).map((c, i) => c - counts[i]);
  for (const name of names) ctx.count('repeated ' + name, counts.length - 1);
  ctx.count('rounds repeated', (counts.length - 1) * ROUNDS);
  ctx.count('objects counted', counts.at(-1));
  if (grown.length === WINDOWS && grown.every((g) => g >= ROUNDS * 0.9)) ctx.fail(`the heap grows by ${grown.join(', ')} objects with every ${ROUNDS} rounds of: ${names.join(', ')}`);
  await off();
  return { sig: 'growth:' + names.sort().join(), nontrivial: true };
}
