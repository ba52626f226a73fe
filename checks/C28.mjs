import { makeHost, micro, choose } from '../lib/sched.mjs';
import { POLICIES } from '../lib/forest.mjs';

// A model of the Navigation API: dispatches navigate events, commits the URL
// when the event was intercepted (or is a same-document one), runs the
// handlers and settles `finished`.
class FakeNavigation extends EventTarget {
  constructor(ctx, url) {
    super();
    this.ctx = ctx;
    this.url = new URL(url);
    this.entry = { getState: () => undefined };
    this.listeners = 0;
    this.loads = 0;
    this.calls = [];
  }
  get currentEntry() {
    return this.entry;
  }
  get location() {
    const nav = this;
    return {
      get hash() { return nav.url.hash; },
      get pathname() { return nav.url.pathname; },
      get search() { return nav.url.search; },
      get origin() { return nav.url.origin; },
      get href() { return nav.url.href; },
    };
  }
  addEventListener(type, f, o) {
    if (type === 'navigate') this.listeners++;
    return super.addEventListener(type, f, o);
  }
  removeEventListener(type, f, o) {
    if (type === 'navigate') this.listeners--;
    return super.removeEventListener(type, f, o);
  }
  navigate(url, options = {}) {
    this.calls.push({ url, options });
    const dest = new URL(url, this.url);
    const sameButHash = dest.href.split('#')[0] === this.url.href.split('#')[0] && url.includes('#');
    return this.go(dest, {
      state: options.state,
      navigationType: options.history === 'push' || options.history === 'replace' ? options.history : dest.href === this.url.href ? 'replace' : 'push',
      hashChange: sameButHash && dest.hash !== this.url.hash,
      // Same-document by the model of the tests: same origin.
      sameDocument: dest.origin === this.url.origin,
    });
  }
  go(dest, { state, navigationType, hashChange, sameDocument = true, canIntercept = true, downloadRequest = null, commits = true }) {
    const { ctx } = this;
    const event = new window.Event('navigate', { cancelable: true });
    const handlers = [];
    let intercepted = false;
    Object.assign(event, {
      canIntercept,
      hashChange,
      downloadRequest,
      navigationType,
      destination: { url: dest.href, sameDocument, getState: () => state, id: '', key: '', index: -1 },
      intercept(o = {}) {
        if (!canIntercept) ctx.fail('intercept() of a navigation that cannot be intercepted');
        if (downloadRequest !== null) ctx.fail('intercept() of a download');
        intercepted = true;
        if (o.handler) handlers.push(o.handler);
      },
      scroll() {},
    });
    this.dispatchEvent(event);
    if (!commits) return null;
    if (!intercepted && !sameDocument) {
      this.loads++;
      return { committed: Promise.resolve(), finished: Promise.resolve() };
    }
    this.url = dest;
    this.entry = { getState: () => state };
    const finished = Promise.all(handlers.map((h) => h())).then(() => this.entry);
    return { committed: Promise.resolve(this.entry), finished };
  }
}
const relative = (u) => u.pathname + u.search + u.hash;
const PATHS = ['/', '/a', '/a/b', '/a?x=1', '/a?x=1&y=%20', '/%E3%81%82', '/a/', '/b', '/c d', '/ünï'];
const HASHES = ['', '#', '#x', '#/a', '#/a/b', '##', '#%20', '#a?b#c'];

export default {
  id: 'C28',
  technique: 'runtime monitoring: adapters are driven against a model of the Navigation API, each delivery is checked online against the destination, and the rendered scene is compared with the adapter at the moment navigate() resolves',
  note: 'Random exploration; the Navigation API is a model (jsdom has none). A same-origin destination counts as same-document, as in the tests of the repository. Navigations that overlap, or that happen before a component has been mounted, are not part of the claim.',
  rule:
    'A case drives one adapter (browser, hash, in-memory) through 8-30 navigations, with any URL, state and history option, by navigate() and (for the first two) by events from elsewhere with any combination of flags, while up to four listeners come and go, also during delivery, with sync, slow, failing or no handlers; ' +
    'or renders 1-3 components with SyncNavigation (with or without an intercept function, options, other updates, unmounts, adapters being swapped) under a virtual host in random order. Deliveries, scenes, URLs, states and listener counts equal the model. Non-trivial: something was delivered.',
  quick: { cases: 3000, secs: 240 },
  thorough: { cases: 200000, secs: 600 },
  require: { deliveries: 20000, 'navigations not to be delivered': 5000, 'listeners removed during delivery': 200, 'calls after a removal checked': 5000, 'resolved after handlers': 5000, 'rejected navigations': 300, 'scenes compared': 8000, 'injected scenes compared': 2000, 'adapters swapped': 100, 'custom handlers': 1000, 'components unmounted': 300 },
  minDistinct: 2000,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    return rng.bool(0.5) ? this.listeners(ctx, B) : this.scenes(ctx, B);
  },
  make(ctx, B, kind) {
    const { rng } = ctx;
    if (kind === 'memory') {
      const a = { kind, model: { url: rng.pick(PATHS), state: rng.pick([null, undefined, { s: 0 }]) } };
      a.adapter = new B.InMemoryAdapter(a.model.url, a.model.state);
      return a;
    }
    const nav = new FakeNavigation(ctx, 'http://localhost' + rng.pick(PATHS) + rng.pick(HASHES));
    const a = { kind, nav };
    // Sometimes as the globals.
    if (rng.bool(0.1) && !window.navigation) {
      window.navigation = nav;
      try {
        a.adapter = new (kind === 'browser' ? B.BrowserAdapter : B.HashAdapter)({ location: nav.location });
      } finally {
        delete window.navigation;
      }
    } else a.adapter = new (kind === 'browser' ? B.BrowserAdapter : B.HashAdapter)({ location: nav.location, navigation: nav });
    return a;
  },
  // What the adapter must report as current.
  current(a) {
    if (a.kind === 'memory') return a.model;
    const u = a.nav.url;
    return { url: a.kind === 'browser' ? relative(u) : u.hash.slice(1), state: a.nav.entry?.getState() };
  },
  checkCurrent(ctx, a, when) {
    const want = this.current(a);
    const url = a.adapter.getCurrentURL();
    const state = a.adapter.getCurrentState();
    if (url !== want.url || state !== want.state) ctx.fail(`${when}: ${a.kind} adapter reports ${url} ${JSON.stringify(state)} instead of ${want.url} ${JSON.stringify(want.state)}`);
  },
  // A random navigation: {start(): promise|null, scene|null}
  navigation(ctx, a) {
    const { rng } = ctx;
    const state = rng.pick([undefined, null, 1, 'x', { n: rng.int(100) }]);
    const history = rng.pick([undefined, 'auto', 'push', 'replace']);
    const options = rng.bool(0.2) ? undefined : { state, history };
    const st = options?.state;
    if (a.kind === 'memory') {
      const url = rng.bool(0.2) ? a.model.url : rng.pick(PATHS) + rng.pick(HASHES);
      const navigationType = history === 'push' && options ? 'push' : history === 'replace' && options ? 'replace' : url === a.model.url ? 'replace' : 'push';
      return { via: 'navigate', url, start: () => a.adapter.navigate(url, options), scene: { url, state: st, navigationType }, commit() { a.model = { url, state: st }; } };
    }
    if (rng.bool(0.5)) {
      // By the adapter.
      const url = a.kind === 'browser' ? rng.pick(PATHS) + rng.pick(HASHES) : rng.pick(['', '/', '/a', '/a/b', 'x', '/a?q#r', '%20', '/ä', '#', '#a', '##/a']);
      const dest = new URL(a.kind === 'browser' ? url : '#' + url, a.nav.url);
      const onlyHash = dest.href.split('#')[0] === a.nav.url.href.split('#')[0] && (a.kind === 'hash' || url.includes('#'));
      const hashChange = onlyHash && dest.hash !== a.nav.url.hash;
      const handled = a.kind === 'browser' ? !hashChange : hashChange;
      const navigationType = (history === 'push' || history === 'replace') && options ? history : dest.href === a.nav.url.href ? 'replace' : 'push';
      return {
        via: 'navigate', url,
        start: () => {
          const n = a.nav.calls.length;
          const p = a.adapter.navigate(url, options);
          const call = a.nav.calls[n];
          if (a.nav.calls.length !== n + 1 || call.url !== (a.kind === 'browser' ? url : '#' + url)) ctx.fail(`navigate(${url}) became ${JSON.stringify(a.nav.calls.slice(n))}`);
          if (options && (call.options.state !== options.state || call.options.history !== options.history)) ctx.fail(`navigate() passes on other options: ${JSON.stringify(call.options)}`);
          return p;
        },
        scene: handled ? { url: a.kind === 'browser' ? relative(dest) : dest.hash.slice(1), state: st, navigationType } : null,
        commit() {},
      };
    }
    // By someone else.
    const foreign = rng.bool(0.1);
    const dest = new URL((foreign ? 'http://example.com' : 'http://localhost') + rng.pick(PATHS) + rng.pick(HASHES));
    const flags = {
      state: st,
      navigationType: rng.pick(['push', 'replace', 'traverse', 'reload']),
      hashChange: rng.bool(a.kind === 'hash' ? 0.7 : 0.3),
      sameDocument: !foreign && !rng.bool(0.15),
      canIntercept: !rng.bool(0.15),
      downloadRequest: rng.weighted([[8, null], [1, ''], [1, 'file.zip']]),
    };
    const download = flags.downloadRequest !== null;
    if (download && a.kind === 'hash') {
      // A download is never a hash change.
      flags.hashChange = false;
    }
    const handled = flags.canIntercept && flags.sameDocument && !download && flags.hashChange === (a.kind === 'hash');
    if (download) flags.commits = false;
    return {
      via: 'event ' + JSON.stringify(flags), url: dest.href,
      start: () => a.nav.go(dest, flags)?.finished ?? null,
      scene: handled ? { url: a.kind === 'browser' ? relative(dest) : dest.hash.slice(1), state: st, navigationType: flags.navigationType } : null,
      commit() {},
    };
  },
  async listeners(ctx, B) {
    const { rng } = ctx;
    const kind = rng.pick(['browser', 'hash', 'memory']);
    const a = this.make(ctx, B, kind);
    const self = this;
    const live = [];
    let nth = 0;
    let now = null; // navigation being delivered
    let delivered = 0;
    const pending = [];
    const add = () => {
      const l = { n: nth++, on: true };
      l.fn = (scene, interceptor) => {
        ctx.count('deliveries');
        delivered++;
        if (!l.on) ctx.fail(`listener ${l.n} is called after it was removed`);
        if (!now) ctx.fail(`listener ${l.n} is called although nothing navigates`);
        if (!now.scene) ctx.fail(`a navigation that must not be handled is delivered: ${now.via} ${now.url}`);
        if (now.got.includes(l)) ctx.fail(`listener ${l.n} is called twice for one navigation`);
        now.got.push(l);
        const w = now.scene;
        if (scene.url !== w.url || scene.state !== w.state || scene.navigationType !== w.navigationType) ctx.fail(`${kind}: delivered ${JSON.stringify(scene)} instead of ${JSON.stringify(w)}`);
        if (rng.bool(0.1)) {
          const other = rng.pick(live.filter((x) => x.on).concat([l]));
          if (other.on) {
            if (!now.got.includes(other)) now.expected = now.expected.filter((x) => x !== other);
            remove(other);
            ctx.count('listeners removed during delivery');
          }
        }
        const mode = rng.weighted([[2, 'none'], [2, 'empty'], [3, 'sync'], [4, 'slow'], [now.mayFail ? 1 : 0, 'fail'], [now.mayFail && kind === 'memory' ? 0.5 : 0, 'throw']]);
        const n = now;
        // One failure is enough: the others would have nobody to report to.
        if (mode === 'throw' || mode === 'fail') n.mayFail = false;
        if (mode === 'throw') { n.fails = true; throw (n.error = new Error('listener')); }
        if (mode === 'none') return;
        if (mode === 'empty') return void interceptor.intercept(rng.pick([undefined, {}, { focusReset: 'manual' }]));
        for (let k = mode === 'fail' ? 1 : rng.weighted([[3, 1], [1, 2]]); k > 0; k--) {
          interceptor.intercept({
            handler: () => {
              n.handlers++;
              if (kind === 'memory') self.checkCurrent(ctx, a, 'while handlers run');
              if (mode === 'sync') { n.done++; return undefined; }
              return new Promise((resolve, reject) => {
                pending.push(() => {
                  if (mode === 'fail') { n.fails = true; n.error ??= new Error('handler'); reject(n.error); } else { n.done++; resolve(); }
                });
              });
            },
          });
        }
      };
      l.un = a.adapter.listen(l.fn);
      live.push(l);
    };
    const remove = (l) => {
      l.on = false;
      l.un();
      if (rng.bool(0.2)) l.un();
    };
    for (let i = rng.int(4); i > 0; i--) add();
    self.checkCurrent(ctx, a, 'at first');
    const steps = rng.range(8, 30);
    for (let i = 0; i < steps; i++) {
      if (rng.bool(0.2) && live.filter((l) => l.on).length < 4) add();
      if (rng.bool(0.15)) { const l = rng.pick(live.concat([null])); if (l?.on) remove(l); }
      const n = self.navigation(ctx, a);
      ctx.note(`${n.via} ${n.url}`);
      Object.assign(n, { got: [], handlers: 0, done: 0, fails: false, mayFail: rng.bool(0.2) });
      n.expected = live.filter((l) => l.on);
      if (!n.scene) { n.expected = []; ctx.count('navigations not to be delivered'); }
      const gone = live.filter((l) => !l.on).length;
      now = n;
      let settled = null;
      const p = n.start();
      if (p) p.then(() => { settled = 'ok'; }, (e) => { settled = 'error'; n.reason = e; });
      ctx.count('calls after a removal checked', gone);
      if (!n.fails && n.got.map((l) => l.n).join() !== n.expected.map((l) => l.n).join()) ctx.fail(`${kind}: delivered to listeners ${n.got.map((l) => l.n)} instead of ${n.expected.map((l) => l.n)}: ${n.via} ${n.url}`);
      now = null;
      await micro();
      while (pending.length > 0) {
        if (settled === 'ok') ctx.fail(`${kind}: navigate() resolved before a handler had finished`);
        pending.splice(rng.int(pending.length), 1)[0]();
        await micro();
      }
      if (!p) continue;
      if (settled === null) ctx.fail(`${kind}: navigate() never settles`);
      if (settled !== (n.fails ? 'error' : 'ok')) ctx.fail(`${kind}: navigate() ${settled === 'ok' ? 'resolved' : 'rejected'} although its handlers ${n.fails ? 'failed' : 'succeeded'}`, String(n.reason?.stack));
      if (n.fails) {
        ctx.count('rejected navigations');
        if (n.reason !== n.error && !/handler|listener/.test(n.reason?.message)) ctx.fail('navigate() rejected with another error', String(n.reason));
      } else {
        if (n.handlers !== n.done) ctx.fail('a handler was not awaited');
        if (n.handlers > 0) ctx.count('resolved after handlers');
        n.commit();
      }
      self.checkCurrent(ctx, a, `after ${n.via} ${n.url}`);
    }
    for (const l of live) if (l.on) remove(l);
    if (a.nav && a.nav.listeners > 0) ctx.fail(`${a.nav.listeners} listeners are left`);
    return { sig: ctx.trace.join(), nontrivial: delivered > 0 };
  },
  async scenes(ctx, B) {
    const { rng } = ctx;
    const self = this;
    const host = makeHost(B, { taskPriority: () => rng.pick(['user-blocking', 'user-visible', 'background']) });
    const runtime = new B.Runtime(host);
    const stage = document.createElement('main');
    document.body.append(stage);
    const root = new B.DOMRoot(stage, runtime);
    const kind = rng.pick(['browser', 'hash', 'memory']);
    const adapters = [self.make(ctx, B, kind)];
    if (rng.bool(0.6)) adapters.push(self.make(ctx, B, rng.pick(['browser', 'hash', 'memory'])));
    for (const a of adapters) {
      a.open = 0;
      const listen = a.adapter.listen;
      a.adapter.listen = function (f) {
        a.open++;
        const un = listen.call(this, f);
        let done = false;
        return () => { if (!done) a.open--; done = true; un(); };
      };
    }
    const apps = new Map();
    let calls = [];
    let handled = 0;
    const show = (s) => JSON.stringify([s.url, s.state === undefined ? '-' : s.state, s.navigationType]);
    const Child = B.createComponent(function Child() {
      const nc = this.inject(B.NavigationContext);
      return B.html`<q data-scene=${show(nc.scene)}></q>`;
    });
    const App = B.createComponent(function App({ n, a, mode }) {
      const app = this.useMemo(() => ({ n, mounted: false, base: null }), []);
      apps.set(n, app);
      const intercept =
        mode === 'none' ? undefined
        : mode === 'undefined' ? (scene) => { calls.push(scene); return undefined; }
        : mode === 'focus' ? (scene) => { calls.push(scene); return { focusReset: 'manual' }; }
        : (scene, setScene) => {
            calls.push(scene);
            return { handler: () => handled++ < 0 || setScene(scene, mode === 'transition' ? { transition: rng.int(5) } : mode === 'sync' ? { flushSync: true } : { priority: 'background' }).finished };
          };
      const nc = this.use(B.SyncNavigation(a.adapter, intercept));
      if (nc.adapter !== a.adapter) ctx.fail('the context has another adapter');
      app.force = (o) => this.forceUpdate(o);
      app.scene = nc.scene;
      this.useEffect(() => { app.mounted = true; return () => { app.mounted = false; }; }, []);
      this.useEffect(() => { app.a = a; }, [a]);
      return B.html`<section data-n=${n} data-scene=${show(nc.scene)}><${Child({})}></section>`;
    });
    let list = [];
    let seq = 0;
    const modes = ['none', 'none', 'undefined', 'focus', 'transition', 'sync', 'background'];
    const add = () => list.push({ n: seq++, a: rng.pick(adapters), mode: rng.pick(modes) });
    for (let i = rng.range(1, 3); i > 0; i--) add();
    const render = (o) => root.render(list.map((x) => App({ n: x.n, a: x.a, mode: x.mode }).withKey(x.n)), o).finished;
    const policy = rng.pick(POLICIES);
    const drainUntil = async (done) => {
      await micro();
      let k = 0;
      while (host.tasks.length > 0 && !done?.()) {
        if (k++ > 500) throw new Error('HARNESS: never idle');
        host.tasks[choose(host, rng, policy)].run();
        await micro();
      }
    };
    render();
    await drainUntil();
    const initial = () => {
      for (const x of list) {
        const app = apps.get(x.n);
        if (app.base === null) {
          const c = self.current(x.a);
          app.base = { url: c.url, state: c.state, navigationType: null };
        }
      }
    };
    initial();
    const compare = (when) => {
      for (const x of list) {
        const app = apps.get(x.n);
        const el = stage.querySelector(`[data-n="${x.n}"]`);
        const want = show(app.base);
        if (el?.dataset.scene !== want) ctx.fail(`${when}: component ${x.n} (${x.a.kind}, ${x.mode}) shows ${el?.dataset.scene} instead of ${want}`);
        ctx.count('scenes compared');
        const q = el.querySelector('q');
        if (q.dataset.scene !== want) ctx.fail(`${when}: the child of component ${x.n} injects ${q.dataset.scene} instead of ${want}`);
        ctx.count('injected scenes compared');
      }
      for (const a of adapters) {
        self.checkCurrent(ctx, a, when);
        const users = list.filter((x) => x.a === a).length;
        if (a.open !== users) ctx.fail(`${when}: ${a.open} listeners for ${users} components`);
        if (a.nav && a.nav.listeners !== users) ctx.fail(`${when}: ${a.nav.listeners} event listeners for ${users} components`);
      }
    };
    compare('at first');
    const steps = rng.range(5, 16);
    for (let i = 0; i < steps; i++) {
      if (rng.bool(0.25)) {
        const op = rng.int(4);
        if (op === 0 && list.length < 4) add();
        if (op === 1 && list.length > 0) { list.splice(rng.int(list.length), 1); ctx.count('components unmounted'); }
        if (op === 2 && list.length > 0) {
          const k = rng.int(list.length);
          const a = rng.pick(adapters);
          if (a !== list[k].a) ctx.count('adapters swapped');
          list[k] = { ...list[k], a };
        }
        if (op === 3) list = rng.shuffle(list);
        list = list.slice();
        render(rng.pick([undefined, { flushSync: true }, { priority: 'background' }]));
        await drainUntil();
        initial();
        compare('after a render');
      }
      const a = rng.pick(adapters);
      const n = self.navigation(ctx, a);
      ctx.note(`${a.kind} ${n.via} ${n.url} ${JSON.stringify(n.scene)}`);
      calls = [];
      handled = 0;
      for (const x of list) if (rng.bool(0.15)) apps.get(x.n).force(rng.pick([undefined, { flushSync: true }, { priority: 'background' }]));
      const users = list.filter((x) => x.a === a);
      let checked = false;
      let custom = 0;
      const p = n.start();
      if (n.scene) {
        const withCall = users.filter((x) => ['undefined', 'focus', 'transition', 'sync', 'background'].includes(x.mode)).length;
        if (calls.length !== withCall) ctx.fail(`${calls.length} of ${withCall} intercept functions were called`);
        custom = users.filter((x) => ['transition', 'sync', 'background'].includes(x.mode)).length;
        for (const s of calls) if (show(s) !== show(n.scene)) ctx.fail(`intercept got ${show(s)} instead of ${show(n.scene)}`);
        for (const x of users) apps.get(x.n).base = n.scene;
      }
      let leaving = null;
      if (rng.bool(0.1) && list.length > 1) {
        leaving = rng.int(list.length);
        list = list.filter((_, k) => k !== leaving);
        render(rng.pick([undefined, { flushSync: true }]));
        ctx.count('components unmounted');
      }
      if (p) {
        p.then(
          () => {
            checked = true;
            if (leaving === null && list.length > 0) {
              if (a.kind === 'memory') {
                // The adapter has taken over the URL before it resolves.
                n.commit();
              }
              compare(`when navigate() resolves (${n.via} ${n.url})`);
            } else n.commit();
          },
          (e) => { checked = e; },
        ).catch(() => {});
      }
      await drainUntil();
      if (p && checked !== true) ctx.fail(checked === false ? 'navigate() never settles' : `navigate() rejected: ${checked?.stack}`);
      if (ctx.first) throw ctx.first;
      if ((p || custom) && handled !== custom) ctx.fail(`${handled} of ${custom} handlers of the intercept functions were called`);
      ctx.count('custom handlers', custom);
      compare('after everything has run');
    }
    root.unmount();
    await drainUntil();
    for (const a of adapters) if (a.open !== 0) ctx.fail(`${a.open} listeners are left after unmounting`);
    stage.remove();
    if (ctx.i < 2) ctx.sample(ctx.trace.slice(0, 10));
    return { sig: ctx.trace.join(), nontrivial: true };
  },
};
