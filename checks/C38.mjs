import { domErrors, moves } from '../lib/env.mjs';
import { makeHost, micro, choose } from '../lib/sched.mjs';
import { POLICIES } from '../lib/forest.mjs';

// Custom elements that report everything that happens to them.
let hook = null;
const NAMES = ['x-one', 'x-two', 'x-three'];
function define() {
  for (const name of NAMES) {
    if (window.customElements.get(name)) continue;
    window.customElements.define(
      name,
      class extends window.HTMLElement {
        static observedAttributes = ['title', 'data-fixed', 'class'];
        log = [];
        #value;
        #spec = null;
        #level = 0;
        connected = false;
        constructor() {
          super();
          hook?.('constructed', this);
        }
        get value() { return this.#value; }
        set value(v) {
          this.#value = v;
          this.log.push(['value', v]);
          hook?.('set', this, 'value', v);
        }
        get spec() { return this.#spec; }
        set spec(v) {
          this.#spec = v;
          this.log.push(['spec', v]);
        }
        get level() { return this.#level; }
        set level(v) {
          this.#level = v;
          this.log.push(['level', v]);
        }
        attributeChangedCallback(name, from, to) {
          this.log.push(['attr', name, to]);
          hook?.('attribute', this, name, from, to);
        }
        connectedCallback() {
          hook?.('connected', this);
        }
        disconnectedCallback() {
          hook?.('disconnected', this);
        }
      },
    );
  }
}

export default {
  id: 'C38',
  technique: 'runtime monitoring: instrumented custom elements report construction, property sets, attribute changes, connection, disconnection and their own content at these moments, checked online against the value that is being committed',
  note: 'Random exploration with the custom elements of jsdom, which has no declarative shadow roots; moves disconnect and connect elements, also those by (a stand-in of) moveBefore. Callbacks do not throw.',
  rule:
    'A case renders random trees of custom elements (own properties with setters, live properties, observed attributes and classes, event listeners, refs, nested custom elements, lists with keys, stateful components, at up to 2 roots) and requests 10-35 renders and state changes with random options, also from within connected and disconnected callbacks, setters, attribute callbacks and event listeners of the elements; the host runs its callbacks in random order. ' +
    'Monitors: elements are constructed while rendering, never by the commit; whenever an element is connected it has the properties, attributes, classes, text and children of the value being committed and its listeners receive its events; each change of a bound value sets a property once and unchanged ones never; observed attributes change only with their values; connections and disconnections alternate, an element that stays in its place among its siblings, as all its ancestors do, has none; elements move by moveBefore if there is one; removed elements are disconnected; all updates settle and the final document is that of the last values. Non-trivial: updates were requested by callbacks of elements.',
  quick: { cases: 1600, secs: 240 },
  thorough: { cases: 80000, secs: 600 },
  require: { 'elements connected': 15000, 'elements compared': 20000, 'property sets checked': 30000, 'attribute changes checked': 10000, 'events of connected elements': 5000, 'updates requested by callbacks': 2000, 'live properties': 1000, 'elements removed': 5000, 'elements moved': 500, 'elements moved by moveBefore': 200, 'elements in their place': 20000 },
  minDistinct: 800,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    define();
    const host = makeHost(B, { taskPriority: () => rng.pick(['user-blocking', 'user-visible', 'background']) });
    const runtime = new B.Runtime(host);
    const stage = document.createElement('div');
    document.body.append(stage);
    const log = [];
    const ev = (x) => { log.push(x); };
    const bad = (m) => ctx.fail(m, log.slice(-150).join(' '));
    let phase = null; // 'render' | 'commit'
    let budget = rng.range(10, 35);
    let open = 0;
    let byCallbacks = 0;
    let nextId = 1;
    let gen = 0;
    const elements = [];
    const setters = new Set();
    const roots = [];
    const failures = [];
    const nameOf = (el) => `<${el.localName}> ${el.spec?.id ?? '(new)'}`;
    // The element as its specification describes it.
    const compare = (el, why) => {
      const s = el.spec;
      ctx.count('elements compared');
      if (s === null) bad(`${why} ${nameOf(el)} has no properties yet`);
      if (!Object.is(el.value, s.value)) bad(`${why} ${nameOf(el)} has the value ${JSON.stringify(el.value)} instead of ${JSON.stringify(s.value)} (${el.log.slice(-6).map((x) => JSON.stringify(x).slice(0, 120))})`);
      if (el.level !== s.level) bad(`${why} ${nameOf(el)} has the level ${el.level} instead of ${s.level}`);
      if (el.getAttribute('title') !== (s.title === null ? null : String(s.title))) bad(`${why} ${nameOf(el)} has the title ${el.getAttribute('title')} instead of ${s.title}`);
      const classes = s.cls ?? '';
      if ([...el.classList].sort().join(' ') !== classes) bad(`${why} ${nameOf(el)} has the classes ${el.className} instead of ${classes}`);
      if (el.getAttribute('data-fixed') !== 'y') bad(`${why} ${nameOf(el)} lacks its own attribute`);
      if (el.querySelector(':scope > b').textContent !== String(s.text)) bad(`${why} ${nameOf(el)} shows ${el.querySelector(':scope > b').textContent} instead of ${s.text}`);
      const kids = [...el.querySelectorAll(':scope > ul > *')].map((x) => (x.spec ? x.spec.id : '?')).join();
      const want = s.kids.map((k) => k.id).join();
      if (kids !== want) bad(`${why} ${nameOf(el)} has the children ${kids} instead of ${want}`);
    };
    const fromCallback = (p, f = request) => {
      if (budget <= 0 || !rng.bool(p)) return;
      byCallbacks++;
      ctx.count('updates requested by callbacks');
      f();
    };
    hook = (what, el, a, b, c) => {
      switch (what) {
        case 'constructed': {
          ev('N');
          if (phase !== 'render') bad(`<${el.localName}> is constructed outside of rendering`);
          el.n = elements.push(el);
          el.rendered = el.checked = 0;
          break;
        }
        case 'set':
          fromCallback(0.01);
          break;
        case 'attribute': {
          ctx.count('attribute changes checked');
          if (phase === null) bad(`${nameOf(el)} changes its attribute ${a} outside of updates`);
          if (phase === 'render' && a === 'title') bad(`${nameOf(el)} gets its attribute ${a} while rendering`);
          if (b === c && a !== 'class') bad(`${nameOf(el)} gets the same attribute ${a} again`);
          fromCallback(0.01);
          break;
        }
        case 'connected': {
          ev('+' + el.n);
          ctx.count('elements connected');
          if (phase !== 'commit') bad(`${nameOf(el)} is connected outside of commits`);
          if (el.connected) bad(`${nameOf(el)} is connected twice`);
          el.connected = true;
          el.connections = (el.connections ?? 0) + 1;
          if (el.connections > 1) {
            ctx.count('elements moved');
            if (ctx.mv) {
              ctx.count('elements moved by moveBefore');
              if (moves.now === 0) bad(`${nameOf(el)} is removed and inserted again instead of being moved`);
            }
          }
          el.specThen = el.spec;
          compare(el, 'when connected,');
          el.pinged = 0;
          el.dispatchEvent(new window.CustomEvent('ready', { detail: el }));
          ctx.count('events of connected elements');
          if (el.pinged !== 1) bad(`an event of ${nameOf(el)} when it is connected reaches ${el.pinged} listeners`);
          fromCallback(0.03);
          break;
        }
        case 'disconnected': {
          ev('-' + el.n);
          if (phase !== 'commit') bad(`${nameOf(el)} is disconnected outside of commits`);
          if (!el.connected) bad(`${nameOf(el)} is disconnected twice`);
          el.connected = false;
          fromCallback(0.03);
          break;
        }
      }
    };
    const VALUES = [0, -0, NaN, 1, '', 'a', null, undefined, true, { x: 1 }];
    const spec = (depth = 3) => {
      const kids = [];
      for (let i = depth > 0 ? rng.int(4) : 0; i > 0; i--) kids.push(spec(depth - 1 - rng.int(2)));
      return vary({ id: nextId++, name: rng.int(NAMES.length), stateful: rng.bool(0.3), kids });
    };
    const vary = (s) => ({
      ...s,
      value: s.value !== undefined && rng.bool(0.6) ? s.value : rng.pick(VALUES),
      level: rng.bool(0.6) ? s.level ?? 0 : rng.int(3),
      title: rng.bool(0.6) ? s.title ?? null : rng.pick([null, 'a', 'b', 3]),
      cls: rng.bool(0.6) ? s.cls ?? null : rng.pick(['k', 'l']),
      text: rng.bool(0.6) ? s.text ?? 0 : rng.int(100),
    });
    const mutate = (s) => {
      if (rng.bool(0.3)) return s;
      let kids = s.kids.map(mutate);
      const op = rng.int(7);
      if (op === 0 && kids.length > 0) kids.splice(rng.int(kids.length), 1);
      if (op === 1 && kids.length < 5) kids.splice(rng.int(kids.length + 1), 0, spec(1));
      if (op === 2) kids = rng.shuffle(kids);
      if (op === 3 && kids.length > 0) kids[rng.int(kids.length)] = spec(1);
      return rng.bool(0.5) ? vary({ ...s, kids }) : { ...s, kids };
    };
    const view = (s) => {
      const kids = s.kids.map(element);
      const ready = (e) => {
        const el = e.detail;
        el.pinged++;
        if (el.spec !== s) bad(`the listener of ${nameOf(el)} is not the current one`);
        fromCallback(0.03);
      };
      const cls = s.cls ? { [s.cls]: true } : null;
      const ref = s.ref ??= (el) => {
        if (phase !== 'commit') bad(`the ref of ${nameOf(el)} is called outside of commits`);
        if (!NAMES.includes(el.localName) || typeof el.log === 'undefined') bad(`the ref gets an element that is not upgraded`);
      };
      switch (s.name) {
        case 0: return B.html`<x-one class=${cls} data-fixed="y" .spec=${s} .value=${s.value} $level=${s.level} title=${s.title} @ready=${ready} ${ref}><b>${s.text}</b><ul><${kids}></ul></x-one>`;
        case 1: return B.html`<x-two ${ref} @ready=${ready} title=${s.title} $level=${s.level} .value=${s.value} .spec=${s} data-fixed="y" class=${cls}><ul><${kids}></ul><b>${s.text}</b></x-two>`;
        default: return B.html`<x-three class=${cls} data-fixed="y" @ready=${ready} .value=${s.value} .spec=${s} $level=${s.level} title=${s.title}><b>${s.text}</b><ul><${kids}></ul></x-three>`;
      }
    };
    const Stateful = B.createComponent(function Stateful({ s }) {
      const [n, set] = this.useState(0);
      const own = this.useMemo(() => (n === 0 ? s : vary(s)), [s, n]);
      this.useEffect(() => {
        setters.add(set);
        return () => setters.delete(set);
      }, [set]);
      return view(own);
    });
    const element = (s) => (s.stateful ? Stateful({ s }).withKey(s.id) : view(s).withKey(s.id));
    const OPTIONS = [undefined, undefined, { flushSync: true }, { priority: 'user-blocking' }, { priority: 'background' }, { transition: 1 }, { transition: 2, priority: 'user-visible' }];
    const requests = new Map();
    const watch = (h, r, specs) => {
      requests.set(h.id, [r, specs]);
      open++;
      h.finished.then(() => open--, (e) => { failures.push(e); open--; });
    };
    function request() {
      if (budget <= 0 || ctx.first) return;
      budget--;
      if (setters.size > 0 && rng.bool(0.5)) {
        ev('Qs');
        watch(rng.pick([...setters])((x) => x + 1, rng.pick(OPTIONS)));
        return;
      }
      const r = rng.pick(roots);
      if (rng.bool(0.08)) {
        r.specs = null;
        ev('Qu' + r.i);
        watch(r.root.unmount(rng.pick(OPTIONS)), r, null);
        return;
      }
      r.specs = r.specs === null ? [spec(), ...(rng.bool() ? [spec(1)] : [])] : rng.shuffle(r.specs).map(mutate);
      ev('Qr' + r.i);
      const specs = r.specs;
      watch(r.root.render(r.bare ? specs.map(element) : B.html`<main data-gen=${++gen}><${specs.map(element)}></main>`, rng.pick(OPTIONS)), r, specs);
    }
    for (let i = rng.range(1, 2); i > 0; i--) {
      const container = document.createElement('section');
      stage.append(container);
      roots.push({ i: roots.length, container, root: new B.DOMRoot(container, runtime), bare: rng.bool(0.3), specs: null, shown: null });
    }
    const pathOf = (el) => {
      const path = [];
      for (let x = el; x !== null && x !== stage; x = x.parentElement) if (NAMES.includes(x.localName)) path.push({ el: x, list: [...x.parentElement.children] });
      return path;
    };
    runtime.use({
      handle(update, next) {
        const outer = phase;
        phase = 'render';
        const constructed = elements.length;
        const commit = next(update);
        phase = outer;
        ev(`P${update.id}(${elements.length - constructed})`);
        return () => {
          const before = elements.filter((x) => x.connected).map((el) => ({ el, connections: el.connections, log: el.log.length, path: pathOf(el), spec: el.spec, values: { value: el.value, level: el.level, spec: el.spec } }));
          const count = elements.length;
          phase = 'commit';
          ev('C' + update.id);
          const [r, specs] = requests.get(update.id);
          if (r) r.shown = specs;
          commit();
          phase = null;
          if (elements.length !== count) bad('elements are constructed by a commit');
          for (const el of elements) {
            // Properties were set once per change.
            const was = before.find((x) => x.el === el);
            const sets = el.log.slice(was ? was.log : el.seen ?? 0);
            el.seen = el.log.length;
            if (!el.connected && !was) {
              continue;
            }
            for (const p of ['spec', 'value', 'level']) {
              const own = sets.filter((x) => x[0] === p);
              ctx.count('property sets checked');
              if (own.length > 1) bad(`the property ${p} of ${nameOf(el)} is set ${own.length} times by one update`);
              if (was) {
                if (own.length > 0 && Object.is(own[0][1], was.values[p])) bad(`the property ${p} of ${nameOf(el)} is set although it has not changed`);
              } else if (own.length === 0 && (p !== 'level' || el.spec.level !== 0)) bad(`the property ${p} of ${nameOf(el)} is not set`);
              else if (p === 'level' && own.length > 0 && own[0][1] === 0) bad(`the live property of ${nameOf(el)} is set to what it is`);
              if (p === 'level' && own.length > 0) ctx.count('live properties');
            }
            const titles = sets.filter((x) => x[1] === 'title');
            if (titles.length > 1) bad(`the title of ${nameOf(el)} is set ${titles.length} times`);
            const fixed = sets.filter((x) => x[1] === 'data-fixed');
            if (was && fixed.length > 0) bad(`an attribute of ${nameOf(el)} that is not bound is set`);
            if (was && !el.connected) ctx.count('elements removed');
            if (el.connected && el.connections !== (was?.connections ?? 0) && el.specThen !== el.spec) bad(`${nameOf(el)} is connected with its previous properties`);
            if (el.connected) compare(el, 'after the update');
            if (was && el.connected) {
              const moves = el.connections - was.connections;
              const path = pathOf(el);
              if (moves > path.length) bad(`${nameOf(el)} is disconnected ${moves} times by one update`);
              if (was.path.length !== path.length) bad(`${nameOf(el)} gets other ancestors`);
              const stays = path.every((now, i) => {
                const then = was.path[i];
                if (then.el !== now.el) return false;
                return then.list.filter((x) => now.list.includes(x)).every((x, i, xs) => now.list.filter((y) => xs.includes(y))[i] === x);
              });
              if (stays) {
                ctx.count('elements in their place');
                if (moves > 0) bad(`${nameOf(el)} is disconnected although it stays in its place`);
              }
            }
          }
          for (const el of elements) if (el.isConnected !== el.connected) bad(`${nameOf(el)} is ${el.isConnected ? '' : 'not '}in the document, its callbacks say otherwise`);
        };
      },
    });
    try {
      const policy = rng.pick(POLICIES);
      const errors = domErrors.length;
      for (let idle = 0; (budget > 0 || host.tasks.length > 0) && idle < 600; idle++) {
        const k = rng.int(10);
        if (k < 3 && budget > 0) request();
        else if (host.tasks.length > 0) host.tasks[choose(host, rng, policy)].run();
        if (k > 4) await micro();
        if (ctx.first) throw ctx.first;
      }
      budget = 0;
      await micro();
      for (let t = 0; host.tasks.length > 0 || open > 0; t++) {
        if (t > 2000) bad(`${open} updates never settle`);
        if (host.tasks.length > 0) host.tasks[choose(host, rng, policy)].run();
        await micro();
      }
      if (ctx.first) throw ctx.first;
      if (failures.length > 0) bad(`an update fails: ${failures[0]?.message ?? failures[0]} ${failures[0]?.cause?.message ?? ''}`);
      if (domErrors.length > errors) bad(`an error is reported: ${domErrors.at(-1)?.message}`);
      // The final document.
      const outline = (el) => [...el.children].map((x) => `${x.spec.id}(${outline(x.querySelector(':scope > ul'))})`).join(' ');
      const expected = (s) => `${s.id}(${s.kids.map(expected).join(' ')})`;
      for (const r of roots) {
        const main = r.bare ? r.container : r.container.firstElementChild;
        const got = main === null ? '' : outline(main);
        const want = r.shown === null ? '' : r.shown.map(expected).join(' ');
        if (got !== want) bad(`root ${r.i} shows ${got} instead of ${want}`);
      }
      const shown = new Set(stage.querySelectorAll(NAMES.join()));
      for (const el of elements) if (el.connected !== shown.has(el)) bad(`${nameOf(el)} is ${shown.has(el) ? 'shown' : 'removed'}, its callbacks say otherwise`);
      if (ctx.i < 2) ctx.sample({ elements: elements.length, log: log.slice(0, 40).join(' ') });
      return { sig: log.join(' '), nontrivial: byCallbacks > 0 };
    } finally {
      hook = null;
      stage.remove();
    }
  },
};
