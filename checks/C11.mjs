import { makeHost, drain, choose, micro } from '../lib/sched.mjs';

class Alpha {}
class AlphaSub extends Alpha {}
class AlphaSubSub extends AlphaSub {}
class Beta {}
class Gamma { static getDefault() { return (Gamma.made = { gamma: ++Gamma.n }); } }
Gamma.n = 0;
class GammaSub extends Gamma {}
class Delta { static getDefault() { return undefined; } }
class Epsilon { static getDefault() { return null; } }
class Rejecting { static getDefault() { throw new RangeError('no'); } }
class Odd { static [Symbol.hasInstance](x) { return x.odd === true; } }
const CLASSES = [Alpha, AlphaSub, AlphaSubSub, Beta, Gamma, GammaSub, Delta, Epsilon, Rejecting, Odd];
const THROW = Symbol('throw');

export default {
  id: 'C11',
  technique: 'runtime monitoring: every inject() result compared online with a shadow of the provider chain of that render',
  note: 'Random exploration in jsdom. A component skipped while its provider rendered again keeps the providers of the render that rendered it, which the statement says.',
  rule:
    'A case is a random tree of providing and injecting components (templates, lists, slots, portals, memoised ones, 1-2 roots) under 4-12 rounds of root renders and own updates, some of which fail in four of ten cases. Each component injects random classes (with subclasses, defaults, throwing defaults and custom hasInstance) before and ' +
    'after providing; each result or error is compared with the shadow chain. Non-trivial: some result came from an ancestor.',
  quick: { cases: 6000, secs: 240 },
  thorough: { cases: 200000, secs: 600 },
  require: { 'resolved to itself': 2000, 'resolved to an ancestor': 10000, 'resolved to a default': 5000, 'not resolvable': 3000, 'injected in own updates': 3000, 'injected through portals': 2000, 'late provides rejected': 100, 'failing renders': 1500, 'own updates after failures': 8000 },
  minDistinct: 500,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const host = makeHost(B);
    const runtime = new B.Runtime(host);
    let first = false;
    runtime.use({
      handle(update, render) {
        first = update.transaction.scope.level > 0;
        return render(update);
      },
    });
    const stage = document.createElement('div');
    document.body.append(stage);
    const live = new Set();
    let nextId = 1;
    let fromAncestor = 0;
    const expect = (cls, rec) => {
      for (let r = rec, depth = 0; r !== null; r = r.parent, depth++) {
        for (let i = r.provided.length - 1; i >= 0; i--) if (r.provided[i] instanceof cls) return { value: r.provided[i], depth };
      }
      return 'getDefault' in cls ? { def: true } : { value: THROW };
    };
    const check = (context, cls, rec, spec, own) => {
      const e = expect(cls, rec);
      const where = `${spec.name} #${spec.id} injecting ${cls.name}`;
      let got;
      let error;
      const made = Gamma.n;
      try {
        got = context.inject(cls);
      } catch (x) {
        got = THROW;
        error = x;
      }
      ctx.count(own ? 'injected in own updates' : 'injected in parent renders');
      if (spec.inPortal) ctx.count('injected through portals');
      if (e.def) {
        ctx.count('resolved to a default');
        if (cls === Rejecting) {
          if (!(error instanceof RangeError)) ctx.fail(`${where}: the error of getDefault is lost`, String(error));
        } else if (cls.prototype instanceof Gamma || cls === Gamma) {
          if (got !== Gamma.made || Gamma.n !== made + 1) ctx.fail(`${where} does not return its default`, String(got));
        } else {
          const want = cls === Delta ? undefined : null;
          if (got !== want) ctx.fail(`${where} does not return its default ${want}`, String(got));
        }
        return;
      }
      if (cls.prototype instanceof Gamma || cls === Gamma) {
        if (Gamma.n !== made) ctx.fail(`${where} asks for the default although an ancestor provides one`);
      }
      if (got !== e.value) {
        ctx.fail(`${where} returns ${got === THROW ? `an error (${error})` : JSON.stringify(got)}, expected ${e.value === THROW ? 'an error' : JSON.stringify(e.value)}${e.depth ? ` from ${e.depth} levels up` : ''}`);
      }
      if (got === THROW) {
        ctx.count('not resolvable');
        if (!(error instanceof ReferenceError) && !(error instanceof Error)) ctx.fail(`${where} throws ${error}`);
      } else {
        ctx.count(e.depth === 0 ? 'resolved to itself' : 'resolved to an ancestor');
        if (e.depth > 0) fromAncestor++;
      }
    };
    let armed = false;
    let failures = 0;
    class Bomb extends Error {}
    const blow = () => {
      failures++;
      ctx.count('failing renders');
      throw new Bomb();
    };
    const isBomb = (e) => {
      while (e instanceof Error && !(e instanceof Bomb)) e = e.cause;
      return e instanceof Bomb;
    };
    const make = (cls, by) => Object.assign(cls === Odd ? { odd: true } : new cls(), { by, n: nextId++ });
    const body = (context, props, memo) => {
      const { spec, box } = props;
      const rec = context.useMemo(() => ({ chain: null, renders: 0 }), []);
      // A component that renders by itself is rendered under the last committed
      // render of its parent.
      const own = first;
      first = false;
      const chain = own ? rec.chain : box.rec;
      context.useEffect(() => {
        rec.chain = chain;
      });
      rec.renders++;
      if (own && failures > 0) ctx.count('own updates after failures');
      const bomb = armed && rng.bool(0.03) ? rng.pick(['start', 'end']) : null;
      if (bomb === 'start') blow();
      context.useEffect(() => {
        const entry = { force: (o) => context.forceUpdate(o), provide: (x) => context.provide(x) };
        live.add(entry);
        return () => live.delete(entry);
      }, []);
      const mine = { provided: [], parent: chain };
      for (const act of spec.acts) {
        if (act.t === 'provide') {
          if (act.odds && rec.renders % 2) continue;
          const x = act.twice && mine.provided.length ? mine.provided[0] : make(act.cls, spec.id);
          context.provide(x);
          mine.provided.push(x);
        } else if (act.t === 'use') {
          context.use((c) => check(c, act.cls, mine, spec, own));
        } else {
          check(context, act.cls, mine, spec, own);
        }
      }
      if (bomb === 'end') blow();
      // Slots: the children were created by the creator of this component.
      if (spec.slot) {
        for (const b of props.boxes) b.rec = mine;
        return spec.wrap ? B.html`<s-lot><${props.children}></s-lot>` : props.children;
      }
      const kids = realKids(spec, { rec: mine });
      return spec.shape === 0 ? B.html`<n-ode><${kids}></n-ode>` : spec.shape === 1 ? kids : B.html`<${kids[0]}><${kids.slice(1)}>`;
    };
    const names = ['Plain', 'Memo'];
    const Plain = B.createComponent(function Plain(props) {
      return body(this, props);
    });
    const Memo = B.createComponent(
      function Memo(props) {
        return body(this, props);
      },
      { arePropsEqual: (a, b) => a.spec === b.spec },
    );
    const real = (spec, box) => {
      let v;
      if (spec.slot) {
        const boxes = [];
        const children = spec.kids.map((k) => {
          const b = { rec: null };
          boxes.push(b);
          return real(k, b);
        });
        v = Plain({ spec, box, boxes, children });
      } else v = (spec.memo ? Memo : Plain)({ spec, box });
      v = v.withKey(spec.id);
      if (spec.portal) v = B.createPortal(v, spec.container).withKey(spec.id);
      return v;
    };
    const realKids = (spec, box) => spec.kids.map((k) => real(k, box));
    const genActs = () =>
      Array.from({ length: rng.range(1, 5) }, () => ({ t: rng.weighted([[3, 'inject'], [2, 'provide'], [0.5, 'use']]), cls: rng.pick(CLASSES), odds: rng.bool(0.2), twice: rng.bool(0.1) }));
    const gen = (depth, inPortal) => {
      const portal = rng.bool(0.15);
      const spec = { id: nextId++, name: rng.pick(names), acts: genActs(), memo: rng.bool(0.3), slot: rng.bool(0.25), wrap: rng.bool(), shape: rng.int(3), portal, inPortal: inPortal || portal };
      if (portal) {
        spec.container = document.createElement('aside');
        stage.append(spec.container);
      }
      spec.kids = depth > 0 ? Array.from({ length: rng.range(0, 3) }, () => gen(depth - 1, spec.inPortal)) : [];
      return spec;
    };
    const edit = (s) => {
      if (rng.bool(0.2)) return s;
      let kids = s.kids.map(edit);
      if (rng.bool(0.2)) kids = rng.shuffle(kids);
      if (rng.bool(0.1)) kids.push(gen(1, s.inPortal));
      if (rng.bool(0.1)) kids.splice(rng.int(kids.length), 1);
      return { ...s, kids, acts: rng.bool(0.3) ? genActs() : s.acts };
    };
    const roots = Array.from({ length: rng.range(1, 2) }, () => {
      const el = document.createElement('main');
      stage.append(el);
      return { root: new B.DOMRoot(el, runtime), specs: [gen(rng.range(1, 3), false), gen(1, false)] };
    });
    const options = () => rng.pick([undefined, undefined, { flushSync: true }, { priority: 'user-blocking' }, { transition: rng.int(5) }, { delay: 10 }]);
    const settle = async (handles) => {
      await drain(host, rng, rng.pick(['fifo', 'random']));
      for (const h of handles) await h.finished.catch((e) => isBomb(e) || ctx.fail(`update failed: ${e.message}`, String(e.cause?.stack ?? e.stack)));
    };
    try {
      const n = rng.range(4, 12);
      const bombs = rng.bool(0.4);
      for (let i = 0; i < n; i++) {
        const handles = [];
        const request = (h) => {
          h.finished.catch(() => {});
          handles.push(h);
        };
        armed = bombs && i > 0;
        for (const r of roots) {
          if (i > 0 && rng.bool(0.4)) continue;
          if (i > 0) r.specs = rng.shuffle(r.specs.map(edit));
          request(r.root.render(r.specs.map((s) => real(s, { rec: null })), options()));
        }
        for (const e of live) {
          if (rng.bool(0.3)) request(e.force(options()));
          if (rng.bool(0.3) && host.tasks.length) {
            host.tasks[choose(host, rng, 'random')].run();
            await micro();
          }
        }
        await settle(handles);
        if (rng.bool(0.1) && live.size > 0) {
          // Providing outside of a render must not become visible.
          const [e] = live;
          try {
            e.provide(make(rng.pick(CLASSES), 'late'));
          } catch {
            ctx.count('late provides rejected');
          }
        }
        if (ctx.first) throw ctx.first;
      }
      const dump = (s) => `${s.id}(${s.acts.map((a) => a.t[0] + a.cls.name)} ${s.kids.map(dump)})`;
      const sig = roots.map((r) => r.specs.map(dump).join()).join('|');
      if (ctx.i < 2) ctx.sample(sig.slice(0, 300));
      return { sig, nontrivial: fromAncestor > 0 };
    } finally {
      stage.remove();
    }
  },
};
