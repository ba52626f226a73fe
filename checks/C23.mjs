const is = Object.is;
const isObj = (v) => v !== null && typeof v === 'object';

// Structural comparison of plain trees, with prototypes, keys and their order
// (for objects as sets).
function differ(a, b, at = '', seen = new Map()) {
  if (!isObj(a) || !isObj(b)) return is(a, b) ? null : `${at || 'value'}: ${str(a)} instead of ${str(b)}`;
  if (Array.isArray(a) !== Array.isArray(b)) return `${at}: array vs object`;
  if (Object.getPrototypeOf(a) !== Object.getPrototypeOf(b)) return `${at}: another prototype`;
  const ka = Reflect.ownKeys(a);
  const kb = Reflect.ownKeys(b);
  const missing = kb.find((k) => !ka.includes(k));
  if (missing !== undefined) return `${at}.${String(missing)} is missing`;
  const extra = ka.find((k) => !kb.includes(k));
  if (extra !== undefined) return `${at}.${String(extra)} should not exist`;
  for (const k of ka) {
    const d = differ(a[k], b[k], `${at}.${String(k)}`, seen);
    if (d !== null) return d;
  }
  return null;
}
const str = (v) => {
  try {
    return isObj(v) ? JSON.stringify(v) : typeof v === 'symbol' ? v.toString() : is(v, -0) ? '-0' : String(v);
  } catch {
    return '(unprintable)';
  }
};
function copy(v) {
  if (!isObj(v)) return v;
  const c = Array.isArray(v) ? [] : Object.create(Object.getPrototypeOf(v));
  for (const k of Reflect.ownKeys(v)) if (k !== 'length' || !Array.isArray(v)) c[k] = copy(v[k]);
  if (Array.isArray(v)) c.length = v.length;
  return c;
}
const SYM = Symbol('sym');
const KEYS = ['a', 'b', 'c', 'd', '0', '1', SYM, 'constructor', 'length', 'toString'];

class Point {
  constructor(x, y) {
    this.x = x;
    this.y = y;
  }
}

const part = (v) => (isObj(v) ? 'object' : String(v));
// Edits through `full` are edits of both fields.
class Name {
  constructor(first, last) {
    this.first = first;
    this.last = last;
  }
  get full() {
    return `${part(this.first)} ${part(this.last)}`;
  }
  set full(value) {
    [this.first, this.last] = String(value).split(' ');
  }
  get initial() {
    return part(this.first)[0];
  }
}
const isAccessor = (owner, key) => owner instanceof Name && (key === 'full' || key === 'initial');

export default {
  id: 'C23',
  technique: 'runtime monitoring: every edit is applied to a derivable and to a plain mutable copy; an oracle compares values, identities, drafts, snapshots and the events of all subscribers after each step',
  note: 'Random exploration of trees (no object occurs twice); getters without a fixed set of dependencies and frozen objects are known findings; a property with a getter and a setter notifies its own subscribers only when it is set itself.',
  rule:
    'A case is a random tree of objects, class instances with and without accessors, and arrays up to four levels deep with up to 60 edits and reads through property signals obtained at any time and through drafts: assignments of primitives, new trees, earlier snapshots and other drafts, deletions, exchanges, missing and symbol keys, array methods and lengths, iteration, spreading, descriptors and membership tests, with reads of any node interspersed, also by subscribers while they are notified. ' +
    'After each step a random node, in the end the whole value, equals the mutable copy; earlier snapshots are unchanged; subtrees without edits keep their identity; each subscriber of an owner got one event with the path of the edit, and versions of owners increased; edits of detached signals have no effect on the tree. Non-trivial: an edit was made below a node with pending edits.',
  quick: { cases: 15000, secs: 240 },
  thorough: { cases: 400000, secs: 600 },
  require: { 'values compared': 50000, 'reads by subscribers': 500, sets: 5000, deletions: 1500, scopes: 5000, 'scopes that throw': 300, 'draft reads': 3000, 'drafts assigned': 300, 'properties moved': 300, 'array methods': 700, 'lengths set': 100, 'accessors set': 200, 'events of owners': 5000, 'events of computed properties': 20, 'events of the edited property': 300, 'unedited subtrees': 3000, 'edits of detached signals': 1000 },
  minDistinct: 2000,
  known: {
    async 'conditional-getter'(ctx) {
      const B = await ctx.lib('debug', false);
      const state = B.Derivable.from({
        flag: true,
        a: 1,
        b: 2,
        get x() {
          return this.flag ? this.a : this.b;
        },
      });
      const x = state.get('x');
      state.get('flag').value = false;
      if (x.value !== 2) return true;
      state.get('b').value = 3;
      return x.value !== 3;
    },
    async 'frozen-draft'(ctx) {
      const B = await ctx.lib('debug', false);
      const state = B.Derivable.from(Object.freeze({ a: { b: 1 } }));
      try {
        return state.scope((draft) => draft.a.b) !== 1;
      } catch {
        return true;
      }
    },
  },
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const { Derivable, unwrap } = B;
    let serial = 1;
    const trail = [];
    const did = (x) => { trail.push(x); ctx.note(x); };
    const bad = (m, d) => ctx.fail(m, trail.slice(-30).join('; ') + (d ? '\n' + d : ''));
    const primitive = () => rng.pick([serial++, serial++, 's' + serial++, true, false, null, undefined, NaN, 0, -0, '']);
    const tree = (depth) => {
      if (depth === 0 || rng.bool(0.3)) return primitive();
      const k = rng.int(10);
      if (k < 3) return Array.from({ length: rng.int(4) }, () => tree(depth - 1));
      if (k < 5 && rng.bool(0.3)) return new Name('f' + serial++, 'l' + serial++);
      if (k < 4) return new Point(tree(depth - 1), tree(depth - 1));
      const o = k < 5 ? Object.create(null) : {};
      for (let n = rng.int(4); n > 0; n--) o[rng.pick(KEYS.slice(0, 7))] = tree(depth - 1);
      return o;
    };
    const nonPrimitive = (depth) => {
      for (;;) {
        const t = tree(depth);
        if (isObj(t)) return t;
      }
    };
    let nontrivial = false;

    const initial = nonPrimitive(4);
    const snapshots = []; // { value, copy }
    const keep = (value) => {
      if (isObj(value) && snapshots.length < 40 && !snapshots.some((s) => s.value === value)) snapshots.push({ value, copy: copy(value) });
    };
    keep(initial);
    let model = copy(initial);

    // Handles: property signals obtained so far.
    const makeHandle = (d, key, parent) => ({ d, key, parent, children: new Map(), attached: true, lost: false, subs: [], shallowEvents: 0 });
    const NONE = {};
    const root = makeHandle(Derivable.from(initial), null, null);
    const handles = [root];
    const pathOf = (h) => (h.parent === null ? [] : [...pathOf(h.parent), h.key]);
    const find = (path) => path.reduce((h, k) => h?.children.get(k), root);
    const valueAt = (path) => path.reduce((v, k) => (isObj(v) ? v[k] : undefined), model);
    const exists = (h) => h.parent === null || (exists(h.parent) && isObj(valueAt(pathOf(h.parent))));
    // lost: the methods of arrays replace some of the items only.
    const detach = (h, lost = false) => {
      for (const c of h.children.values()) {
        c.attached = false;
        c.lost = lost;
        detach(c, lost);
      }
      h.children.clear();
    };
    let edited = []; // paths edited since the last read of the whole value
    // Applies an edit to the model. `value` is NONE for a deletion.
    const edit = (path, value) => {
      if (path.length === 0) model = copy(value);
      else {
        const owner = valueAt(path.slice(0, -1));
        const key = path.at(-1);
        if (value === NONE) delete owner[key];
        else owner[key] = copy(value);
      }
      edited.push(path);
      const h = find(path);
      if (h) detach(h);
    };
    // Events expected by each subscriber while an edit is made.
    const subscribe = (h) => {
      const sub = { h, events: [] };
      h.d.subscribe((e) => {
        sub.events.push({ type: e.type, path: e.path.slice() });
        // The subscriber may read the value at once.
        if (reading !== null && !ctx.first) {
          for (const x of rng.bool() ? [h, root] : [root]) {
            if (!x.attached) continue;
            const want = reading(pathOf(x));
            const d = differ(x.d.value, want);
            if (d !== null) bad(`a subscriber of ${str(pathOf(h).map(String))} reads a stale value of ${str(pathOf(x).map(String))}: ${d}`);
            ctx.count('reads by subscribers');
          }
        }
      });
      h.subs.push(sub);
      const shallow = h.d.asShallow();
      shallow.subscribe(() => { h.shallowEvents++; });
    };
    // Makes an edit of the derivable and the same edit of the model.
    let reading = null;
    let nested = null; // a draft below that of the scope
    const perform = (path, value, f) => {
      for (const h of handles) {
        h.version = h.d.version;
        for (const s of h.subs) s.events.length = 0;
        h.shallowEvents = 0;
      }
      const owners = [];
      for (let h = root, i = 0; h; h = h.children.get(path[i++])) owners.push(h);
      if (owners.slice(0, -1).some((h) => h.subs.length > 0)) nontrivial = true;
      const target = find(path);
      const old = valueAt(path);
      const had = path.length > 0 && Object.hasOwn(valueAt(path.slice(0, -1)), path.at(-1));
      const before = model;
      model = copy(model);
      edit(path, value);
      const after = model;
      // Owner subscribers are called after the edit, so that they read the new value.
      reading = rng.bool(0.5) && !(target && target.subs.length > 0) ? (p) => p.reduce((v, k) => (isObj(v) ? v[k] : undefined), after) : null;
      f();
      reading = null;
      checkEvents(path, value === NONE ? 'delete' : 'set', old);
      for (const h of owners) {
        if (h === target ? is(old, value === NONE ? undefined : value) || isObj(old) : false) continue;
        if (!(h.d.version > h.version)) bad(`the version of ${str(pathOf(h).map(String))} is still ${h.d.version} after an edit of ${str(path.map(String))}`);
      }
    };
    const samePath = (a, b) => a.length === b.length && a.every((x, i) => x === String(b[i]) || x === b[i]);
    const checkEvents = (path, type, old) => {
      for (const h of handles) {
        if (h.subs.length === 0 || !h.attached) continue;
        const at = pathOf(h);
        if (h.parent && isAccessor(valueAt(at.slice(0, -1)), h.key)) {
          const used = h.key === 'initial' && at.length === path.length && under(path, at.slice(0, -1)) && path.at(-1) === 'first';
          if (used && !isObj(old) && !is(old, valueAt(path)) && h.subs.some((s) => s.events.length === 0)) bad(`a subscriber of ${str(at.map(String))} gets no event for an edit of ${str(path.map(String))}`);
          if (used) ctx.count('events of computed properties');
          continue;
        }
        const below = at.length < path.length && at.every((k, i) => k === path[i]);
        const same = at.length === path.length && at.every((k, i) => k === path[i]);
        for (const s of h.subs) {
          if (below && h.shallowEvents > 0) bad(`a shallow subscriber of ${str(at.map(String))} gets an event for an edit of ${str(path.map(String))}`);
          if (same && type === 'set' && !isObj(old) && !is(old, valueAt(path)) && (h.shallowEvents === 0 || s.events.length === 0)) bad(`a subscriber of ${str(at.map(String))} gets no event when it is set`);
          if (same) ctx.count('events of the edited property');
          if (below) {
            if (s.events.length !== 1) bad(`a subscriber of ${str(at.map(String))} gets ${s.events.length} events for an edit of ${str(path.map(String))}`);
            const e = s.events[0];
            if (e.type !== type || !samePath(e.path, path.slice(at.length))) bad(`a subscriber of ${str(at.map(String))} gets the event ${e.type} ${str(e.path.map(String))} for an edit (${type}) of ${str(path.map(String))}`);
            ctx.count('events of owners');
          } else if (!same && s.events.length > 0) bad(`a subscriber of ${str(at.map(String))} gets an event for an edit of ${str(path.map(String))}`);
          else if (same && s.events.length > 1) bad(`a subscriber of the edited node gets ${s.events.length} events`);
        }
      }
    };
    let last = initial;
    const under = (path, at) => at.length <= path.length && at.every((k, i) => k === path[i]);
    // Finds an object that changed although it and everything below is unedited.
    const otherIdentity = (a, b, at) => {
      if (!isObj(a) || !isObj(b)) return null;
      if (!edited.some((p) => under(p, at))) {
        ctx.count('unedited subtrees');
        return a === b ? null : at;
      }
      if (edited.some((p) => under(at, p))) return null;
      for (const k of Reflect.ownKeys(a)) {
        const found = otherIdentity(a[k], b[k], [...at, k]);
        if (found !== null) return found;
      }
      return null;
    };
    const compare = (h, what = 'value') => {
      const path = pathOf(h);
      const want = valueAt(path);
      const got = h.d.value;
      const d = differ(got, want);
      if (d !== null) bad(`${what} of ${str(path.map(String))}: ${d}`, `got ${str(got)} want ${str(want)}`);
      if (!is(h.d.value, got)) bad(`reading ${str(path.map(String))} twice returns different objects`);
      if (!is(h.d.asShallow().value, got)) bad(`the shallow signal of ${str(path.map(String))} has another value`);
      if (h.d.asShallow().version !== h.d.version) bad(`the shallow signal of ${str(path.map(String))} has another version`);
      if (h === root) {
        const lost = otherIdentity(last, got, []);
        if (lost !== null) bad(`${str(lost.map(String))} has been replaced by another object without an edit`);
        last = got;
        edited = [];
      }
      keep(got);
      ctx.count('values compared');
      return got;
    };
    const newValue = (depth) => {
      const k = rng.int(10);
      if (k < 5) return primitive();
      if (k < 6 && snapshots.length > 0) return rng.pick(snapshots).value;
      return tree(depth);
    };
    const keyFor = (value) => {
      if (value instanceof Name && rng.bool(0.3)) return rng.pick(['full', 'initial']);
      const own = isObj(value) ? Reflect.ownKeys(value).filter((k) => !(Array.isArray(value) && k === 'length')) : [];
      if (own.length > 0 && rng.bool(0.75)) return rng.pick(own);
      if (Array.isArray(value)) return rng.pick([String(value.length), String(rng.int(value.length + 3))]);
      return rng.pick(KEYS.slice(0, 7));
    };
    const live = () => handles.filter((h) => h.attached && exists(h));
    const steps = rng.range(5, 60);
    for (let step = 0; step < steps && !ctx.first; step++) {
      const h = rng.pick(live());
      const path = pathOf(h);
      const value = valueAt(path);
      const name = str(path.map(String));
      const op = rng.int(12);
      if (op < 3) {
        // A property signal.
        const key = keyFor(value);
        const k = typeof key === 'string' && /^\d+$/.test(key) && rng.bool() ? Number(key) : key;
        const p = h.d.get(k);
        if (!isObj(value)) {
          if (p !== undefined) bad(`get() of a primitive (${name}) returns a signal`);
          continue;
        }
        did(`get ${name} ${String(key)}`);
        const known = h.children.get(key);
        if (known) {
          if (known.d !== p) bad(`get() of ${name}.${String(key)} returns another signal`);
          continue;
        }
        const child = makeHandle(p, key, h);
        h.children.set(key, child);
        handles.push(child);
        if (rng.bool(0.5)) subscribe(child);
        ctx.count('signals');
      } else if (op < 6) {
        if (path.length === 0 && rng.bool(0.8)) continue;
        const v = newValue(2);
        if (path.length > 0 && isAccessor(valueAt(path.slice(0, -1)), path.at(-1))) {
          setAccessor(path, (x) => { h.d.value = x; });
          continue;
        }
        did(`set ${name} = ${str(v)}`);
        keep(v);
        perform(path, v, () => { h.d.value = v; });
        if (!is(h.d.value, v)) bad(`${name} is not the object assigned to it`);
        ctx.count('sets');
      } else if (op < 7) {
        if (path.length === 0 || isAccessor(valueAt(path.slice(0, -1)), path.at(-1))) continue;
        did(`delete ${name}`);
        perform(path, NONE, () => h.d.delete());
        ctx.count('deletions');
      } else if (op < 8) {
        did(`read ${name}`);
        compare(h);
      } else if (op < 11) {
        if (!isObj(value)) continue;
        did(`scope ${name}`);
        const n = rng.range(1, 6);
        let draft;
        // The edits before an exception are kept.
        const error = rng.bool(0.1) ? new Error('thrown in a scope') : null;
        let result, thrown;
        try {
          result = h.d.scope((d) => {
            draft = d;
            for (let i = 0; i < n && !ctx.first; i++) draftOp(d, path);
            if (error !== null) throw error;
            return n;
          });
        } catch (e) {
          if (e !== error) throw e;
          thrown = e;
          ctx.count('scopes that throw');
        }
        if (ctx.first) throw ctx.first;
        if (error !== null ? thrown !== error : result !== n) bad('a scope does not give the result of its callback');
        let revoked = false;
        if (isObj(value) && nested !== null && rng.bool()) draft = nested;
        nested = null;
        try { draft.a; } catch { revoked = true; }
        if (!revoked) bad('a draft can be used after its scope');
        ctx.count('scopes');
      } else if (rng.bool(0.3)) {
        // A detached signal does not affect the tree any more.
        const gone = handles.filter((x) => !x.attached && !x.lost && x.key !== 'initial');
        if (gone.length === 0) continue;
        const x = rng.pick(gone);
        did(`edit detached ${str(pathOf(x).map(String))}`);
        for (const y of handles) for (const s of y.subs) s.events.length = 0;
        x.d.value = primitive();
        if (handles.some((y) => y.attached && y.subs.some((s) => s.events.length > 0))) bad('an edit of a detached signal notifies the tree');
        compare(root, 'the value after an edit of a detached signal');
        ctx.count('edits of detached signals');
      } else if (h.subs.length === 0) subscribe(h);
      if (rng.bool(0.3)) compare(rng.pick(live()), 'a value');
      checkSnapshots(2);
    }
    function draftOp(draft, path) {
      const value = valueAt(path);
      const name = str(path.map(String));
      const op = rng.int(14);
      if (!isObj(draft)) return bad(`draft of ${name} is ${str(draft)}`);
      if (Array.isArray(value) !== Array.isArray(draft)) return bad(`draft of ${name} is an array or not`);
      if (Array.isArray(value) && op < 7 && rng.bool(0.7)) return arrayOp(draft, path, value);
      const key = keyFor(value);
      const sub = [...path, key];
      if (isAccessor(value, key)) {
        if (op < 3) setAccessor(sub, (x) => { draft[key] = x; });
        else if (draft[key] !== value[key]) bad(`draft read of the accessor ${str(sub.map(String))}: ${str(draft[key])} instead of ${str(value[key])}`);
        return;
      }
      switch (op) {
        case 0: case 1: case 2: {
          const v = newValue(1);
          did(`draft ${str(sub.map(String))} = ${str(v)}`);
          keep(v);
          perform(sub, v, () => { draft[key] = v; });
          return;
        }
        case 3: {
          did(`draft delete ${str(sub.map(String))}`);
          perform(sub, NONE, () => { delete draft[key]; });
          return;
        }
        case 4: case 5: {
          did(`draft read ${str(sub.map(String))}`);
          const got = draft[key];
          if (isObj(value[key]) !== isObj(got)) bad(`draft read of ${str(sub.map(String))}: ${str(got)} instead of ${str(value[key])}`);
          if (isObj(got)) {
            nested = got;
            if (rng.bool(0.7)) draftOp(got, sub);
            else {
              const u = unwrap(got);
              const d = differ(u, value[key]);
              if (d !== null) bad(`unwrap() of the draft of ${str(sub.map(String))}: ${d}`);
              keep(u);
            }
          } else if (!is(got, value[key])) bad(`draft read of ${str(sub.map(String))}: ${str(got)} instead of ${str(value[key])}`);
          ctx.count('draft reads');
          return;
        }
        case 6: {
          did(`draft in ${str(sub.map(String))}`);
          if (key in draft !== key in value) bad(`'in' is ${key in draft} in the draft for ${str(sub.map(String))}`);
          if (Object.hasOwn(draft, key) !== Object.hasOwn(value, key)) bad(`hasOwn() is ${Object.hasOwn(draft, key)} in the draft for ${str(sub.map(String))}`);
          return;
        }
        case 7: {
          if (Array.isArray(value) && rng.bool()) return resize(draft, path, value);
          did(`draft keys ${name}`);
          const sort = (ks) => ks.map(String).sort().join();
          if (sort(Reflect.ownKeys(draft)) !== sort(Reflect.ownKeys(value))) bad(`keys of the draft of ${name}: ${sort(Reflect.ownKeys(draft))} instead of ${sort(Reflect.ownKeys(value))}`);
          if (sort(Object.keys(draft)) !== sort(Object.keys(value))) bad(`enumerable keys of the draft of ${name}: ${sort(Object.keys(draft))} instead of ${sort(Object.keys(value))}`);
          return;
        }
        case 8: {
          did(`draft spread ${name}`);
          const s = Array.isArray(value) ? [...draft] : { ...draft };
          const w = Array.isArray(value) ? [...value] : { ...value };
          for (const k of Reflect.ownKeys(w)) {
            if (k === 'length') continue;
            const d = differ(isObj(s[k]) ? unwrap(s[k]) : s[k], w[k]);
            if (d !== null) bad(`spreading the draft of ${name} at ${String(k)}: ${d}`);
          }
          return;
        }
        case 9: {
          if (rng.bool()) {
            // Exchanges two properties or renames one.
            const [a, b] = [keyFor(value), keyFor(value)];
            if (isAccessor(value, a) || isAccessor(value, b)) return;
            const swap = rng.bool();
            if (!swap && !Object.hasOwn(value, a)) return;
            did(`draft ${swap ? 'swap' : 'rename'} ${name} ${String(a)} ${String(b)}`);
            const apply = (o) => {
              if (swap) [o[a], o[b]] = [o[b], o[a]];
              else {
                const x = o[a];
                delete o[a];
                o[b] = x;
              }
            };
            apply(draft);
            apply(value);
            edited.push([...path, a], [...path, b]);
            const h = find(path);
            for (const k of [a, b]) {
              const c = h?.children.get(k);
              if (c) detach(c);
            }
            ctx.count('properties moved');
            return;
          }
          // Assigns another part of the draft.
          const from = keyFor(value);
          if (from === null || !isObj(value[from])) return;
          did(`draft ${str(sub.map(String))} = draft of ${String(from)}`);
          const wrap = rng.weighted([[6, (x) => x], [1, (x) => ({ w: x })], [1, (x) => ({ v: { w: x }, n: 1 })], [1, (x) => [0, x]], [1, (x) => ({ l: [[x], 'a'] })], [1, (x) => ({ [SYM]: x })], [0.5, (x) => new Point(0, { [SYM]: [x] })]]);
          perform(sub, copy(wrap(value[from])), () => { draft[key] = wrap(draft[from]); });
          ctx.count('drafts assigned');
          return;
        }
        case 10: {
          did(`draft unwrap ${name}`);
          const u = unwrap(draft);
          const d = differ(u, value);
          if (d !== null) bad(`unwrap() of the draft of ${name}: ${d}`, `got ${str(u)} want ${str(value)}`);
          keep(u);
          return;
        }
        default: {
          did(`draft descriptor ${str(sub.map(String))}`);
          const a = Object.getOwnPropertyDescriptor(draft, key);
          const b = Object.getOwnPropertyDescriptor(value, key);
          if ((a === undefined) !== (b === undefined)) bad(`the draft has ${a ? 'a' : 'no'} descriptor for ${str(sub.map(String))}`);
          if (a && (a.enumerable !== b.enumerable || a.writable !== b.writable || a.configurable !== b.configurable)) bad(`the draft has another descriptor for ${str(sub.map(String))}`);
          const d = a && differ(a.value, b.value);
          if (a && d !== null) bad(`the draft has a stale descriptor for ${str(sub.map(String))}: ${d}`);
        }
      }
    }
    function setAccessor(path, f) {
      const owner = valueAt(path.slice(0, -1));
      const readonly = path.at(-1) === 'initial';
      const v = `F${serial++} L${serial++}`;
      did(`set accessor ${str(path.map(String))} = ${v}`);
      let threw = false;
      try { f(v); } catch (e) { threw = e instanceof TypeError; if (!threw) throw e; }
      if (threw !== readonly) bad(readonly ? 'a property without a setter can be set' : 'a property with a setter cannot be set');
      ctx.count('accessors set');
      if (readonly) return;
      owner.full = v;
      const h = find(path.slice(0, -1));
      for (const k of ['first', 'last']) {
        edited.push([...path.slice(0, -1), k]);
        const c = h?.children.get(k);
        if (c) detach(c);
      }
    }
    function resize(draft, path, value) {
      const n = rng.int(value.length + 2);
      did(`draft ${str(path.map(String))} has length ${n}`);
      const h = find(path);
      if (h) for (const c of h.children.values()) detach(c, true);
      edited.push(path);
      draft.length = n;
      value.length = n;
      ctx.count('lengths set');
    }
    function arrayOp(draft, path, value) {
      const name = str(path.map(String));
      const op = rng.pick(['push', 'push2', 'pop', 'shift', 'unshift', 'splice', 'reverse', 'sort', 'for', 'filter', 'map', 'find', 'length']);
      did(`draft ${op} ${name}`);
      const h = find(path);
      // The edited model is another object than before.
      const apply = (f) => {
        // Indexes move, so that the signals of items follow the index.
        const r = f(draft);
        const w = f(value, true);
        if (h) {
          for (const c of h.children.values()) detach(c, true);
        }
        edited.push(path);
        const d = differ(isObj(r) ? (Array.isArray(r) ? r.map(unwrap) : unwrap(r)) : r, w);
        if (d !== null) bad(`${op} of the draft of ${name} returns: ${d}`);
        ctx.count('array methods');
      };
      switch (op) {
        case 'push': { const v = newValue(1); return apply((a, m) => a.push(m ? copy(v) : v)); }
        case 'push2': { const v = newValue(1); const w = newValue(1); return apply((a, m) => (m ? a.push(copy(v), copy(w)) : a.push(v, w))); }
        case 'pop': return apply((a) => (a.pop()));
        case 'shift': return apply((a) => (a.shift()));
        case 'unshift': { const v = newValue(1); return apply((a, m) => a.unshift(m ? copy(v) : v)); }
        case 'splice': { const v = newValue(1); const at = rng.int(value.length + 1); const n = rng.int(3); return apply((a, m) => (a.splice(at, n, m ? copy(v) : v))); }
        case 'reverse': return apply((a) => (a.reverse(), 0));
        case 'sort': return value.some(isObj) || value.some((x) => x === undefined) ? undefined : apply((a) => (a.sort((x, y) => (str(x) < str(y) ? -1 : str(x) > str(y) ? 1 : 0)), 0));
        case 'for': {
          let i = 0;
          for (const x of draft) {
            const d = differ(isObj(x) ? unwrap(x) : x, value[i]);
            if (d !== null) bad(`iterating the draft of ${name}, item ${i}: ${d}`);
            i++;
          }
          if (i !== value.length) bad(`iterating the draft of ${name} visits ${i} items instead of ${value.length}`);
          return;
        }
        case 'filter': return apply((a) => a.filter((x) => !isObj(x)));
        case 'map': return apply((a) => a.map((x) => typeof x));
        case 'find': return apply((a) => a.findIndex((x) => x === null));
        case 'length': return apply((a) => a.length);
      }
    }
    function checkSnapshots(n) {
      for (let i = 0; i < n; i++) {
        const s = rng.pick(snapshots);
        const d = differ(s.value, s.copy);
        if (d !== null) bad(`a snapshot read or given earlier has been modified: ${d}`);
      }
    }
    if (!ctx.first) {
      compare(root, 'the final value');
      for (const s of snapshots) {
        const d = differ(s.value, s.copy);
        if (d !== null) bad(`a snapshot read or given earlier has been modified: ${d}`);
      }
      for (const h of live()) compare(h, 'the final value');
    }
    if (ctx.i < 2) ctx.sample(trail.join('; '));
    return { sig: trail.join(';').replace(/\d+/g, '#'), nontrivial };
  },
};
