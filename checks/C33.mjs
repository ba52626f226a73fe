const sloppyArguments = new Function('return arguments');
const SYM = Symbol('s');
const O = [{}, { a: 1 }, [], () => {}];
const VALUES = [undefined, null, NaN, 0, -0, 1, '1', '', 'a', true, false, 1n, SYM, Symbol.iterator, ...O];
const KEYS = ['a', 'b', 'c', '0', '1', 'length', '', 'constructor', '__proto__x', 'toString', 'hasOwnProperty', 'é'];

const refSeq = (x, y, eq) => {
  if (x === y) return true;
  if (x.length !== y.length) return false;
  for (let i = 0; i < x.length; i++) if (!eq(x[i], y[i])) return false;
  return true;
};
// Own enumerable string keys, straight from the property descriptors.
const enumKeys = (o) => Reflect.ownKeys(o).filter((k) => typeof k === 'string' && Reflect.getOwnPropertyDescriptor(o, k).enumerable).sort();
const refShallow = (x, y, eq) => {
  if (x === y) return true;
  const a = enumKeys(x);
  const b = enumKeys(y);
  return a.length === b.length && a.every((k, i) => k === b[i]) && a.every((k) => eq(x[k], y[k]));
};
const COMPARERS = {
  default: undefined,
  strict: (a, b) => a === b,
  loose: (a, b) => String(a) === String(b),
  never: () => false,
  always: () => true,
  ordered: (a, b) => !(typeof a === 'number' && typeof b === 'number') || a <= b,
};
const SYMMETRIC = new Set(['default', 'strict', 'loose', 'never', 'always']);

function makeSeq(rng, base) {
  const kind = rng.int(6);
  let xs;
  if (base && rng.bool(0.8)) {
    xs = Array.from({ length: base.length }, (_, i) => base[i]);
    const n = rng.int(3);
    for (let j = 0; j < n; j++) {
      const i = rng.int(xs.length + 1);
      const op = rng.int(5);
      if (op === 0) xs.splice(i, 1);
      else if (op === 1) xs.splice(i, 0, rng.pick(VALUES));
      else if (op === 2) xs[i] = rng.pick(VALUES);
      else if (op === 3 && i < xs.length) xs[i] = Object.is(xs[i], 0) ? -0 : Object.is(xs[i], -0) ? 0 : xs[i];
      else if (op === 4 && i < xs.length) [xs[i], xs[0]] = [xs[0], xs[i]];
    }
  } else xs = Array.from({ length: rng.int(6) }, () => rng.pick(VALUES));
  switch (kind) {
    case 0: // sparse
      for (let i = 0; i < xs.length; i++) if (xs[i] === undefined) delete xs[i];
      return xs;
    case 1: {
      const o = { length: xs.length };
      for (let i = 0; i < xs.length; i++) o[i] = xs[i];
      return o;
    }
    case 2:
      return sloppyArguments(...xs);
    case 3:
      return Object.freeze(xs);
    default:
      return xs;
  }
}
function makeObj(rng, base) {
  const proto = rng.pick([Object.prototype, Object.prototype, null, { a: 1, b: undefined }, Array.prototype]);
  let o = Object.create(proto);
  const put = (k, v, how) => {
    if (how === 0) Object.defineProperty(o, k, { value: v, enumerable: false, configurable: true });
    else if (how === 1) Object.defineProperty(o, k, { get: () => v, enumerable: true, configurable: true });
    else Object.defineProperty(o, k, { value: v, enumerable: true, configurable: true, writable: true });
  };
  if (base && rng.bool(0.85)) {
    const ks = Reflect.ownKeys(base);
    for (const k of rng.bool() ? ks : rng.shuffle(ks)) {
      if (rng.bool(0.08)) continue; // lacks a key
      let v = base[k];
      if (rng.bool(0.08)) v = rng.pick(VALUES);
      else if (rng.bool(0.1)) v = Object.is(v, 0) ? -0 : v === null ? undefined : v;
      put(k, v, rng.bool(0.06) ? 0 : rng.bool(0.1) ? 1 : 2);
    }
    if (rng.bool(0.15)) put(rng.pick(KEYS), rng.pick(VALUES), rng.bool(0.2) ? 0 : 2);
  } else {
    const n = rng.int(5);
    for (let i = 0; i < n; i++) put(rng.pick(KEYS), rng.pick(VALUES), rng.weighted([[1, 0], [1, 1], [8, 2]]));
  }
  if (rng.bool(0.15)) put(SYM, rng.int(3), 2);
  if (rng.bool(0.2)) o = Object.freeze(o);
  return o;
}

export default {
  id: 'C33',
  technique: 'runtime monitoring: every call of the equality helpers is checked against a definition written from property descriptors',
  note: 'Random exploration of values; no proxies, and no arguments that change while they are compared.',
  rule:
    'A case calls both helpers on 200 pairs of sequences (arrays, sparse arrays, array-likes, arguments objects) and of objects (inherited, symbol, non-enumerable and accessor properties), most of them small edits of each other, with six comparers, ' +
    'and checks result, symmetry, reflexivity, the order of the arguments handed to the comparer and that the arguments stay as they were. Non-trivial: both results occur.',
  quick: { cases: 600, secs: 240 },
  thorough: { cases: 100000, secs: 300 },
  require: { 'equal sequences': 5000, 'different sequences': 5000, 'equal objects': 5000, 'different objects': 5000, 'differ by a missing, inherited or hidden key only': 300, 'comparer calls': 50000 },
  minDistinct: 300,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    const sig = [];
    const seen = new Set();
    for (let j = 0; j < 200; j++) {
      const seq = j % 2 === 0;
      const a = seq ? makeSeq(rng) : makeObj(rng);
      const b = rng.bool(0.03) ? a : seq ? makeSeq(rng, a) : makeObj(rng, a);
      const cname = rng.pick(Object.keys(COMPARERS));
      const cmp = COMPARERS[cname];
      const fn = seq ? B.sequentialEqual : B.shallowEqual;
      const ref = seq ? refSeq : refShallow;
      const show = (o) => `${Object.prototype.toString.call(o)}{${Reflect.ownKeys(o).map((k) => `${String(k)}${Reflect.getOwnPropertyDescriptor(o, k).enumerable ? '' : '(hidden)'}: ${Object.is(o[k], -0) ? '-0' : String(typeof o[k] === 'object' ? 'object' + O.indexOf(o[k]) : o[k])}`).join(', ')}}`;
      const text = () => `${seq ? 'sequentialEqual' : 'shallowEqual'}(${show(a)}, ${show(b)}, ${cname})`;
      const watched = cmp && ((x, y) => {
        ctx.count('comparer calls');
        const own = (o, v) => Array.from({ length: seq ? o.length : 0 }, (_, i) => o[i]).some((z) => Object.is(z, v)) || (!seq && Reflect.ownKeys(o).some((k) => Object.is(o[k], v)));
        if (!own(a, x) || !own(b, y)) ctx.fail(`${text()} compares ${String(x)} with ${String(y)}, which are not elements of its arguments in order`);
        return cmp(x, y);
      });
      const want = ref(a, b, cmp ?? Object.is);
      const before = show(a) + show(b);
      const got = cmp ? fn(a, b, watched) : fn(a, b);
      if (got !== want) ctx.fail(`${text()} returns ${got}, expected ${want}`);
      if (show(a) + show(b) !== before) ctx.fail(`${text()} changed its arguments`);
      const back = cmp ? fn(b, a, cmp) : fn(b, a);
      if (SYMMETRIC.has(cname) && back !== got) ctx.fail(`${text()} returns ${got}, but with swapped arguments ${back}`);
      for (const o of [a, b]) if (fn(o, o, cmp) !== true) ctx.fail(`${seq ? 'sequentialEqual' : 'shallowEqual'} is not reflexive on ${show(o)} with ${cname}`);
      ctx.count(`${want ? 'equal' : 'different'} ${seq ? 'sequences' : 'objects'}`);
      if (!seq && !want && cname === 'always' && enumKeys(a).length === enumKeys(b).length) ctx.count('differ by a missing, inherited or hidden key only');
      seen.add(`${seq}${want}`);
      if (j < 4) sig.push(text());
    }
    if (ctx.i < 2) ctx.sample(sig.slice(0, 2));
    return { sig: sig.join('\n'), nontrivial: seen.size > 1 };
  },
};
