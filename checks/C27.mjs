const WORDS = ['', 'a', 'b', 'items', 'new', '1', '01', '-1', '-0', '+1', '1.0', '1e3', '0x1', ' 1', 'NaN', 'Infinity', '007', '42', '9007199254740991', '9007199254740993', '1000000000000000000000', '%20', '%41', 'a%2Fb', 'é', '%C3%A9', 'undefined', 'null', '__proto__', '?q=1', 'a?x', '#h', '.', '..', 'constructor', '٣', '1_000', '--1', '-', '0', '-01', '1 '];
const isCanonical = (c) => /^(0|-?[1-9][0-9]*)$/.test(c);

// Matchers: {name, make(B) -> the library's, ref(component) -> capture or undefined}
function makeMatcher(rng, depth = 0) {
  const kind = rng.weighted([[3, 'integer'], [3, 'keyword'], [3, 'encoded'], [2, 'decoded'], [2, 'regexp'], [depth < 2 ? 2 : 0, 'choice'], [depth < 2 ? 2 : 0, 'select'], [1, 'custom'], [0.5, 'falsy']]);
  switch (kind) {
    case 'integer':
      return { name: 'integer', make: (B) => B.integer, ref: (c) => (isCanonical(c) && String(Number(c)) === c ? Number(c) : undefined) };
    case 'keyword': {
      const w = rng.pick(WORDS);
      return { name: `keyword(${JSON.stringify(w)})`, make: (B) => B.keyword(w), ref: (c) => (c === w ? w : undefined) };
    }
    case 'encoded':
      return { name: 'encoded', make: (B) => B.encoded, ref: (c) => c };
    case 'decoded':
      return { name: 'decoded', make: (B) => B.decoded, ref: (c) => decodeURIComponent(c) };
    case 'regexp': {
      const re = rng.pick([/^\d+$/, /a/, /^(.)(.*)$/, /^(?<n>[a-z]+)/, /x*/, /b/gi]);
      return { name: `regexp(${re})`, make: (B) => B.regexp(re), ref: (c) => c.match(re) ?? undefined };
    }
    case 'choice': {
      const ms = Array.from({ length: rng.int(4) }, () => makeMatcher(rng, depth + 1));
      return {
        name: `choice(${ms.map((m) => m.name)})`, make: (B) => B.choice(...ms.map((m) => m.make(B))),
        ref: (c) => { for (const m of ms) { const r = m.ref(c); if (r !== undefined) return r; } return undefined; },
      };
    }
    case 'select': {
      const m = makeMatcher(rng, depth + 1);
      const f = rng.pick([(v) => ['sel', v], () => undefined, () => null, () => 0, (v) => typeof v]);
      return { name: `select(${m.name}, ${f})`, make: (B) => B.select(m.make(B), f), ref: (c) => { const r = m.ref(c); return r === undefined ? undefined : f(r); } };
    }
    case 'custom': {
      const w = rng.pick(WORDS);
      return { name: `is not ${JSON.stringify(w)}`, make: () => (c) => (c !== w ? { got: c } : undefined), ref: (c) => (c !== w ? { got: c } : undefined) };
    }
    case 'falsy': {
      const v = rng.pick([null, false, 0, '', NaN]);
      return { name: `always ${v}`, make: () => () => v, ref: () => v };
    }
  }
}
function same(a, b) {
  if (Object.is(a, b)) return true;
  if (Array.isArray(a) && Array.isArray(b)) {
    return a.length === b.length && a.index === b.index && a.every((x, i) => same(x, b[i])) && JSON.stringify(a.groups) === JSON.stringify(b.groups);
  }
  return typeof a === 'object' && a !== null && typeof b === 'object' && b !== null && !Array.isArray(a) && !Array.isArray(b) && JSON.stringify(a) === JSON.stringify(b);
}
let routeId = 0;
function makeRoutes(rng, depth) {
  const n = rng.weighted([[0.3, 0], [2, 1], [4, 2], [4, 3], [2, 5]]);
  return Array.from({ length: n }, () => {
    const patterns = Array.from({ length: rng.weighted([[0.8, 0], [6, 1], [3, 2], [1, 3]]) }, () => (rng.bool(0.55) ? rng.pick(WORDS) : makeMatcher(rng)));
    return {
      id: routeId++,
      patterns,
      resolver: rng.weighted([[8, 'value'], [1, null], [0.7, 'undefined'], [0.3, 'throws']]),
      children: depth > 0 && rng.bool(0.5) ? makeRoutes(rng, depth - 1) : [],
      omit: rng.bool(0.5),
    };
  });
}
const showRoutes = (rs) => '[' + rs.map((r) => `#${r.id}(${r.patterns.map((p) => (typeof p === 'string' ? JSON.stringify(p) : p.name)).join('/')}${r.resolver === null ? ' null' : ''}${r.children.length ? ' ' + showRoutes(r.children) : ''})`).join(' ') + ']';

// -> {route, captures} or null; recursive reference
function reference(routes, comps, inherited) {
  for (const r of routes) {
    if (r.patterns.length > comps.length) continue;
    const captures = [];
    let ok = true;
    for (let i = 0; i < r.patterns.length; i++) {
      const p = r.patterns[i];
      if (typeof p === 'string') {
        if (p !== comps[i]) { ok = false; break; }
      } else {
        const c = p.ref(comps[i]);
        if (c === undefined) { ok = false; break; }
        captures.push(c);
      }
    }
    if (!ok) continue;
    const rest = comps.slice(r.patterns.length);
    if (rest.length === 0) return { route: r, captures: [...inherited, ...captures] };
    if (r.children.length > 0) return reference(r.children, rest, [...inherited, ...captures]);
  }
  return null;
}
// A URL that walks down some routes.
function walk(rng, routes) {
  const comps = [];
  let rs = routes;
  while (rs.length > 0) {
    const r = rng.pick(rs);
    for (const p of r.patterns) {
      if (typeof p === 'string') comps.push(p);
      else {
        let c;
        for (let i = 0; i < 20; i++) {
          c = rng.pick(WORDS);
          try {
            if (p.ref(c) !== undefined) break;
          } catch {}
        }
        comps.push(c);
      }
    }
    if (rng.bool(0.3)) break;
    rs = r.children;
  }
  if (rng.bool(0.15)) comps.push(rng.pick(WORDS));
  if (rng.bool(0.1)) comps[rng.int(comps.length + 1)] = rng.pick(WORDS);
  return (rng.bool(0.8) ? '/' : '') + comps.join('/');
}

export default {
  id: 'C27',
  technique: 'runtime monitoring: matches, captures and resolver calls of random routers compared with a recursive reference matcher',
  note: 'Random exploration; URLs are path strings (queries are part of the last component); malformed percent escapes throw as in decodeURIComponent; regular expressions are not sticky.',
  rule:
    'A case builds a random route table (nested up to 3 levels, empty and multi-component patterns, all matchers nested in choice and select, falsy captures, null resolvers) and matches 40 URLs, most of them walks through the table, some mutated, twice each and also from inside resolvers. ' +
    'The resolver called, its captures (in order, nothing else), the URL it gets, the number of calls and the result are compared with the reference; matchers are also called directly. Non-trivial: some URL matched a nested route.',
  quick: { cases: 1500, secs: 240 },
  thorough: { cases: 300000, secs: 400 },
  require: { matches: 10000, 'nested matches': 2000, 'no match': 5000, 'captures compared': 10000, 'passed over after a match': 1000, 'matcher calls': 20000, 'integers accepted': 500 },
  minDistinct: 1000,
  async run(ctx) {
    const { rng } = ctx;
    const B = await ctx.pickLib();
    routeId = 0;
    const table = makeRoutes(rng, 3);
    let calls = [];
    let inner = null;
    const build = (rs) => rs.map((r) => {
      const patterns = r.patterns.map((p) => (typeof p === 'string' ? p : p.make(B)));
      const resolver = r.resolver === null ? null : (captures, url) => {
        calls.push({ r, captures: captures.slice(), url, isArray: Array.isArray(captures) });
        inner?.();
        captures.push('scribble'); // must not leak anywhere
        if (r.resolver === 'throws') throw new RangeError('route ' + r.id);
        return r.resolver === 'undefined' ? undefined : 'result ' + r.id;
      };
      return r.omit && r.children.length === 0 ? B.route(patterns, resolver) : B.route(patterns, resolver, build(r.children));
    });
    const router = new B.Router(build(table));
    ctx.note(showRoutes(table));
    let nested = 0;
    const attempt = (f) => {
      try {
        return { v: f() };
      } catch (e) {
        if (ctx.first) throw ctx.first;
        return { e };
      }
    };
    const parents = new Map();
    const index = (rs, p) => { for (const r of rs) { parents.set(r, p); index(r.children, r); } };
    index(table, null);
    const test = (url) => {
      const saved = calls;
      calls = [];
      const ref = attempt(() => reference(table, (url[0] === '/' ? url.slice(1) : url).split('/'), []));
      const got = attempt(() => router.match(url));
      const mine = calls;
      calls = saved;
      const where = `match(${JSON.stringify(url)})`;
      if (ref.e) {
        if (!got.e || got.e.name !== ref.e.name) ctx.fail(`${where} ${got.e ? 'throws ' + got.e : 'returns ' + got.v}, expected ${ref.e}`);
        if (mine.length > 0) ctx.fail(`${where} calls a resolver before a matcher throws`);
        return;
      }
      const m = ref.v;
      const own = mine;
      if (m === null || m.route.resolver === null) {
        ctx.count('no match');
        if (own.length > 0) ctx.fail(`${where} calls the resolver of route #${own[0].r.id}, but nothing matches`);
        if (got.e || got.v !== undefined) ctx.fail(`${where} gives ${got.e ?? got.v}, expected undefined`);
        return;
      }
      ctx.count('matches');
      if (parents.get(m.route)) {
        nested++;
        ctx.count('nested matches');
      }
      if (table.indexOf(m.route) > 0 || (parents.get(m.route)?.children.indexOf(m.route) ?? 0) > 0) ctx.count('passed over after a match');
      if (own.length !== 1) ctx.fail(`${where} calls ${own.length} resolvers (${own.map((c) => '#' + c.r.id)}), expected #${m.route.id} once`);
      const c = own[0];
      if (c.r !== m.route) ctx.fail(`${where} picks route #${c.r.id}, expected #${m.route.id}`);
      if (!c.isArray || !same(c.captures, m.captures)) ctx.fail(`${where} hands captures ${JSON.stringify(c.captures)} to route #${c.r.id}, expected ${JSON.stringify(m.captures)}`);
      ctx.count('captures compared', m.captures.length);
      if (c.url !== url) ctx.fail(`${where} hands the URL ${JSON.stringify(c.url)} to the resolver`);
      if (m.route.resolver === 'throws' ? !(got.e instanceof RangeError) : got.e || got.v !== (m.route.resolver === 'undefined' ? undefined : 'result ' + m.route.id)) {
        ctx.fail(`${where} gives ${got.e ?? got.v}`);
      }
    };
    for (let i = 0; i < 40; i++) {
      const url = rng.bool(0.85) ? walk(rng, table) : (rng.bool() ? '/' : '') + Array.from({ length: rng.int(4) }, () => rng.pick(WORDS)).join('/');
      if (i < 5) ctx.note(url);
      test(url);
      test(url);
      if (rng.bool(0.1)) {
        const other = walk(rng, table);
        let depth = 0;
        inner = () => {
          if (depth++ === 0) {
            const keep = calls;
            test(other);
            calls = keep;
          }
        };
        test(url);
        inner = null;
      }
      if (ctx.first) throw ctx.first;
    }
    // The matchers by themselves.
    for (let i = 0; i < 20; i++) {
      const m = makeMatcher(rng);
      const lib = m.make(B);
      const c = rng.bool(0.7) ? rng.pick(WORDS) : String(rng.int(2000) - 1000);
      const want = attempt(() => m.ref(c));
      const got = attempt(() => lib(c, '/' + c));
      ctx.count('matcher calls');
      if (want.e ? !got.e || got.e.name !== want.e.name : got.e || !same(got.v, want.v)) {
        ctx.fail(`${m.name} of ${JSON.stringify(c)} gives ${got.e ?? JSON.stringify(got.v) ?? got.v}, expected ${want.e ?? JSON.stringify(want.v) ?? want.v}`);
      }
      if (m.name === 'integer' && want.v !== undefined) ctx.count('integers accepted');
    }
    if (ctx.i < 2) ctx.sample(ctx.trace.slice(0, 5));
    return { sig: ctx.trace.join('\n'), nontrivial: nested > 0 };
  },
};
