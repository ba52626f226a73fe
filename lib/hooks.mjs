// Random hooks and addons for the cells of a forest (see forest.mjs).
export function makeStore(initial = 0) {
  const subs = new Set();
  let value = initial;
  return {
    get: () => value,
    set(v) {
      value = v;
      for (const f of [...subs]) f();
    },
    subscribe: (f) => {
      subs.add(f);
      return () => subs.delete(f);
    },
    subs,
  };
}
export function addHooks(forest) {
  const { B, rng } = forest;
  const atoms = [new B.Atom(1), new B.Atom('a'), new B.Atom(null)];
  const computed = [new B.Computed((a) => (a ?? 0) + '!', [atoms[0]]), new B.Computed((a, b) => `${a}/${b}`, [atoms[1], atoms[2]])];
  const store = makeStore(0);
  forest.world = { atoms, computed, store };
  const kinds = ['id', 'memo', 'atom', 'computed', 'local', 'deferred', 'event', 'handle', 'store', 'transition', 'ref', 'callback', 'reducer', 'deferred+', 'localc'];
  forest.useMore = (context, cell) => {
    cell.plan ??= rng.shuffle(kinds).slice(0, rng.int(4)).map((k) => [k, rng.int(3)]);
    const out = [];
    for (const [k, n] of cell.plan) {
      switch (k) {
        case 'id': out.push(context.useId()); break;
        case 'memo': out.push(context.useMemo(() => (forest.ev('memo' + cell.n), cell.current.length), [n === 0 ? cell.current : cell.current.length % 2])); break;
        case 'atom': out.push(context.use(atoms[n])); break;
        case 'computed': out.push(context.use(computed[n % 2])); break;
        case 'local': {
          const a = context.use(B.LocalAtom(n));
          cell.local = a;
          out.push(context.use(a));
          break;
        }
        case 'localc': {
          const c = context.use(B.LocalComputed((x) => 'c' + x, [n === 0 && cell.current.length % 2 ? atoms[1] : atoms[0]]));
          out.push(context.use(c));
          break;
        }
        case 'deferred': out.push('d' + context.use(B.DeferredValue(cell.current.length))); break;
        case 'deferred+': out.push('D' + context.use(B.DeferredValue(cell.current.length, { initialValue: -1, priority: n ? 'background' : undefined }))); break;
        case 'event': {
          const len = cell.current.length;
          const f = context.use(B.EffectEvent((x) => `${x}:${len}`));
          cell.event = f;
          context.useEffect(() => { forest.ev(`ev${cell.n}=${f('e')}`); });
          break;
        }
        case 'handle': {
          const ref = (cell.handle ??= n === 0 ? (h) => { forest.ev(`h${cell.n}+${h}`); return () => forest.ev(`h${cell.n}-${h}`); } : new B.Ref(null));
          const len = cell.current.length;
          context.use(B.ImperativeHandle(ref, () => 'H' + len, n === 2 ? undefined : [len]));
          break;
        }
        case 'store': out.push('s' + context.use(B.SyncExternalStore(store.subscribe, store.get))); break;
        case 'transition': {
          const [pending, start] = context.use(B.Transition());
          cell.transition = start;
          out.push(pending ? 'pending' : 'idle');
          break;
        }
        case 'ref': {
          const r = context.useRef(0);
          r.current++;
          out.push('r' + r.current);
          break;
        }
        case 'callback': {
          const f = context.useCallback(() => cell.current.length, [n ? cell.current : null]);
          if (f !== cell.cb) forest.ev('cb' + cell.n);
          cell.cb = f;
          break;
        }
        case 'reducer': {
          const [x, send] = context.useReducer((s, a) => (s * 7 + a) % 1009, n);
          cell.reduce = send;
          out.push('x' + x);
          break;
        }
      }
    }
    if (out.length > 0) forest.ev(`V${cell.n}:${out.join(';')}`);
  };
  // One random write to something the hooks use.
  forest.poke = () => {
    const live = [...forest.cells.values()].filter((c) => c.mounted);
    const cell = live.length > 0 ? rng.pick(live) : null;
    const settle = (h) => h?.finished?.then(() => forest.ev('poked'), () => forest.ev('poke failed'));
    switch (rng.int(8)) {
      case 0: atoms[0].value = rng.int(4); break;
      case 1: atoms[1].value = rng.pick(['a', 'b']); break;
      case 2: atoms[2].value = rng.pick([null, 0, 'z']); break;
      case 3: store.set(rng.int(4)); break;
      case 4: if (cell?.local) cell.local.value = rng.int(5); break;
      case 5: if (cell?.event) forest.ev('call' + cell.event('p')); break;
      case 6:
        if (cell?.transition) {
          const send = cell.reduce;
          const async = rng.bool();
          const d = rng.int(5);
          const r = cell.transition((transition) => {
            settle(send?.(d, { transition }));
            return async ? Promise.resolve(d) : d;
          });
          forest.ev('t' + (typeof r));
        }
        break;
      case 7: if (cell?.reduce) settle(cell.reduce(rng.int(9), rng.pick([undefined, { flushSync: true }, { transition: 1 }, { priority: 'background' }]))); break;
    }
  };
}
