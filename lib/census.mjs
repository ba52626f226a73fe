// Census of the listeners attached to nodes of the jsdom window.
export const attached = new Map(); // Node -> Set of keys
let installed = false;
const ids = new WeakMap();
let next = 1;
const idOf = (l) => {
  if (!ids.has(l)) ids.set(l, next++);
  return ids.get(l);
};
export const stats = { added: 0, removed: 0 };
export function install() {
  if (installed) return;
  installed = true;
  const w = globalThis.window;
  const P = w.EventTarget.prototype;
  const add = P.addEventListener;
  const remove = P.removeEventListener;
  const key = (type, l, o) => `${type}/${idOf(l)}/${!!(typeof o === 'boolean' ? o : o?.capture)}`;
  P.addEventListener = function (type, l, o) {
    if (l && this instanceof w.Element) {
      let s = attached.get(this);
      if (!s) attached.set(this, (s = new Set()));
      s.add(key(type, l, o));
      stats.added++;
    }
    return add.apply(this, arguments);
  };
  P.removeEventListener = function (type, l, o) {
    if (l && this instanceof w.Element) {
      const s = attached.get(this);
      if (s?.delete(key(type, l, o))) stats.removed++;
      if (s?.size === 0) attached.delete(this);
    }
    return remove.apply(this, arguments);
  };
}
export function reset() {
  attached.clear();
}
