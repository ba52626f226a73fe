// Seeded PRNG (sfc32) with helpers. Everything random in a case comes from here.
function hash(str) {
  let h1 = 1779033703, h2 = 3144134277, h3 = 1013904242, h4 = 2773480762;
  for (let i = 0, k; i < str.length; i++) {
    k = str.charCodeAt(i);
    h1 = h2 ^ Math.imul(h1 ^ k, 597399067);
    h2 = h3 ^ Math.imul(h2 ^ k, 2869860233);
    h3 = h4 ^ Math.imul(h3 ^ k, 951274213);
    h4 = h1 ^ Math.imul(h4 ^ k, 2716044179);
  }
  h1 = Math.imul(h3 ^ (h1 >>> 18), 597399067);
  h2 = Math.imul(h4 ^ (h2 >>> 22), 2869860233);
  h3 = Math.imul(h1 ^ (h3 >>> 17), 951274213);
  h4 = Math.imul(h2 ^ (h4 >>> 19), 2716044179);
  return [h1 >>> 0, h2 >>> 0, h3 >>> 0, h4 >>> 0];
}
export function makeRng(...parts) {
  let [a, b, c, d] = hash(parts.join('\u0001'));
  const next = () => {
    a >>>= 0; b >>>= 0; c >>>= 0; d >>>= 0;
    let t = (a + b) | 0;
    a = b ^ (b >>> 9);
    b = (c + (c << 3)) | 0;
    c = (c << 21) | (c >>> 11);
    d = (d + 1) | 0;
    t = (t + d) | 0;
    c = (c + t) | 0;
    return (t >>> 0) / 4294967296;
  };
  for (let i = 0; i < 12; i++) next();
  const r = {
    next,
    int: (n) => Math.floor(next() * n), // 0..n-1
    range: (lo, hi) => lo + Math.floor(next() * (hi - lo + 1)),
    bool: (p = 0.5) => next() < p,
    pick: (xs) => xs[Math.floor(next() * xs.length)],
    weighted: (pairs) => {
      let total = 0;
      for (const [w] of pairs) total += w;
      let x = next() * total;
      for (const [w, v] of pairs) if ((x -= w) < 0) return v;
      return pairs[pairs.length - 1][1];
    },
    shuffle: (xs) => {
      const ys = xs.slice();
      for (let i = ys.length - 1; i > 0; i--) {
        const j = Math.floor(next() * (i + 1));
        [ys[i], ys[j]] = [ys[j], ys[i]];
      }
      return ys;
    },
    fork: (label) => makeRng(label, Math.floor(next() * 4294967296)),
  };
  return r;
}
export function hashString(s) {
  const [a, b] = hash(s);
  return a * 1048576 + (b & 1048575);
}
