// jsdom environment: the browser APIs the library needs, plus a moveBefore
// polyfill with the pre-move validity checks of the DOM standard.
import { createRequire } from 'node:module';
const require = createRequire('/opt/dom/node_modules/');
const { JSDOM, VirtualConsole } = require('jsdom');

export const domErrors = []; // errors reported by listeners/timers inside jsdom

const virtualConsole = new VirtualConsole();
virtualConsole.on('jsdomError', (e) => domErrors.push(e));

export const dom = new JSDOM(
  '<!doctype html><html><head></head><body></body></html>',
  { pretendToBeVisual: true, url: 'http://localhost/', virtualConsole },
);
const w = dom.window;
export const realSetTimeout = globalThis.setTimeout;
export const realClearTimeout = globalThis.clearTimeout;

globalThis.window = w;
for (const k of [
  'document', 'Element', 'Node', 'HTMLElement', 'SVGElement', 'XMLSerializer', 'DocumentFragment',
  'MutationObserver', 'Event', 'MouseEvent', 'CustomEvent', 'EventTarget', 'Comment', 'Text',
  'NodeFilter', 'DOMException', 'HTMLTemplateElement', 'Document', 'CharacterData', 'Attr',
]) {
  if (w[k] !== undefined) globalThis[k] = w[k];
}
globalThis.requestAnimationFrame = w.requestAnimationFrame.bind(w);
globalThis.cancelAnimationFrame = w.cancelAnimationFrame.bind(w);

const P = w.Element.prototype;
if (typeof P.setHTMLUnsafe !== 'function') {
  P.setHTMLUnsafe = function (html) {
    this.innerHTML = html;
  };
}
// jsdom keeps the longhands when a shorthand is removed, and the important ones
// when it is set.
const S = w.CSSStyleDeclaration.prototype;
const { removeProperty, setProperty } = S;
S.removeProperty = function (name) {
  const value = removeProperty.call(this, name);
  if (name === 'margin') for (const side of ['top', 'right', 'bottom', 'left']) removeProperty.call(this, `margin-${side}`);
  return value;
};
S.setProperty = function (name, value, priority) {
  if (name === 'margin') this.removeProperty(name);
  if (name !== 'margin' || value !== '') setProperty.call(this, name, value, priority);
};
const insertBefore = w.Node.prototype.insertBefore;
// Whether a node is being moved by moveBefore, which keeps its state.
export const moves = { now: 0 };
function moveBefore(node, child) {
  if (typeof this?.nodeType !== 'number') throw new TypeError('Illegal invocation');
  const rootOf = (n) => n.getRootNode({ composed: true });
  if (rootOf(this) !== rootOf(node)) {
    throw new w.DOMException(
      'moveBefore: node and parent have different roots',
      'HierarchyRequestError',
    );
  }
  if (node.contains(this)) {
    throw new w.DOMException('moveBefore: cycle', 'HierarchyRequestError');
  }
  if (child !== null && child !== undefined && child.parentNode !== this) {
    throw new w.DOMException(
      'moveBefore: reference node is not a child',
      'NotFoundError',
    );
  }
  moves.now++;
  try {
    insertBefore.call(this, node, child ?? null);
  } finally {
    moves.now--;
  }
}
// The document of a frame, with prototypes of its own.
let frame = null;
export function frameDocument() {
  if (frame === null) {
    frame = w.document.createElement('iframe');
    w.document.documentElement.append(frame);
    frame.contentWindow.Element.prototype.setHTMLUnsafe ??= P.setHTMLUnsafe;
  }
  return frame.contentDocument;
}
export function setMoveBefore(on) {
  for (const proto of [w.Element.prototype, w.DocumentFragment.prototype]) {
    if (on) proto.moveBefore = moveBefore;
    else delete proto.moveBefore;
  }
}

const loaded = new Map();
// variant: 'debug' | 'prod', mv: whether native moveBefore exists.
export async function load(dir, variant, mv) {
  const key = variant + (mv ? '+mv' : '');
  if (!loaded.has(key)) {
    setMoveBefore(mv);
    loaded.set(key, await import(`file://${dir}/${variant}.mjs?${key}`));
  }
  return loaded.get(key);
}
export const settle = () => new Promise((r) => setImmediate(r));
