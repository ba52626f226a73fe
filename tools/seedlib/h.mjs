// Demo harness: jsdom, the library bundled from the repository's sources, and
// a host whose callbacks run on demand.
import { createRequire } from 'node:module';
import { mkdtempSync, writeFileSync, rmSync } from 'node:fs';
import { join } from 'node:path';
import { tmpdir } from 'node:os';
const REPO = process.env.REPO || process.cwd();
const { JSDOM } = createRequire('/opt/dom/node_modules/')('jsdom');
const dom = new JSDOM('<!doctype html><body></body>', { pretendToBeVisual: true, url: 'http://localhost/' });
const w = dom.window;
globalThis.window = w;
for (const k of ['document', 'Element', 'Node', 'HTMLElement', 'XMLSerializer', 'DocumentFragment', 'MutationObserver', 'Event', 'CustomEvent', 'EventTarget', 'Comment', 'Text', 'NodeFilter', 'HTMLTemplateElement', 'Document', 'DOMException']) globalThis[k] = w[k];
globalThis.requestAnimationFrame = w.requestAnimationFrame.bind(w);
globalThis.cancelAnimationFrame = w.cancelAnimationFrame.bind(w);
w.Element.prototype.setHTMLUnsafe ??= function (html) { this.innerHTML = html; };
export async function load({ prod = false } = {}) {
  const esbuild = createRequire('/opt/veriftools/node/node_modules/')('esbuild');
  const dir = mkdtempSync(join(tmpdir(), 'seeddemo-'));
  const S = (p) => `export * from ${JSON.stringify(join(REPO, 'src', p))};`;
  writeFileSync(join(dir, 'e.ts'), ['index.ts', 'addons/hooks.ts', 'addons/signal.ts', 'addons/router.ts', 'addons/update-logger.ts', 'addons/update-profiler.ts'].map(S).join('\n'));
  await esbuild.build({ entryPoints: [join(dir, 'e.ts')], bundle: true, format: 'esm', platform: 'neutral', target: 'esnext', logLevel: 'silent', outfile: join(dir, 'b.mjs'), ...(prod ? { dropLabels: ['DEBUG'] } : {}) });
  const B = await import(join(dir, 'b.mjs'));
  rmSync(dir, { recursive: true, force: true });
  await esbuild.stop?.();
  return B;
}
export const micro = () => new Promise((r) => setImmediate(r));
export function makeHost(B) {
  class Host extends B.DOMAdapter {
    tasks = [];
    priority = 'background';
    getTaskPriority() { return this.priority; }
    requestCallback(callback, options) { return this.push('task', callback, options); }
    requestCommit(callback) { return this.push('commit', callback); }
    push(kind, callback, options) {
      return new Promise((resolve, reject) => {
        const t = { kind, options, run: () => {
          this.tasks.splice(this.tasks.indexOf(t), 1);
          try { resolve(callback()); } catch (e) { reject(e); }
        } };
        this.tasks.push(t);
      });
    }
    async drain() {
      await micro();
      for (let n = 0; this.tasks.length > 0 && n < 1000; n++) { this.tasks[0].run(); await micro(); }
    }
  }
  return new Host(document);
}
export function container(tag = 'main') {
  const el = document.createElement(tag);
  document.body.append(el);
  return el;
}
export const clean = (s) => s.replace(/<!--.*?-->/g, '');
export function done(ok, message) {
  console.log(ok ? 'ok' : `BROKEN: ${message}`);
  process.exit(ok ? 0 : 1);
}
