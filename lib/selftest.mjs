// Builds the code under test once and renders something with each build.
import { buildAll } from './build.mjs';
import * as env from './env.mjs';
import { makeHost, drain } from './sched.mjs';
import { makeRng } from './rng.mjs';
const built = await buildAll({ minifier: true });
try {
  for (const variant of ['debug', 'prod']) {
    for (const mv of [false, true]) {
      const B = await env.load(built.dir, variant, mv);
      env.setMoveBefore(mv);
      const host = makeHost(B);
      const c = document.createElement('div');
      const h = new B.DOMRoot(c, new B.Runtime(host)).render(B.html`<p>${'ok'}</p>`);
      await drain(host, makeRng(1, 'selftest', 0), 'fifo');
      await h.finished;
      if (c.innerHTML !== '<p>ok</p>') throw new Error(`${variant}: unexpected ${c.innerHTML}`);
    }
  }
  console.log('selftest ok');
} finally {
  built.cleanup();
}
process.exit(0);
