// One shard of a check. argv[2] = JSON job.
import { openSync, writeSync, closeSync } from 'node:fs';
import * as env from './env.mjs';
import { makeRng, hashString } from './rng.mjs';

const job = JSON.parse(process.argv[2]);
const check = (await import(`../checks/${job.id}.mjs`)).default;

export class Violation extends Error {
  constructor(message, detail) {
    super(message);
    this.detail = detail;
  }
}

const unhandled = [];
process.on('unhandledRejection', (e) => unhandled.push(e));
process.on('uncaughtException', (e) => unhandled.push(e));

// Library noise (warnings about misuse, error dumps) is not part of the verdict.
const realConsole = globalThis.console;
const consoleLog = [];
globalThis.console = new Proxy(realConsole, {
  get(t, k) {
    if (k === 'warn' || k === 'error' || k === 'log' || k === 'info') {
      return process.env.VERIF_DEBUG
        ? t[k].bind(t)
        : (...a) => consoleLog.length < 1000 && consoleLog.push([k, a]);
    }
    return typeof t[k] === 'function' ? t[k].bind(t) : t[k];
  },
});

const counters = {};
const sigs = new Set();
const samples = [];
const findings = {};
let evaluations = 0;
let nontrivial = 0;
const start = Date.now();
const deadline = start + job.secs * 1000;
const progressFd = job.progress ? openSync(job.progress, 'r+') : null;
const buf = Buffer.alloc(8);

function makeCtx(i) {
  const rng = makeRng(job.seed, job.id, i);
  return {
    i,
    rng,
    env,
    tier: job.tier,
    dir: job.dir,
    consoleLog,
    unhandled,
    domErrors: env.domErrors,
    count(name, n = 1) {
      counters[name] = (counters[name] ?? 0) + n;
    },
    max(name, n) {
      counters[name] = Math.max(counters[name] ?? 0, n);
    },
    trace: [],
    note(x) {
      if (this.trace.length < 400) this.trace.push(x);
    },
    sample(x) {
      if (samples.length < 3) samples.push(x);
    },
    first: null,
    // Also called inside components and listeners, where the library catches
    // what is thrown: the first failure counts.
    fail(message, detail) {
      throw (this.first ??= new Violation(message, detail));
    },
    async lib(variant, mv) {
      const B = await env.load(job.dir, variant, mv);
      env.setMoveBefore(mv);
      return B;
    },
    // The configuration of a case: debug/production build x moveBefore present.
    async pickLib() {
      this.variant = rng.bool(0.5) ? 'debug' : 'prod';
      this.mv = rng.bool(0.5);
      this.count(`config ${this.variant}${this.mv ? '+moveBefore' : ''}`);
      return (this.B = await this.lib(this.variant, this.mv));
    },
  };
}

let violation = null;
async function runCase(i) {
  if (progressFd !== null) {
    buf.writeDoubleLE(i);
    writeSync(progressFd, buf, 0, 8, 0);
  }
  consoleLog.length = 0;
  unhandled.length = 0;
  env.domErrors.length = 0;
  const ctx = makeCtx(i);
  try {
    const r = (await check.run(ctx, i)) ?? {};
    if (ctx.first && !check.expectFails) throw ctx.first;
    if (!check.allowUnhandled) {
      await env.settle();
      if (unhandled.length > 0) {
        throw new Violation(
          'unhandled rejection or exception: ' +
            String(unhandled[0]?.stack ?? unhandled[0]).slice(0, 1500),
        );
      }
      if (env.domErrors.length > 0 && !check.allowDomErrors) {
        const e = env.domErrors[0];
        throw new Violation(
          'error reported by an event listener or timer: ' +
            String(e?.cause?.stack ?? e?.detail?.stack ?? e?.stack ?? e).slice(0, 1500),
        );
      }
    }
    evaluations += r.evaluations ?? 1;
    if (r.nontrivial !== false) {
      if (r.sigs) {
        for (const s of r.sigs) sigs.add(hashString(s));
      } else if (r.sig !== undefined) {
        sigs.add(hashString(String(r.sig)));
      }
      nontrivial++;
    }
  } catch (e) {
    if (e instanceof Error && /^HARNESS/.test(e.message)) {
      throw e;
    }
    evaluations++;
    if (ctx.first) e = ctx.first;
    const v = {
      case: i,
      message: e instanceof Violation ? e.message : `exception escaped from the code under test: ${e?.message}`,
      detail: e instanceof Violation ? e.detail : String(e?.stack ?? e),
      cause: e?.cause ? String(e.cause?.stack ?? e.cause) : undefined,
      variant: ctx.variant,
      moveBefore: ctx.mv,
      trace: ctx.trace,
    };
    const f = e instanceof Violation && e.detail?.finding;
    if (f && job.known.includes(f)) {
      findings[f] = (findings[f] ?? 0) + 1;
    } else {
      violation = v;
    }
  }
}

function finish() {
  const result = {
    t: 'done',
    evaluations,
    nontrivial,
    sigs: [...sigs],
    counters,
    samples,
    findings,
    violation,
    probes,
    timedOut,
    secs: (Date.now() - start) / 1000,
  };
  if (progressFd !== null) closeSync(progressFd);
  const text = safeJson(result);
  if (process.send) {
    process.send(text, () => process.exit(0));
  } else {
    realConsole.log(text);
    process.exit(0);
  }
}
function safeJson(x) {
  const seen = new WeakSet();
  return JSON.stringify(x, (k, v) => {
    if (typeof v === 'bigint') return v.toString() + 'n';
    if (typeof v === 'symbol' || typeof v === 'function') return String(v).slice(0, 80);
    if (typeof v === 'object' && v !== null) {
      if (typeof v.nodeType === 'number') return '[node ' + v.nodeName + ']';
      if (seen.has(v)) return '[again]';
      seen.add(v);
    }
    return v;
  });
}

let timedOut = false;
const probes = {};
try {
  if (check.setup) await check.setup({ env, dir: job.dir });
  if (job.shard === 0 && job.only === undefined && job.known.length > 0) {
    for (const f of job.known) {
      if (check.known?.[f]) {
        const ctx = makeCtx('probe-' + f);
        unhandled.length = 0;
        probes[f] = await check.known[f](ctx);
      }
    }
  }
  if (job.only !== undefined) {
    await runCase(job.only);
  } else {
    for (let i = job.shard; i < job.cases; i += job.nshards) {
      if (job.until !== undefined && i > job.until) break;
      if (Date.now() > deadline) {
        timedOut = true;
        break;
      }
      await runCase(i);
      if (violation) break;
    }
  }
  finish();
} catch (e) {
  const text = JSON.stringify({ t: 'error', error: String(e?.stack ?? e) });
  if (process.send) process.send(text, () => process.exit(3));
  else {
    realConsole.error(text);
    process.exit(3);
  }
}
