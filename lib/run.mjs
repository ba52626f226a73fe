// node run.mjs <ID> [--tier quick|thorough] [--replay FILE] [--cases N] [--only I]
// Exit 0: held on everything observed. 1: violation. 2: inconclusive.
import { fork } from 'node:child_process';
import { mkdirSync, writeFileSync, readFileSync, existsSync, openSync, readSync, closeSync } from 'node:fs';
import { dirname, join } from 'node:path';
import { fileURLToPath } from 'node:url';
import { buildAll } from './build.mjs';

const ROOT = dirname(dirname(fileURLToPath(import.meta.url)));
const args = process.argv.slice(2);
const id = args[0];
const opt = (name) => {
  const i = args.indexOf('--' + name);
  return i >= 0 ? args[i + 1] : undefined;
};
const check = (await import(`../checks/${id}.mjs`)).default;
let tier = opt('tier') ?? process.env.VERIF_TIER ?? 'quick';
if (tier !== 'thorough') tier = 'quick';
let seed = Number.parseInt(process.env.VERIF_SEED ?? '1', 10);
if (!Number.isFinite(seed)) seed = 1;
let only = opt('only') !== undefined ? Number(opt('only')) : undefined;
const replayFile = opt('replay');
if (replayFile) {
  const r = JSON.parse(readFileSync(replayFile, 'utf8'));
  seed = r.seed;
  tier = r.tier;
  only = r.case;
}
const conf = check[tier] ?? check.quick;
const cases = opt('cases') ? Number(opt('cases')) : conf.cases;
const secs = opt('secs') ? Number(opt('secs')) : (conf.secs ?? (tier === 'quick' ? 60 : 600));
const t0 = Date.now();

// known findings (committed file, never written here)
const known = [];
const knownText = {};
const kf = join(ROOT, 'known-findings.txt');
if (existsSync(kf)) {
  for (const line of readFileSync(kf, 'utf8').split('\n')) {
    const m = /^known: property=(\S+) id=(\S+) (.*)$/.exec(line);
    if (m && m[1] === id) {
      known.push(m[2]);
      knownText[m[2]] = m[3];
    }
  }
}

const built = await buildAll({ minifier: !!check.minifier });
const N = only !== undefined ? 1 : Math.max(1, Math.min(conf.workers ?? 8, cases));
const HANG_MS = 90_000;
let exitCode = 2;

function launch(extra, n) {
  return new Promise((resolve) => {
    const progress = join(built.dir, `progress-${n}`);
    writeFileSync(progress, Buffer.alloc(8));
    const job = { id, tier, seed, dir: built.dir, cases, secs, known, nshards: N, shard: n, progress, ...extra };
    const child = fork(join(ROOT, 'lib/worker.mjs'), [JSON.stringify(job)], {
      execPath: process.execPath,
      execArgv: ['--expose-gc', '--max-old-space-size=2800', '--no-warnings'],
      serialization: 'json',
      stdio: ['ignore', 'inherit', 'inherit', 'ipc'],
    });
    let result = null;
    let last = -1;
    let lastChange = Date.now();
    const b = Buffer.alloc(8);
    const timer = setInterval(() => {
      const fd = openSync(progress, 'r');
      readSync(fd, b, 0, 8, 0);
      closeSync(fd);
      const cur = b.readDoubleLE();
      if (cur !== last) {
        last = cur;
        lastChange = Date.now();
      } else if (Date.now() - lastChange > HANG_MS) {
        clearInterval(timer);
        result = { t: 'hang', case: cur };
        child.kill('SIGKILL');
      }
    }, 500);
    child.on('message', (m) => {
      result = JSON.parse(m);
    });
    child.on('exit', (code, sig) => {
      clearInterval(timer);
      resolve(result ?? { t: 'error', error: `worker exited with ${code ?? sig}`, case: last, died: true });
    });
  });
}

try {
  const results = await Promise.all(
    Array.from({ length: N }, (_, n) => launch(only !== undefined ? { only } : {}, n)),
  );
  const agg = { evaluations: 0, nontrivial: 0, counters: {}, samples: [], findings: {}, timedOut: false };
  const sigs = new Set();
  let violation = null;
  let error = null;
  const probes = {};
  for (let n = 0; n < results.length; n++) {
    const r = results[n];
    if (r.t === 'done') {
      agg.evaluations += r.evaluations;
      agg.nontrivial += r.nontrivial;
      for (const s of r.sigs) sigs.add(s);
      for (const [k, v] of Object.entries(r.counters)) {
        agg.counters[k] = /^max /.test(k) ? Math.max(agg.counters[k] ?? 0, v) : (agg.counters[k] ?? 0) + v;
      }
      for (const [k, v] of Object.entries(r.findings)) agg.findings[k] = (agg.findings[k] ?? 0) + v;
      if (agg.samples.length < 4) agg.samples.push(...r.samples.slice(0, 2));
      agg.timedOut ||= r.timedOut;
      Object.assign(probes, r.probes);
      if (r.violation && (!violation || r.violation.case < violation.case)) {
        violation = { ...r.violation, shard: n };
      }
    } else if (r.t === 'hang' || r.died) {
      // Confirm in isolation before calling it a violation.
      const again = await launch({ only: r.case }, n);
      if (again.t === 'hang') {
        violation = { case: r.case, message: `case does not terminate (no progress for ${HANG_MS / 1000} s, twice)`, shard: n, confirmed: true };
      } else if (again.died) {
        violation = { case: r.case, message: `case kills its process, twice (${again.error})`, shard: n, confirmed: true };
      } else if (again.violation) {
        violation = { ...again.violation, shard: n, confirmed: true };
      } else {
        error = `worker ${n} hung or died in case ${r.case}; not reproducible in isolation`;
      }
    } else {
      error = r.error;
    }
  }
  if (violation && !violation.confirmed && only === undefined) {
    // A violation counts when it reproduces: alone in a fresh process, or
    // else by repeating its shard up to that case.
    let again = await launch({ only: violation.case }, violation.shard);
    if (again.violation) {
      violation.reproduced = 'alone';
    } else {
      again = await launch({ until: violation.case }, violation.shard);
      if (again.violation) violation.reproduced = 'by repeating its shard';
      else {
        error = `violation of case ${violation.case} did not reproduce: ${violation.message}`;
        violation = null;
      }
    }
  }
  const wall = (Date.now() - t0) / 1000;
  for (const f of known) {
    if (probes[f] || agg.findings[f]) console.log(`KNOWN-FINDING: property=${id} ${knownText[f]}`);
  }
  if (only === undefined) {
    mkdirSync(join(ROOT, 'evidence'), { recursive: true });
    writeFileSync(
      join(ROOT, 'evidence', `${id}.json`),
      JSON.stringify(
        {
          property: id,
          tier,
          seed,
          level: 'exploration',
          coverage: {
            evaluations: agg.evaluations,
            distinct_nontrivial: sigs.size,
            rule: check.rule,
            samples: agg.samples.length > 0 ? agg.samples : ['(none)'],
            observed: agg.counters,
            cases_planned: cases,
            stopped_by_time_cap: agg.timedOut,
            ...(known.length > 0 ? { known_findings_seen: agg.findings, known_findings_probed: probes } : {}),
          },
          assumptions: check.assumptions ?? [],
          wall_s: wall,
          violations: violation ? 1 : 0,
        },
        null,
        1,
      ) + '\n',
    );
  }
  if (violation) {
    const dir = join(ROOT, 'evidence', 'replay');
    mkdirSync(dir, { recursive: true });
    const file = join(dir, `${id}-${seed}-${violation.case}.json`);
    writeFileSync(file, JSON.stringify({ check: id, seed, tier, ...violation }, null, 1) + '\n');
    console.log(`${id}: ${violation.message}`);
    const d = typeof violation.detail === 'string' ? violation.detail : JSON.stringify(violation.detail, null, 1);
    if (d) console.log(d.slice(0, 6000));
    if (violation.cause) console.log('cause: ' + violation.cause.slice(0, 1500));
    console.log(`case ${violation.case} seed ${seed} (${violation.variant ?? ''}${violation.moveBefore ? '+moveBefore' : ''}) replay: ./check ${id} --replay ${file}`);
    console.log(`VIOLATION property=${id} replay=${file}`);
    exitCode = 1;
  } else if (error) {
    console.log(`INCONCLUSIVE ${id}: ${error}`);
    exitCode = 2;
  } else if (only !== undefined) {
    console.log(`${id}: case ${only} held`);
    exitCode = 0;
  } else {
    const missing = Object.entries(check.require ?? {}).filter(([k, v]) => (agg.counters[k] ?? 0) < v);
    if (opt('cases') === undefined && (missing.length > 0 || sigs.size < (check.minDistinct ?? 2))) {
      console.log(`INCONCLUSIVE ${id}: too little observed: ${JSON.stringify(missing)} distinct=${sigs.size}`);
      exitCode = 2;
    } else {
      console.log(
        `${id}: held on ${agg.evaluations} cases (${sigs.size} distinct) in ${wall.toFixed(1)} s; observed ${JSON.stringify(agg.counters)}`,
      );
      exitCode = 0;
    }
  }
} finally {
  built.cleanup();
}
process.exit(exitCode);
