// VirtualHost: the host adapter of the library with its three scheduling
// entry points replaced by queues that a workload drains in any order.
export function makeHost(B, opts = {}) {
  class VirtualHost extends B.DOMAdapter {
    tasks = []; // {kind:'task'|'commit', run, options, seq}
    seq = 0;
    log = null; // optional event sink
    taskPriority = opts.taskPriority ?? 'background';
    requested = 0;
    ran = 0;
    getTaskPriority() {
      return typeof this.taskPriority === 'function'
        ? this.taskPriority()
        : this.taskPriority;
    }
    requestCallback(callback, options) {
      return this._push('task', callback, options);
    }
    requestCommit(callback) {
      return this._push('commit', callback, undefined);
    }
    _push(kind, callback, options) {
      this.requested++;
      const entry = { kind, options, seq: this.seq++, callback };
      this.onRequest?.(entry);
      return new Promise((resolve, reject) => {
        entry.run = () => {
          this.ran++;
          const i = this.tasks.indexOf(entry);
          if (i >= 0) this.tasks.splice(i, 1);
          try {
            this.onRun?.(entry);
            const r = callback();
            this.onRan?.(entry);
            resolve(r);
          } catch (e) {
            this.onRan?.(entry, e);
            reject(e);
          }
        };
        this.tasks.push(entry);
      });
    }
  }
  return new VirtualHost(opts.document ?? window.document);
}

export const micro = () => new Promise((r) => setImmediate(r));

const PRIO = { 'user-blocking': 0, 'user-visible': 1, background: 2 };

// Runs host callbacks until none is left. policy:
//  'fifo'      in request order
//  'random'    any order
//  'priority'  highest priority first (commits first of all)
//  'lifo'      newest first
//  'lowfirst'  lowest priority first
export async function drain(host, rng, policy = 'fifo', max = 2000, each) {
  let n = 0;
  await micro();
  while (host.tasks.length > 0) {
    if (n++ > max) throw new Error('HARNESS: host never becomes idle');
    const i = choose(host, rng, policy);
    host.tasks[i].run();
    // Sometimes let several callbacks fire before microtasks get to run.
    await micro();
    if (each) await each();
  }
  return n;
}
export function choose(host, rng, policy) {
  const ts = host.tasks;
  switch (policy) {
    case 'fifo':
      return 0;
    case 'lifo':
      return ts.length - 1;
    case 'random':
      return rng.int(ts.length);
    case 'priority':
    case 'lowfirst': {
      let best = 0;
      const rank = (t) =>
        t.kind === 'commit' ? -1 : (PRIO[t.options?.priority] ?? 1);
      for (let i = 1; i < ts.length; i++) {
        const d = rank(ts[i]) - rank(ts[best]);
        if (policy === 'priority' ? d < 0 : d > 0) best = i;
      }
      return best;
    }
  }
  throw new Error(policy);
}
