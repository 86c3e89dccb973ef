// Virtual time.  The code under test sees these instead of the host's clock and timers.
const RealDate = Date;
const realSetImmediate = setImmediate;

export class World {
  constructor({ now = RealDate.UTC(2024, 5, 15, 12, 0, 0), env = {}, random = 0.5 } = {}) {
    this.now = now;
    this.seq = 0;
    this.timers = new Map();
    this.externals = [];
    this.stdout = [];
    this.stderr = [];
    this.random = random;
    this.maxTimers = 0;
    const w = this;
    this.Date = class Date extends RealDate {
      constructor(...a) {
        if (a.length === 0) super(w.now);
        else super(...a);
      }
      static now() {
        return w.now;
      }
      static [Symbol.hasInstance](x) {
        return x instanceof RealDate;
      }
    };
    const add = (kind) => (fn, delay, ...args) => {
      let d = Number(delay);
      // Node: delays that are not in 1..2^31-1 become 1
      if (!(d >= 1 && d <= 2147483647)) d = 1;
      d = Math.trunc(d);
      const id = ++w.seq;
      const t = { id, due: w.now + d, delay: d, fn, args, kind };
      w.timers.set(id, t);
      w.maxTimers = Math.max(w.maxTimers, w.timers.size);
      const h = { id, ref: () => h, unref: () => { t.unref = true; return h; }, hasRef: () => !t.unref, refresh: () => h, [Symbol.toPrimitive]: () => id };
      t.handle = h;
      return h;
    };
    const clear = (h) => {
      if (h === undefined || h === null) return;
      w.timers.delete(typeof h === "object" ? h.id : Number(h));
    };
    this.setTimeout = add("timeout");
    this.setInterval = add("interval");
    this.setImmediate = (fn, ...args) => w.setTimeout(fn, 1, ...args);
    this.clearTimeout = this.clearInterval = this.clearImmediate = clear;
    this.performance = { now: () => w.now, timeOrigin: 0 };
    const mkOut = (arr) => ({ write: (s) => { arr.push(String(s)); return true; }, on: () => {}, isTTY: false });
    this.process = Object.create(process, {
      env: { value: env, writable: true },
      stdout: { value: mkOut(this.stdout) },
      stderr: { value: mkOut(this.stderr) },
      hrtime: { value: Object.assign(() => [Math.floor(w.now / 1000), (w.now % 1000) * 1e6], { bigint: () => BigInt(Math.floor(w.now)) * 1000000n }) },
      uptime: { value: () => w.now / 1000 },
    });
    this.Math = Object.create(Math, { random: { value: () => (typeof w.random === "function" ? w.random() : w.random) } });
    for (const k of Object.getOwnPropertyNames(Math)) if (k !== "random") Object.defineProperty(this.Math, k, { value: Math[k] });
    this.console = { log: (...a) => w.stdout.push(a.join(" ")), error: (...a) => w.stderr.push(a.join(" ")), warn: (...a) => w.stderr.push(a.join(" ")), info: (...a) => w.stdout.push(a.join(" ")), debug: () => {} };
  }
  get env() {
    return this.process.env;
  }
  globals() {
    return this;
  }
  /** let every promise reaction that can run, run */
  async quiesce() {
    for (let i = 0; i < 2; i++) await new Promise((r) => realSetImmediate(r));
  }
  /** an external request that the explorer settles later */
  external(label, data) {
    return new Promise((resolve, reject) => {
      this.externals.push({ label, data, resolve, reject, id: ++this.seq });
    });
  }
  takeExternal(i) {
    return this.externals.splice(i, 1)[0];
  }
  nextTimers() {
    let due = Infinity;
    for (const t of this.timers.values()) due = Math.min(due, t.due);
    return [...this.timers.values()].filter((t) => t.due === due).sort((a, b) => a.id - b.id);
  }
  fire(t) {
    if (!this.timers.has(t.id)) return;
    this.now = Math.max(this.now, t.due);
    if (t.kind === "interval") t.due = this.now + t.delay;
    else this.timers.delete(t.id);
    t.fn(...t.args);
  }
  /** run until p settles, answering timers in due order; returns {ok,value|error,hung} */
  async settle(p, { maxSteps = 10000, horizon = Infinity } = {}) {
    let st;
    p = Promise.resolve(p);
    p.then((value) => { st = { ok: true, value }; }, (error) => { st = { ok: false, error }; });
    for (let i = 0; i < maxSteps; i++) {
      await this.quiesce();
      if (st) return st;
      const ts = this.nextTimers();
      if (!ts.length || ts[0].due > horizon) return { ok: false, hung: true, error: new Error("hung") };
      this.fire(ts[0]);
    }
    return { ok: false, hung: true, error: new Error("step bound reached") };
  }
}
