import { bundle } from "../lib/bundle.mjs";
import { World } from "../lib/world.mjs";

export const meta = { bounds: "up to 4 (quick) / 5 (thorough) attempts, each ending in any of the alphabet's ways, for every retry count of the domain; two overlapping calls in every order of settlement" };

export async function run(ctx) {
  const b = await bundle({
    retry: "lib/digitraffic-common/src/utils/retry.ts",
    http: "lib/digitraffic-common/src/types/http-error.ts",
    to: "lib/digitraffic-common/src/types/async-timeout-error.ts",
  });
  const HALF_HOUR = 30 * 60 * 1000;
  const maxAttempts = ctx.thorough ? 5 : 4;

  // one call, every outcome of every attempt
  await ctx.explore("attempts", async (c) => {
    const w = new World({});
    const m = b.instantiate(w);
    const retries = c.choose("retries", [0, 1, 2, 3, undefined, -1, -7, 100, 1.5]);
    const delay = c.choose("delay", ["none", "exp", "custom", "long"]);
    const pred = c.choose("predicate", ["always", "status", "custom"]);
    const logError = c.choose("log", [undefined, m.retry.RetryLogError.LOG_ALL_AS_ERRORS, m.retry.RetryLogError.NO_LOGGING]);
    const allowed = Math.max(0, Math.ceil(retries ?? 3)) + 1;
    const effective = retries === 1.5 ? 2 : allowed; // 1.5 -> attempts with 1.5, 0.5 remaining
    const attempts = [];
    const errors = [];
    const predCalls = [];
    const delayCalls = [];
    const fn = () => {
      const k = attempts.length;
      attempts.push(w.now);
      if (k >= maxAttempts) return Promise.resolve("stop");
      const how = c.choose(`attempt${k}`, ["ok", "http429", "http500", "sync-throw", "timeout", "reject-non-error", "ok-undefined"]);
      const e = how === "http429" ? new m.http.HttpError(429, "x") : how === "http500" ? new m.http.HttpError(500, "x") : how === "reject-non-error" ? "just text" : new Error("sync");
      errors.push(how);
      if (how === "ok") return Promise.resolve("value" + k);
      if (how === "ok-undefined") return Promise.resolve(undefined);
      if (how === "timeout") return new Promise(() => {});
      if (how === "sync-throw") throw e;
      return Promise.reject(e);
    };
    const isRetriable = (how) => (pred === "always" ? true : pred === "status" ? how === "http429" : how !== "http500");
    const predicate = pred === "always" ? m.retry.retryPredicates.alwaysRetry : pred === "status" ? m.retry.retryPredicates.retryBasedOnStatusCode : (e) => { predCalls.push(e); return !(e && e.statusCode === 500); };
    const timeoutFn = delay === "none" ? m.retry.timeoutFunctions.noTimeout : delay === "exp" ? m.retry.timeoutFunctions.exponentialTimeout : delay === "long" ? () => HALF_HOUR + 600_000 : (n) => { delayCalls.push(n); return n === 2 ? -5 : 700 * n; };
    const wait = (n) => (delay === "none" ? 0 : delay === "exp" ? 2 ** n * 1000 : delay === "long" ? HALF_HOUR + 600_000 : n === 2 ? 0 : 700 * n);
    const p = m.retry.retry(fn, retries, logError, timeoutFn, predicate);
    const r = await w.settle(p);
    c.check(!r.hung, "hangs", "retry() never settles");
    // reference
    let t = 0;
    let want;
    let k = 0;
    const times = [];
    for (;;) {
      times.push(t);
      const how = k >= maxAttempts ? "ok-stop" : errors[k];
      if (how === undefined) { c.fail("attempt-missing", `attempt ${k + 1} was not made (retries ${retries})`); }
      if (how.startsWith("ok")) { want = { ok: true, value: how === "ok" ? "value" + k : how === "ok-stop" ? "stop" : undefined }; break; }
      if (how === "timeout") t += HALF_HOUR;
      k++;
      if (k >= effective) { want = { ok: false }; break; }
      if (!isRetriable(how)) { want = { ok: false }; break; }
      t += wait(k);
    }
    c.equal(attempts.length, times.length, "attempt-count", () => `retries=${retries} outcomes=${errors}`);
    c.equal(r.ok, want.ok, "result");
    if (want.ok) c.equal(r.value, want.value, "value");
    else c.check(r.error instanceof Error, "error-type", String(r.error));
    const at = attempts.map((x) => x - attempts[0]);
    c.equal(at, times, "attempt-times", "milliseconds from the first attempt");
    if (delay === "custom") c.equal(delayCalls, Array.from({ length: attempts.length - 1 }, (_, i) => i + 1), "delay-argument");
    if (pred === "custom") c.check(predCalls.length >= attempts.length - 1, "predicate-calls", String(predCalls.length));
    c.check(w.timers.size === 0, "timer-left", () => `${w.timers.size} timer(s) still armed after retry() settled`);
    return [attempts.length, r.ok, retries];
  });

  // argument limits: nothing is called
  await ctx.explore("limits", async (c) => {
    const w = new World({});
    const m = b.instantiate(w);
    const retries = c.choose("retries", [NaN, Infinity, -Infinity, 101, 100.5, 1e9]);
    let calls = 0;
    const r = await w.settle(m.retry.retry(async () => { calls++; }, retries));
    c.check(!r.ok && !r.hung, "limit-accepted", `retries=${retries}`);
    c.equal(calls, 0, "called-beyond-limit", `retries=${retries}`);
    return String(retries);
  });
  await ctx.explore("max", async (c) => {
    const w = new World({});
    const m = b.instantiate(w);
    const n = c.choose("n", [100, 99, 5, 3]);
    let calls = 0;
    const r = await w.settle(m.retry.retry(() => { calls++; return Promise.reject(new Error("x")); }, n, m.retry.RetryLogError.NO_LOGGING), { maxSteps: 2000 });
    c.check(!r.ok, "max-result", "");
    c.equal(calls, n + 1, "max-attempts");
    return n;
  });

  // retryRequest: 5 retries, exponential back-off, only 403/429, arguments handed on every time
  await ctx.explore("request", async (c) => {
    const w = new World({});
    const m = b.instantiate(w);
    const nFail = c.choose("fails", [0, 1, 2, 3, 4, 5, 6, 7]);
    const code = c.choose("code", [403, 429, 500, 404, 200, "plain"]);
    const late = c.choose("thenCode", [undefined, 500]);
    const args = [];
    const at = [];
    const r = await w.settle(m.retry.retryRequest((...a) => {
      args.push(a);
      at.push(w.now);
      const k = args.length - 1;
      if (k < nFail) {
        const s = late && k === nFail - 1 ? late : code;
        return Promise.reject(s === "plain" ? new Error("x") : new m.http.HttpError(s, "x"));
      }
      return Promise.resolve("done");
    }, "a", 2, { x: 1 }));
    let calls = 0;
    let ok = false;
    for (let k = 0; ; k++) {
      calls++;
      if (k >= nFail) { ok = true; break; }
      const s = late && k === nFail - 1 ? late : code;
      if (k >= 5 || !(s === 403 || s === 429)) break;
    }
    c.equal(args.length, calls, "request-attempts");
    c.equal(r.ok, ok, "request-result");
    for (const a of args) c.equal(a, ["a", 2, { x: 1 }], "request-args");
    c.equal(at.map((x) => x - at[0]), Array.from({ length: calls }, (_, i) => 2000 * (2 ** i - 1)), "request-backoff");
    return [calls, ok];
  });

  // two overlapping calls do not disturb each other, whatever the order of settlement
  await ctx.explore("overlap", async (c) => {
    const w = new World({});
    const m = b.instantiate(w);
    const n = [c.choose("n0", [0, 1, 2]), c.choose("n1", [1, 2])];
    const need = [c.choose("need0", [0, 1, 2]), c.choose("need1", [0, 2])];
    const calls = [0, 0], delays = [[], []];
    const res = [undefined, undefined];
    const start = (i) => {
      m.retry.retry(() => { calls[i]++; return w.external(`c${i}`, { i, k: calls[i] - 1 }); }, n[i], m.retry.RetryLogError.NO_LOGGING, (x) => { delays[i].push(x); return 10 * x * (i + 1); }).then((v) => { res[i] = v; }, () => { res[i] = "failed"; });
    };
    start(0);
    let started = false;
    for (let step = 0; step < 60; step++) {
      await w.quiesce();
      if (res[0] && res[1]) break;
      const timers = w.nextTimers().filter((t) => t.delay < HALF_HOUR);
      const opts = [...(started ? [] : ["start"]), ...w.externals.map((_, i) => i), ...(timers.length ? ["t"] : [])];
      c.check(opts.length > 0, "stuck", "no pending work but a call is unfinished");
      const o = c.choose("next", opts);
      if (o === "start") { started = true; start(1); }
      else if (o === "t") w.fire(timers[0]);
      else {
        const x = w.takeExternal(o);
        if (x.data.k >= need[x.data.i]) x.resolve(`v${x.data.i}`);
        else x.reject(new Error("no"));
      }
    }
    for (const i of [0, 1]) {
      c.equal(res[i], need[i] <= n[i] ? `v${i}` : "failed", "overlap-result");
      c.equal(calls[i], Math.min(need[i], n[i]) + 1, "overlap-attempts");
      c.equal(delays[i], Array.from({ length: calls[i] - 1 }, (_, k) => k + 1), "overlap-delays");
    }
    return [res, calls];
  });
  ctx.assume("Timers and clock are virtual; a timer fires exactly when due");
}
