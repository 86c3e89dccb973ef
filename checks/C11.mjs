import { bundle } from "../lib/bundle.mjs";
import { World } from "../lib/world.mjs";

export const meta = { bounds: "every history of up to 6 (quick) / 8 (thorough) events (start, stop, reset, create, log, clock steps of 1 and 40 ms) over the default task and two named tasks" };

export async function run(ctx) {
  const b = await bundle({ sw: "lib/digitraffic-common/src/utils/stop-watch.ts" });
  const events = [["tick", 1], ["tick", 40]];
  for (const n of [undefined, "a", "b"]) events.push(["start", n], ["stop", n], ["reset", n]);
  for (const n of [undefined, "a"]) events.push(["create", n]);
  await ctx.bfs("histories", {
    depth: ctx.thorough ? 8 : 6,
    async build(h, c) {
      const w = new World({});
      const t0 = w.now;
      const { sw } = b.instantiate(w);
      let o = new sw.StopWatch();
      let ref = new Map();
      const DEF = "<default>";
      const last = [];
      for (const [ev, a] of h) {
        const k = a ?? DEF;
        const arg = a === undefined ? [] : [a];
        if (ev === "tick") w.now += a;
        if (ev === "start") {
          c.check(o.start(...arg) === o, "chain", "start() must return the watch");
          const t = ref.get(k) ?? { periods: [] };
          ref.set(k, t);
          if (t.running !== undefined) t.periods.push([t.running, w.now]);
          t.running = w.now;
        }
        if (ev === "stop") {
          let err;
          try { c.check(o.stop(...arg) === o, "chain", ""); } catch (e) { if (e.key) throw e; err = e; }
          const t = ref.get(k);
          c.equal(!!err, !t, "stop-unknown", String(err));
          if (t && t.running !== undefined) { t.periods.push([t.running, w.now]); t.running = undefined; }
        }
        if (ev === "reset") { o.reset(...arg); if (a === undefined) ref.clear(); else ref.delete(k); }
        if (ev === "create") { o = sw.StopWatch.createStarted(...arg); ref = new Map([[k, { periods: [], running: w.now }]]); }
      }
      // observations, repeated to show that reading changes nothing
      for (let round = 0; round < 2; round++) {
        for (const n of [undefined, "a", "b", "never"]) {
          const t = ref.get(n ?? DEF);
          const done = (t?.periods ?? []).reduce((s, [x, y]) => s + y - x, 0);
          c.equal(o.getDuration(...(n === undefined ? [] : [n])), done + (t?.running !== undefined ? w.now - t.running : 0), "duration", `task ${n}`);
          if (n !== undefined) {
            const rec = o.getTask(n);
            if (!t) c.equal(rec, undefined, "task-from-nowhere");
            else {
              c.equal([rec.taskName, rec.isRunning, rec.totalDuration], [n, t.running !== undefined, done], "task-record");
              c.equal(rec.periods.map((p) => [p.startTime, p.endTime, p.duration]), [...t.periods.map(([x, y]) => [x, y, y - x]), ...(t.running !== undefined ? [[t.running, undefined, undefined]] : [])], "periods");
            }
          }
        }
        c.equal(o.getTasks().map((t) => t.taskName), [...ref.keys()].filter((k) => k !== DEF), "task-list");
        const n0 = w.stdout.length;
        const level = ["info", "warn", "error"][round];
        if (round === 0) o.logTasks("Cls.method"); else o.logTasks("Cls.method", level);
        const lines = w.stdout.slice(n0).map((l) => { const p = JSON.parse(l); return [p.level, p.method, p.task, p.tookMs]; });
        const dur = (k) => { const t = ref.get(k); return t.periods.reduce((s, [x, y]) => s + y - x, 0) + (t.running !== undefined ? w.now - t.running : 0); };
        c.equal(lines, [...[...ref.keys()].filter((k) => k !== DEF).map((k) => [level.toUpperCase(), "Cls.method", k, dur(k)]), ...(ref.has(DEF) ? [[level.toUpperCase(), "Cls.method", "Cls.method", dur(DEF)]] : [])], "log-lines");
      }
      const rel = (v) => (typeof v === "number" && v > 1e12 ? v - w.now : v);
      const impl = JSON.stringify([...Object.values(o)].map((v) => (v instanceof Map ? [...v] : v)), (_k, v) => rel(v));
      return { canon: JSON.stringify([[...ref].map(([k, t]) => [k, t.periods.map(([x, y]) => [rel(x), rel(y)]), rel(t.running)]), impl, w.now === t0]), enabled: events };
    },
  });
}
