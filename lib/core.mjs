// Exhaustive explorer over choice trees, evidence and verdict output.
import { mkdirSync, readFileSync, writeFileSync, existsSync } from "node:fs";
import { createHash } from "node:crypto";
import path from "node:path";
import { inspect, isDeepStrictEqual } from "node:util";

export const VERIF = path.resolve(path.dirname(new URL(import.meta.url).pathname), "..");

export class Violation extends Error {
  constructor(key, msg) {
    super(msg);
    this.key = key;
  }
}
class Divergence extends Error {}
class Prune extends Error {}

export const show = (v) => inspect(v, { depth: 8, breakLength: 160, maxStringLength: 2000, maxArrayLength: 200 });
const short = (v, n = 300) => {
  let s;
  try { s = typeof v === "string" ? v : JSON.stringify(v); } catch { s = undefined; }
  if (s === undefined) s = show(v);
  return s.length > n ? s.slice(0, n) + "…" : s;
};

const excerpt = (e) => (e?.stack ? e.stack.split("\n").slice(0, 6).join("\n") : show(e));

class Chooser {
  constructor(prefix, bound) {
    this.prefix = prefix;
    this.bound = bound;
    this.points = []; // {label, n, i, cost}
    this.cost = 0;
    this.notes = [];
  }
  _pick(label, n, kind) {
    if (n <= 0) throw new Error(`empty choice at ${label}`);
    const k = this.points.length;
    let i = 0;
    if (k < this.prefix.length) {
      const p = this.prefix[k];
      if (p.label !== label || p.n !== n || p.i >= n) {
        throw new Divergence(`replay diverged at point ${k}: expected ${p.label}/${p.n}, got ${label}/${n}`);
      }
      i = p.i;
    }
    const maxI = kind === "dev" && this.cost >= this.bound ? 0 : n - 1;
    this.points.push({ label, n, i, maxI: Math.max(maxI, i) });
    if (kind === "dev" && i > 0) this.cost++;
    return i;
  }
  /** unrestricted choice among options */
  choose(label, options) {
    if (typeof options === "number") return this._pick(label, options, "free");
    return options[this._pick(label, options.length, "free")];
  }
  /** option 0 is the default; the others count against the deviation bound */
  deviate(label, options) {
    return options[this._pick(label, options.length, "dev")];
  }
  bool(label) {
    return this._pick(label, 2, "free") === 1;
  }
  note(x) {
    this.notes.push(x);
  }
  prune() {
    throw new Prune();
  }
}

// developer aids: --progress=N, --only=TEXT (never used by the registered commands)
const opt = (n) => process.argv.find((a) => a.startsWith(`--${n}=`))?.split("=")[1];
const dev = { progress: Number(opt("progress") ?? 0), only: opt("only") };
export class Ctx {
  constructor(id, { tier, seed, replay }) {
    this.id = id;
    this.tier = tier;
    this.thorough = tier === "thorough";
    this.seed = seed;
    this.replay = replay;
    this.t0 = Date.now();
    this.states = 0;
    this.transitions = 0;
    this.executions = 0;
    this.checks = 0;
    this.sections = {};
    this.samples = [];
    this.violations = new Map();
    this.assumptions = [];
    this.exhaustive = true;
    this.replayChecked = 0;
  }
  assume(...s) {
    this.assumptions.push(...s);
  }
  section(name) {
    return (this.sections[name] ??= { states: 0, transitions: 0, executions: 0, outcomes: new Set(), truncated: false });
  }
  /** record a violation outside explore() */
  violate(section, key, msg, trail) {
    const k = `${section}:${key}`;
    if (!this.violations.has(k)) this.violations.set(k, { section, key, msg, trail });
    this.known ??= loadKnown(this.id).map((x) => x.key);
    if (!this.known.includes(k.replace(/\s+/g, "_")) && this.broken === undefined) { this.broken = Date.now(); this.remote?.broken(); }
  }
  /** the property is broken, and there has been time to see in how many ways */
  get settled() { return this.broken !== undefined && Date.now() - this.broken > (this.remote ? 20000 : 60000); }
  /**
   * Depth-first exploration of every choice sequence of body.
   * body(c) runs one execution and returns an outcome (any JSON-able value); it
   * throws Violation (via c.fail/c.check) when the property fails.
   */
  async explore(name, body, { bound = Infinity, maxExecutions = Infinity, sync = false, replayEvery = 0 } = {}) {
    const s = this.section(name);
    if (this.replay && this.replay.section !== name) return;
    if (dev.only && !name.includes(dev.only)) return;
    if (this.settled) { s.truncated = true; this.exhaustive = false; return; }
    const o = { bound, maxExecutions, sync, replayEvery };
    if (!this.remote) return this._subtree(s, name, body, o, this.replay ? this.replay.trail : [], true);
    // one of several processes: subtrees are dealt out by the coordinator (lib/parallel.mjs)
    for (let job; (job = await this.remote.want(name)); ) {
      await this._subtree(s, name, body, o, job.prefix, job.root);
      if (s.truncated) return;
    }
  }
  /** every choice sequence that begins with prefix */
  async _subtree(s, name, body, { bound, maxExecutions, sync, replayEvery }, prefix, first) {
    const t0 = Date.now();
    let floor = first ? 0 : prefix.length, yielded = t0;
    let known = 0;
    for (;;) {
      const c = this._chooser(prefix, bound);
      const runOne = async (ch) => {
        try {
          let o = body(ch);
          if (!sync) o = await o;
          return { o };
        } catch (e) {
          if (e instanceof Divergence) throw e;
          if (e instanceof Prune) return { prune: true };
          if (e instanceof Violation) return { v: e };
          if (e?.harness) throw e;
          return { v: new Violation(`exception:${e?.name ?? "error"}`, `unexpected exception ${excerpt(e)}`), raw: e };
        }
      };
      const r = await runOne(c);
      s.executions++;
      this.executions++;
      if (dev.progress && s.executions % dev.progress === 0) console.error(`${name}: ${s.executions} executions, ${Date.now() - t0} ms, ${Math.round(process.memoryUsage().heapUsed / 1e6)} MB, ${c.points.map((p) => p.i).join(" ")}`);
      const fresh = c.points.length - (first ? 0 : prefix.length - 1);
      s.states += fresh + (first ? 1 : 0);
      s.transitions += fresh;
      this.states += fresh + (first ? 1 : 0);
      this.transitions += fresh;
      first = false;
      if (r.v) {
        // determinism: the same trail must fail the same way again
        const c2 = this._chooser(c.points.map(({ label, n, i }) => ({ label, n, i })), bound);
        const r2 = await runOne(c2);
        this.replayChecked++;
        if (!r2.v || r2.v.key !== r.v.key) {
          throw new Error(`nondeterministic harness in ${name}: ${r.v.message} / ${r2.v?.message}`);
        }
        this.violate(name, r.v.key, r.v.message + (c.notes.length ? `\n  notes: ${c.notes.map((x) => short(x)).join("; ")}` : ""), c.points.map(({ label, n, i }) => ({ label, n, i })));
        s.outcomes.add("VIOLATION");
        if (s.executions > 0 && this.violations.size >= 25) { s.truncated = true; this.exhaustive = false; return; }
      } else if (!r.prune) {
        const key = typeof r.o === "string" ? r.o : JSON.stringify(r.o) ?? "undefined";
        if (s.outcomes.size < 200000) s.outcomes.add(key.length > 60 ? createHash("sha1").update(key).digest("base64") : key);
        if (known < 2 && c.points.length) {
          known++;
          this.samples.push({ section: name, choices: c.points.map((p) => `${p.label}=${p.i}`).join(" ").slice(0, 400), outcome: short(key, 200) });
        }
        if (replayEvery && s.executions % replayEvery === 0) {
          const c2 = this._chooser(c.points.map(({ label, n, i }) => ({ label, n, i })), bound);
          const r2 = await runOne(c2);
          this.replayChecked++;
          const k2 = typeof r2.o === "string" ? r2.o : JSON.stringify(r2.o) ?? "undefined";
          if (r2.v || k2 !== key) throw new Error(`nondeterministic harness in ${name}: ${short(key)} / ${short(k2)}`);
        }
      }
      if (this.replay) return;
      if (this.settled || s.executions >= maxExecutions) { s.truncated = true; this.exhaustive = false; return; }
      // next sequence
      const pts = c.points;
      const sibling = (k, i) => [...pts.slice(0, k).map(({ label, n, i }) => ({ label, n, i })), { label: pts[k].label, n: pts[k].n, i }];
      if (this.remote && Date.now() - yielded > 20) {
        await new Promise((done) => setImmediate(done));
        yielded = Date.now();
        let k = floor;
        while (this.remote.hungry && k < pts.length && pts[k].i >= pts[k].maxI) k++;
        if (this.remote.hungry && k < pts.length) {
          // the largest remaining subtrees go to the others
          this.remote.offer(name, Array.from({ length: pts[k].maxI - pts[k].i }, (_, j) => sibling(k, pts[k].i + 1 + j)));
          floor = k + 1;
        }
      }
      let k = pts.length - 1;
      while (k >= floor && pts[k].i >= pts[k].maxI) k--;
      if (k < floor) return;
      prefix = sibling(k, pts[k].i + 1);
    }
  }
  _chooser(prefix, bound) {
    const c = new Chooser(prefix, bound);
    const ctx = this;
    c.check = (cond, key, msg) => {
      ctx.checks++;
      if (!cond) throw new Violation(key, typeof msg === "function" ? msg() : `${key}: ${msg ?? ""}`);
    };
    c.equal = (actual, expected, key, msg = "") => {
      ctx.checks++;
      if (!isDeepStrictEqual(actual, expected)) {
        throw new Violation(key, `${key} ${typeof msg === "function" ? msg() : msg}\n  expected ${show(expected)}\n  actual   ${show(actual)}`);
      }
    };
    c.fail = (key, msg) => { throw new Violation(key, `${key}: ${msg}`); };
    return c;
  }
  /**
   * Breadth-first explicit-state search.  A state is reached by a history of
   * events; build(history) replays it on a fresh real object and returns
   * {canon, enabled:[events], ...}; check(state, history) throws on violation.
   */
  async bfs(name, { build, check, depth, maxStates = Infinity }) {
    const s = this.section(name);
    if (this.replay && this.replay.section !== name) return;
    if (this.remote && !(await this.remote.want(name))) return; // one process searches, there is nothing to deal out
    const run = async (h) => {
      const c = this._chooser([], Infinity);
      try {
        const st = await build(h, c);
        await check?.(st, h, c);
        return { st };
      } catch (e) {
        if (e instanceof Violation) return { v: e };
        if (e?.harness) throw e;
        return { v: new Violation(`exception:${e?.name ?? "error"}`, `unexpected exception ${excerpt(e)}`) };
      }
    };
    if (this.replay) {
      const r = await run(this.replay.trail);
      if (r.v) this.violate(name, r.v.key, r.v.message, this.replay.trail);
      return;
    }
    const seen = new Set();
    const record = (r, h) => {
      s.executions++; this.executions++;
      if (r.v) { this.violate(name, r.v.key, `${r.v.message}\n  history: ${short(h, 1500)}`, h); s.outcomes.add("VIOLATION"); return false; }
      s.outcomes.add(createHash("sha1").update(r.st.canon).digest("base64"));
      return true;
    };
    let frontier = [];
    const r0 = await run([]);
    if (record(r0, [])) { seen.add(r0.st.canon); frontier.push({ h: [], en: r0.st.enabled }); s.states++; this.states++; }
    for (let d = 0; d < depth && frontier.length; d++) {
      const next = [];
      for (const { h, en } of frontier) {
        for (const ev of en) {
          const h2 = [...h, ev];
          const r = await run(h2);
          s.transitions++; this.transitions++;
          if (!record(r, h2)) { if (this.violations.size >= 25 || this.settled) { this.exhaustive = false; return; } continue; }
          if (!seen.has(r.st.canon)) {
            seen.add(r.st.canon);
            s.states++; this.states++;
            if (s.states >= maxStates) { s.truncated = true; this.exhaustive = false; return; }
            next.push({ h: h2, en: r.st.enabled });
            if (this.samples.length < 40 && s.states <= 4) this.samples.push({ section: name, history: short(h2, 300), state: short(r.st.canon, 200) });
          }
        }
      }
      frontier = next;
      s.depth = d + 1;
    }
    s.frontierLeft = frontier.length;
  }
}

export function loadKnown(id) {
  const f = path.join(VERIF, "known_findings.txt");
  if (!existsSync(f)) return [];
  const out = [];
  for (const line of readFileSync(f, "utf8").split("\n")) {
    const m = /^KNOWN-FINDING: property=(\S+) key=(\S+) (.*)$/.exec(line);
    if (m && m[1] === id) out.push({ key: m[2], text: m[3] });
  }
  return out;
}

export function finish(ctx, meta) {
  const known = loadKnown(ctx.id);
  const dir = path.join(VERIF, ".out", "replay");
  mkdirSync(dir, { recursive: true });
  mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
  let bad = 0;
  const usedKnown = new Set();
  let n = 0;
  for (const [k, v] of ctx.violations) {
    const kf = known.find((x) => x.key === k.replace(/\s+/g, "_"));
    if (kf) { usedKnown.add(kf.key); console.log(`KNOWN-FINDING: property=${ctx.id} ${kf.text}`); continue; }
    const file = path.join(dir, `${ctx.id}-${n++}.json`);
    writeFileSync(file, JSON.stringify({ property: ctx.id, section: v.section, key: v.key, message: v.msg, trail: v.trail }, null, 1));
    bad++;
    console.log(`VIOLATION property=${ctx.id} replay=${file}`);
    console.log(`  [${k}] ${v.msg.slice(0, 3000)}`);
  }
  const sections = {};
  let vacuous = [];
  for (const [name, s] of Object.entries(ctx.sections)) {
    sections[name] = { states: s.states, transitions: s.transitions, executions: s.executions, distinct_outcomes: s.outcomes.size, truncated: s.truncated, ...(s.depth ? { depth: s.depth, unexplored_frontier: s.frontierLeft } : {}) };
    if (s.executions > 1 && s.outcomes.size < 2 && !ctx.replay) vacuous.push(name);
  }
  const ev = {
    property: ctx.id,
    tier: ctx.tier,
    seed: ctx.seed,
    level: "model_checking",
    coverage: {
      states: ctx.states,
      transitions: ctx.transitions,
      executions: ctx.executions,
      traces_validated_against_impl: ctx.executions,
      assertions_evaluated: ctx.checks,
      replays_for_determinism: ctx.replayChecked,
      exhaustive: ctx.exhaustive,
      single_outcome_sections: vacuous,
      sections,
      bounds: meta.bounds ?? "",
      samples: ctx.samples.slice(0, 12),
    },
    assumptions: ctx.assumptions,
    wall_s: (Date.now() - ctx.t0) / 1000,
    violations: bad,
  };
  if (!ctx.replay) writeFileSync(path.join(VERIF, "evidence", `${ctx.id}.json`), JSON.stringify(ev, null, 1));
  console.log(`${ctx.id} ${ctx.tier}: states=${ctx.states} transitions=${ctx.transitions} executions=${ctx.executions} assertions=${ctx.checks} violations=${bad} wall=${ev.wall_s.toFixed(1)}s`);
  for (const [name, s] of Object.entries(sections)) console.log(`  ${name}: states=${s.states} transitions=${s.transitions} executions=${s.executions} outcomes=${s.distinct_outcomes}${s.truncated ? " TRUNCATED" : ""}`);
  return bad ? 1 : 0;
}
