// One exploration shared by several processes.  Each process runs the whole check; a section's choice tree is dealt
// out in subtrees (a prefix of choices): an idle process makes a busy one hand over the shallowest alternatives it has
// not begun.  Together they run exactly the executions one process would, each once.
import { fork } from "node:child_process";
import { availableParallelism } from "node:os";

/** the worker's side */
export function remote(ctx) {
  let answer;
  const r = { hungry: false,
    want: (section) => new Promise((done) => { answer = done; process.send({ want: section }); }),
    offer(section, prefixes) { r.hungry = false; process.send({ offer: prefixes, section }); },
    broken() { process.send({ broken: true }); } };
  process.on("message", (m) => {
    if (m.split) r.hungry = true;
    else if (m.bye) process.exit(0);
    else if (m.broken) ctx.broken ??= Date.now();
    else { r.hungry = false; answer(m.job); }
  });
  process.on("disconnect", () => process.exit(3));
  return r;
}
export function report(ctx, error) {
  const sections = Object.fromEntries(Object.entries(ctx.sections).map(([k, s]) => [k, { ...s, outcomes: [...s.outcomes] }]));
  const { states, transitions, executions, checks, replayChecked, samples, assumptions, exhaustive } = ctx;
  // the process ends when the coordinator has it all
  return new Promise(() => process.send({ result: { states, transitions, executions, checks, replayChecked, samples, assumptions, exhaustive, sections, violations: [...ctx.violations] }, error }));
}

/** the coordinator's side: fills ctx with what the workers found; resolves to the errors of workers */
export function coordinate(ctx, script, args) {
  const n = Math.max(2, Math.min(7, availableParallelism()));
  const sections = new Map(); // name -> {queue, active: workers, waiting: workers}
  const of = (name) => { if (!sections.has(name)) sections.set(name, { queue: [{ prefix: [], root: true }], active: new Set(), waiting: new Set() }); return sections.get(name); };
  const errors = [];
  return new Promise((finished) => {
    const workers = Array.from({ length: n }, () => ({ child: fork(script, [...args, "--worker"]), at: undefined, asked: false, ended: false }));
    const send = (w, m) => { if (w.child.connected) w.child.send(m, () => {}); };
    const serve = (s) => {
      for (const w of [...s.waiting]) {
        if (!s.queue.length) break;
        s.waiting.delete(w); s.active.add(w); w.asked = false;
        send(w, { job: s.queue.shift() });
      }
      if (s.waiting.size && !s.queue.length && !s.active.size) { for (const w of s.waiting) send(w, {}); s.waiting.clear(); }
      else if (s.waiting.size) for (const w of s.active) if (!w.asked) { w.asked = true; send(w, { split: true }); }
    };
    const leave = (w) => { const s = w.at; w.at = undefined; if (s) { s.active.delete(w); s.waiting.delete(w); serve(s); } };
    for (const w of workers) {
      w.child.on("message", (m) => {
        if (m.want !== undefined) { const s = of(m.want); if (w.at !== s) leave(w); w.at = s; s.active.delete(w); s.waiting.add(w); serve(s); }
        else if (m.offer) { const s = of(m.section); w.asked = false; for (const prefix of m.offer) s.queue.push({ prefix, root: false }); serve(s); }
        else if (m.broken) { for (const o of workers) if (o !== w) send(o, { broken: true }); }
        else if (m.result) { w.ended = true; if (m.error) errors.push(m.error); merge(ctx, m.result); leave(w); send(w, { bye: true }); }
      });
      w.child.on("exit", (code, signal) => {
        if (!w.ended) errors.push(`a worker ended with ${signal ?? code}`);
        leave(w);
        w.gone = true;
        if (workers.every((o) => o.gone)) finished(errors);
      });
    }
  });
}
function merge(ctx, r) {
  for (const k of ["states", "transitions", "executions", "checks", "replayChecked"]) ctx[k] += r[k];
  ctx.exhaustive &&= r.exhaustive;
  for (const s of r.assumptions) if (!ctx.assumptions.includes(s)) ctx.assumptions.push(s);
  ctx.samples.push(...r.samples.slice(0, 2));
  for (const [k, v] of r.violations) if (!ctx.violations.has(k)) ctx.violations.set(k, v);
  for (const [name, s] of Object.entries(r.sections)) {
    const t = ctx.section(name);
    for (const k of ["states", "transitions", "executions"]) t[k] += s[k];
    for (const o of s.outcomes) t.outcomes.add(o);
    t.truncated ||= s.truncated;
    if (s.depth) Object.assign(t, { depth: s.depth, frontierLeft: s.frontierLeft });
  }
}
