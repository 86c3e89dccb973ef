// Generates properties.jsonl and MANIFEST.json from props/*.mjs
import { readdirSync, readFileSync, writeFileSync, existsSync } from "node:fs";
const props = [], na = [];
for (const f of readdirSync("/verif/props").sort()) {
  const m = await import(`/verif/props/${f}`);
  props.push(...(m.default ?? []));
  na.push(...(m.notApplicable ?? []));
}
props.sort((a, b) => (a.id < b.id ? -1 : 1));
const lines = [], checks = [];
for (const p of props) {
  for (const f of p.anchors.files) if (!existsSync(`/repo/${f}`)) throw new Error(`${p.id}: no ${f}`);
  if (p.title.length > 80) throw new Error(`${p.id} title ${p.title.length}`);
  if (!p.na && !existsSync(`/verif/checks/${p.id}.mjs`)) { console.error("no check for", p.id); continue; }
  lines.push(JSON.stringify({ id: p.id, title: p.title, statement: p.statement, quantifier: { over: p.over, text: p.text }, why_tests_cant: p.why, anchors: p.anchors }));
  if (p.na) { na.push({ property: p.id, reason: p.na }); continue; }
  const m = await import(`/verif/checks/${p.id}.mjs`);
  p.bounds = m.meta.bounds;
  checks.push({ property: p.id, quick_cmd: `node /verif/run.mjs ${p.id}`, thorough_cmd: `node /verif/run.mjs ${p.id} --thorough`, technique: `explicit-state model checking of the implementation: ${p.how}`, level: "model_checking", level_note: `exhaustive within: ${m.meta.bounds}` });
}
writeFileSync("/verif/properties.jsonl", lines.join("\n") + "\n");
writeFileSync("/verif/MANIFEST.json", JSON.stringify({ version: 1, setup_cmd: "node /verif/setup.mjs", checks, not_applicable: na, notes: "Checks bundle the sources of /repo with esbuild on every run and explore the real code; no hooks in /repo." }, null, 1) + "\n");
const per = props.map((p) => `### ${p.id} ${p.title}\n\n${p.statement}\n\n*Decided by*: ${p.how}${p.bounds ? " *Bounds*: " + p.bounds : ""}\n\n*Beyond the tests*: ${p.why}\n${p.notes ? "\n*Notes*: " + p.notes + "\n" : ""}`);
const read = (f) => readFileSync(`/verif/design/${f}`, "utf8");
writeFileSync("/verif/DESIGN.md", readdirSync("/verif/design").sort().map((f) => (f === "10-properties.md" ? read(f) + "\n" + per.join("\n") : read(f))).join("\n"));
console.log(props.length, "properties", checks.length, "checks");
