import { app } from "../lib/app.mjs";
import { DIR, DISPATCH, NP, NodePing, PAGE, REPORT, SECRET, cstate, env } from "../lib/fixtures/status.mjs";

export const meta = { parallel: true, bounds: "every history of 3 minutes of maintenance on the status page (none, announced, about to start, started, of another kind, two at once) over checks of which some stay disabled or are added, with up to 1 (quick) / 2 (thorough) failing, cut or lost answers, then a minute without failures; every set of six components within 3 / 4 deviations in both orders, with and without maintenance; every hourly update of the checks of two apps within 2 / 3 deviations of specification, configuration, altered checks and failing, cut or lost answers, then two updates without failures" };
const NOW = Date.UTC(2024, 1, 20, 10), S = 1000, MIN = 60 * S;
const sortedKeys = (o) => JSON.stringify(o, (k, v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort(([p], [q]) => (p < q ? -1 : 1))) : v));

export async function run(ctx) {
  const a = await app({ maintenance: `${DIR}lambda/handle-maintenance/lambda-handle-maintenance.ts`, states: `${DIR}lambda/check-component-states/lambda-check-component-states.ts`,
    service: `${DIR}service/status-service.ts`, nodeping: `${DIR}api/nodeping-api.ts`, digitraffic: `${DIR}api/digitraffic-api.ts`, props: `${DIR}app-props.ts`, secrets: "lib/digitraffic-common/src/aws/runtime/secrets/secret-holder.ts" });
  let net;
  const create = () => a.start({ env, now: NOW, secret: SECRET, fetch: (r) => net(r) });
  const FATES = ctx.thorough ? ["ok", "500", "lost", "cut", "network"] : ["ok", "500", "lost"];
  /** the outside world; fates: one per request of a run, retries share it */
  const world = (c, o) => {
    const q = { np: new NodePing(), triggers: [], notes: [], armed: true, fates: new Map(), faults: 0, ...o };
    net = async (r) => {
      const key = `${r.method} ${r.url.replace(/\?customerid=.*/, "")}`, text = r.method === "GET" ? "" : await r.clone().text(), body = text ? JSON.parse(text) : undefined;
      const id = `${key} ${text && !/disableall/.test(key) ? body.label ?? body.id ?? body.name ?? "" : ""}`;
      const values = r.method === "GET" ? FATES.filter((f) => f !== "lost") : FATES;
      if (!q.fates.has(id)) { q.fates.set(id, q.armed ? c.deviate(`${q.round} ${id}`, values) : "ok"); if (q.fates.get(id) !== "ok") q.faults++; }
      const fate = q.fates.get(id);
      if (fate === "500") return new Response("no", { status: 500 });
      if (fate === "network") throw new TypeError("fetch failed");
      const answer = r.url.startsWith(NP) ? q.np.answer(c, r, body) : r.url === `${PAGE}/index.json` ? q.page() : r.url === REPORT ? (q.notes.push(body.text), "ok") : r.url.startsWith("https://api.github.com/") ? (q.triggers.push([r.url, r.headers.get("authorization"), body]), {}) : q.specs?.[r.url];
      if (fate === "lost") return new Response("no", { status: 500 });
      if (fate === "cut") return new Response('{"paths":', { headers: { "content-type": "application/json" } });
      return answer === undefined ? new Response("no", { status: 404 }) : Response.json(answer);
    };
    return q;
  };

  // ---- maintenance turns the checks off and on, and the page is told ----
  await ctx.explore("maintenance", async (c) => {
    const x = create(), m = await x.m;
    const q = world(c, {});
    const labels = ["Road /api/a", "Marine /api/b", "Rail MQTT"];
    for (const l of labels) q.np.add({ label: l, state: l === "Rail MQTT" ? 0 : 1 });
    for (const id of c.deviate("checks that stay disabled", [[], ["np-2"], ["np-1", "np-3"]])) q.np.stuck.add(id);
    const issue = (kind, start) => ({ is: "issue", title: `${kind} break`, createdAt: cstate(start), lastMod: cstate(start), permalink: `${PAGE}/issues/${kind}/${new Date(start).toISOString().slice(0, 10)}/`, affected: [], filename: "x.md" });
    const STATES = { none: () => [], started: (t) => [issue("digitraffic-maintenance", t - 5 * MIN)], "starting within a minute": (t) => [issue("digitraffic-maintenance", t + 59 * S)], announced: (t) => [issue("digitraffic-maintenance", t + MIN + S)], other: (t) => [issue("maintenance", t - 5 * MIN)], "other and started": (t) => [issue("maintenance", t - 6 * MIN), issue("digitraffic-maintenance", t + 24 * 60 * MIN), issue("digitraffic-maintenance", t - 5 * MIN)] };
    const rounds = 3;
    let owed, trace = [];
    for (let i = 0; i <= rounds; i++) {
      q.round = i; q.fates.clear(); q.faults = 0; q.armed = i < rounds; q.notes.length = 0;
      const name = i < rounds ? c.choose(`minute ${i}`, Object.keys(STATES)) : c.choose("last", ["none", "started"]);
      if (i && c.deviate(`new check ${i}`, [false, true])) q.np.add({ label: `Road /api/new${i}` });
      x.w.now = Math.max(x.w.now, NOW + i * 5 * MIN);
      const now = x.w.now, issues = STATES[name](now);
      const active = issues.find((s) => s.permalink.includes("digitraffic-maintenance") && Date.parse(s.createdAt.slice(0, 23).replace(" ", "T") + "Z") < now + MIN);
      q.page = () => ({ baseURL: PAGE, pinnedIssues: issues, systems: [] });
      const on = () => [...q.np.checks.values()].filter((k) => k.enable === "active").map((k) => k.label);
      const before = on(), had = q.triggers.length;
      if (active) { if (before.length) owed = active.permalink; } else owed = undefined;
      const r = await x.w.settle(m.maintenance.handler());
      trace.push(`${name}: ${before.length} -> ${on().length} of ${q.np.checks.size}`);
      const what = () => trace.join("; ");
      c.check(!r.hung, "hangs", "");
      c.check(r.ok || q.faults, "run-failed", () => `${String(r.error)}; ${what()}`);
      const fresh = q.triggers.slice(had);
      if (!active || q.fates.get(`GET ${PAGE}/index.json `) !== "ok") {
        c.check(before.every((l) => on().includes(l)), "disabled-without-maintenance", what);
        c.equal(fresh, [], "trigger-without-maintenance", what());
      }
      if (active || q.fates.get(`GET ${PAGE}/index.json `) !== "ok") c.check(on().every((l) => before.includes(l)), "enabled-in-maintenance", what);
      for (const t of fresh) c.equal(t, [DISPATCH("update_maintenance.yml"), "token pat", { ref: "refs/heads/main", inputs: { baseUrl: PAGE, permalink: active.permalink } }], "trigger", what());
      if (fresh.length) owed = undefined;
      if (q.faults) continue;
      if (active) {
        c.equal(on(), [], "checks-enabled-in-maintenance", what());
        c.check(!owed, "page-not-told", () => `${owed} started, but its update was never triggered; ${what()}`);
        c.equal(q.notes.length, before.length ? 1 : 0, "notifications", what());
      } else {
        c.equal(on().length, q.np.checks.size, "checks-left-disabled", what());
        c.equal(q.notes.length, before.length < q.np.checks.size ? 1 : 0, "notifications", what());
      }
    }
    return trace.at(-1);
  }, { bound: ctx.thorough ? 2 : 1 });

  // ---- differences between the page and the checks ----
  const COMPONENTS = [["Road /api/foo/v1/bar", "road/api/foo/v1/bar"], ["/api/bare/v1", "marine/api/bare/v1"], ["Rail Data is Up To Date", "rail/data-is-up-to-date"], ["Rail infra-api Swagger", "rail/infra-api/swagger"], ["Rail Swagger UI", "rail/swagger-ui"], ["Road Swagger UI", "road/swagger-ui"]];
  await ctx.explore("states", async (c) => {
    const x = create(), m = await x.m;
    const q = world(c, { armed: false });
    const want = [], systems = [], checks = [];
    const maintenance = c.choose("maintenance", [false, true]), reversed = c.choose("reversed", [false, true]);
    for (const [label, name] of COMPONENTS) {
      const check = c.deviate(`check ${label}`, ["up", "down", "none"]), system = c.deviate(`system ${name}`, ["ok", "down", "disrupted", "none"]);
      if (check !== "none") checks.push({ label, state: check === "up" ? 1 : 0 });
      if (system !== "none") systems.push({ name, status: system, category: "Road", description: "" });
      if (check !== "none" && system === "none") want.push(`${label}: cState Statuspage system missing`);
      if (check === "none" && system !== "none") want.push(`${name}: NodePing check missing`);
      if (maintenance || check === "none" || system === "none") continue;
      if (check === "up" && system === "down") want.push(`${name}: NodePing check is UP, cState statuspage component is DOWN`);
      if (check === "down" && system !== "down") want.push(`${name}: NodePing check is DOWN, cState statuspage component is UP`);
    }
    if (c.deviate("beta", [false, true])) checks.push({ label: "Road /api/beta/v1/x", state: 1 });
    for (const k of reversed ? checks.reverse() : checks) q.np.add(k);
    if (reversed) systems.reverse();
    q.page = () => ({ baseURL: PAGE, systems, pinnedIssues: maintenance ? [{ title: "t", createdAt: cstate(NOW - MIN), permalink: `${PAGE}/issues/digitraffic-maintenance/1/` }] : [] });
    const r = await x.w.settle(m.states.handler());
    c.check(r.ok, "handler-failed", () => String(r.error));
    c.equal(q.notes.length, want.length ? 1 : 0, "notifications", `${want}`);
    c.equal((q.notes[0] ?? "").split("\n").filter(Boolean).sort(), want.sort(), "report");
    c.equal(q.np.writes, [], "changed");
    return want.length;
  }, { bound: ctx.thorough ? 4 : 3 });

  // ---- the checks follow the specifications ----
  const P = (name, required, def) => ({ name, in: "query", required, schema: def === undefined ? {} : { default: def } });
  await ctx.explore("checks", async (c) => {
    const x = create(), m = await x.m;
    const q = world(c, {});
    const { EndpointProtocol: { HTTP, WebSocket }, EndpointHttpMethod: { GET, POST } } = m.props;
    const rounds = 2;
    const changedUrl = c.deviate("changed address of", [undefined, "Rail MQTT", "/api/raw", "Rail GraphQL", "Road Swagger UI"]), changedAt = changedUrl ? 1 : 9;
    const newPath = c.deviate("path added later", [false, true]);
    const param = c.deviate("parameters", ["default", "list", "none of them required", "no default", "two"]);
    const PARAMS = { default: [[P("from", true, "2024")], "?from=2024"], list: [[P("id", true, ["1", "2"])], "?id=1&id=2"], "none of them required": [[P("from", false)], ""], "no default": [[P("from", true), P("to", true, "1")], undefined], two: [[P("a", true, "1"), P("b", false, "9"), P("c", true, ["x"])], "?a=1&c=x"] };
    const extraOrder = c.deviate("order of apps", [false, true]);
    const extras = (i) => {
      const url = (name, u) => (name === changedUrl && i >= changedAt ? `${u}/v2` : u);
      return { Road: [{ name: "Road Swagger UI", url: url("Road Swagger UI", "https://tie/swagger/"), protocol: HTTP }, { name: "/api/raw", url: url("/api/raw", "https://tie/api/raw/1.csv"), protocol: HTTP, method: GET, contentstring: "101" }],
        Rail: [{ name: "Rail MQTT", url: url("Rail MQTT", "wss://rata/mqtt"), protocol: WebSocket }, { name: "Rail GraphQL", url: url("Rail GraphQL", "https://rata/graphql"), protocol: HTTP, method: POST, sendData: '{"query":1}' }, { name: "Rail up to date", url: "https://rata/last-updated", protocol: HTTP, method: GET, contentstring: "false", invert: true }] };
    };
    const paths = (i) => ({ "/api/z": { get: {} }, "/api/a": { get: { parameters: PARAMS[param][0] } }, "/api/c/{id}": { get: {} }, "/api/post": { post: {} }, "/api/beta/x": { get: {} }, "/api/excluded": { get: {} }, "/api/raw": { get: { parameters: [P("q", true)] } }, ...(newPath && i ? { "/api/new": { get: {} } } : {}) });
    const apps = (i) => { const l = [{ name: "Road", hostPart: "https://tie", url: "https://tie/openapi.json", excluded: ["/api/excluded"], endpoints: extras(i).Road }, { name: "Rail", hostPart: "https://rata", url: "https://rata", excluded: [], hasOpenApiSpec: false, endpoints: extras(i).Rail }]; return extraOrder ? l.reverse() : l; };
    const expected = (i, github) => {
      const plain = ["/api/z", ...(PARAMS[param][1] === undefined ? [] : [`/api/a${PARAMS[param][1]}`]), ...(newPath && i ? ["/api/new"] : [])].map((e) => ({ label: `Road ${e}`, target: `https://tie${e}` }));
      const extra = Object.entries(extras(i)).flatMap(([n, l]) => l.map((e) => ({ label: e.name.includes(n) ? e.name : `${n} ${e.name}`, target: e.url, e })));
      return [...plain, ...extra].map(({ label, target, e }) => ({ label, target, type: e?.protocol === WebSocket ? "WEBSOCKET" : "HTTPADV", method: e?.protocol === WebSocket ? "any" : e?.method ?? "HEAD", enable: "active", interval: 1, threshold: 30,
        headers: { "accept-encoding": "gzip", "digitraffic-user": "internal-digitraffic-status", ...(e?.sendData ? { "content-type": "application/json" } : {}) }, contacts: ["slack-1", "slack-2", github].sort(), postdata: e?.sendData ?? null, contentstring: e?.contentstring ?? null, invert: e?.contentstring ? e.invert ?? false : null })).sort((s, t) => (s.label < t.label ? -1 : 1)).map(sortedKeys);
    };
    const found = () => [...q.np.checks.values()].map((k) => ({ label: k.label, target: k.parameters.target, type: k.type, method: k.type === "WEBSOCKET" ? "any" : k.parameters.method, enable: k.enable, interval: k.interval, threshold: k.parameters.threshold, headers: k.parameters.sendheaders, contacts: k.notifications.flatMap((n) => Object.keys(n)).sort(), postdata: k.parameters.postdata ?? null, contentstring: k.parameters.contentstring ?? null, invert: k.parameters.invert ?? null })).sort((s, t) => (s.label < t.label ? -1 : 1)).map(sortedKeys);
    const ALTER = { nothing: () => {}, threshold: (k) => { k.parameters.threshold = 5; }, interval: (k) => { k.interval = 15; }, method: (k) => { k.parameters.method = "PUT"; }, "no headers": (k) => { delete k.parameters.sendheaders; }, "other user": (k) => { k.parameters.sendheaders = { "Digitraffic-User": "me" }; }, "no contacts": (k) => { k.notifications = []; }, "one more contact": (k) => { k.notifications = [...k.notifications, { other: { delay: 0, schedule: "All" } }]; }, "deleted": (k) => { q.np.checks.delete(k._id); } };
    const trace = [];
    for (let i = 0; i < rounds + 2; i++) {
      q.round = i; q.fates.clear(); q.faults = 0; q.armed = i < rounds; q.np.writes.length = 0;
      q.specs = { "https://tie/openapi.json": { paths: paths(i) } };
      if (i === 1) {
        const how = c.deviate("altered", Object.keys(ALTER));
        if (how !== "nothing") { const l = c.choose("which", ["Road /api/z", "Road Swagger UI", "Road /api/raw", "Rail GraphQL", ...(["method", "no headers", "other user"].includes(how) ? [] : ["Rail MQTT"])]), k = [...q.np.checks.values()].find((s) => s.label === l); if (k) ALTER[how](k); }
      }
      const holder = m.secrets.SecretHolder.create();
      const r = await x.w.settle(m.service.updateComponentsAndChecks(apps(i), new m.digitraffic.DigitrafficApi(), new m.nodeping.NodePingApi(holder, 25000, 30, 1), holder, "own", "status", "main", "update_status.yml"));
      c.check(!r.hung, "hangs", "");
      trace.push(`${r.ok ? "done" : "failed"}, ${q.faults} failures, ${q.np.writes.length} changes`);
      c.check(r.ok || q.faults, "run-failed", () => `${String(r.error)} ${trace.join("; ")}`);
      c.check(new Set([...q.np.checks.values()].map((k) => k.label)).size === q.np.checks.size, "check-twice", () => trace.join("; "));
      if (q.faults) continue;
      c.equal([...q.np.contacts.values()].map((k) => [k.name, k.custrole, Object.values(k.addresses)]), [["GitHub Actions for status main", "notify", [{ address: DISPATCH("update_status.yml"), type: "webhook", action: "post", headers: { Accept: "application/vnd.github+json", "Content-Type": "application/vnd.github+json", Authorization: "token pat" }, data: { ref: "refs/heads/main" } }]]], "contacts");
      c.equal(found(), expected(i, Object.keys([...q.np.contacts.values()][0].addresses)[0]), "checks", trace.join("; "));
      if (i === rounds + 1) c.equal(q.np.writes, [], "not-settled", trace.join("; "));
    }
    return trace[0];
  }, { bound: ctx.thorough ? 3 : 2 });
}
