// The monitoring service and the settings of the status application.
export const DIR = "other/status/src/";
export const NP = "https://api.nodeping.com/api/1", PAGE = "https://status.example", REPORT = "https://slack.example/report";
export const SECRET = { nodePingToken: "np-token", nodePingSubAccountId: "np-account", nodePingContactIdSlack1: "slack-1", nodePingContactIdSlack2: "slack-2", reportUrl: REPORT, gitHubPat: "pat" };
export const env = { CHECK_TIMEOUT_SECONDS: "30", INTERVAL_MINUTES: "1", GITHUB_WORKFLOW_FILE: "update_status.yml", GITHUB_UPDATE_MAINTENANCE_WORKFLOW_FILE: "update_maintenance.yml", GITHUB_BRANCH: "main", GITHUB_OWNER: "own", GITHUB_REPO: "status", C_STATE_PAGE_URL: PAGE };
export const DISPATCH = (file) => `https://api.github.com/repos/own/status/actions/workflows/${file}/dispatches`;
export const cstate = (t) => `${new Date(t).toISOString().replace("T", " ").replace("Z", "")}123 +0000 UTC`;

/** the NodePing account: checks and contacts */
export class NodePing {
  constructor() { this.checks = new Map(); this.contacts = new Map(); this.n = 0; this.writes = []; this.stuck = new Set(); }
  add(check) { const _id = `np-${++this.n}`; this.checks.set(_id, { _id, enable: "active", state: 1, interval: 1, notifications: [], type: "HTTPADV", ...check, parameters: { target: "t", method: "HEAD", threshold: 30, sendheaders: {}, ...(check.parameters ?? {}) } }); return _id; }
  /** answers a request; body: the parsed body */
  answer(c, r, body) {
    const u = new URL(r.url), path = u.pathname.replace("/api/1", "");
    if (r.method === "GET") {
      c.equal([u.searchParams.get("customerid"), r.headers.get("authorization")], ["np-account", `Basic ${Buffer.from("np-token").toString("base64")}`], "credentials");
      return path === "/checks" ? Object.fromEntries(this.checks) : path === "/contacts" ? Object.fromEntries(this.contacts) : undefined;
    }
    c.equal([body.customerid, body.token], ["np-account", "np-token"], "credentials");
    this.writes.push(`${r.method} ${path}${u.search} ${body.label ?? body.id ?? body.name ?? ""}`);
    if (r.method === "POST" && path === "/contacts") {
      const id = `c-${++this.n}`;
      this.contacts.set(id, { _id: id, name: body.name, custrole: body.custrole, addresses: Object.fromEntries(body.newaddresses.map((a) => [`a-${++this.n}`, a])) });
      return this.contacts.get(id);
    }
    const fields = (o) => ({ ...(body.label === undefined ? {} : { label: body.label }), type: body.type, interval: body.interval, notifications: body.notifications, parameters: { ...o, target: body.target, method: body.method, threshold: body.threshold, sendheaders: body.sendheaders, ...Object.fromEntries(["postdata", "contentstring", "invert", "regex"].filter((k) => body[k] !== undefined).map((k) => [k, body[k]])) } });
    if (r.method === "POST" && path === "/checks") return this.checks.get(this.add({ ...fields({}), enable: body.enabled ? "active" : "inactive" }));
    if (r.method === "PUT" && path === "/checks" && u.searchParams.has("disableall")) {
      const off = u.searchParams.get("disableall") === "true";
      for (const k of this.checks.values()) if (off) k.enable = "inactive"; else if (!this.stuck.has(k._id)) k.enable = "active";
      const on = [...this.checks.values()].filter((k) => k.enable === "active").length;
      return { enabled: on, disabled: this.checks.size - on, disableall: off };
    }
    const id = path.match(/^\/checks\/(.+)$/)?.[1] ?? body.id, k = this.checks.get(id);
    if (r.method !== "PUT" || !k) return undefined;
    if (body.enabled !== undefined) k.enable = body.enabled ? "active" : "inactive";
    if (body.type !== undefined) Object.assign(k, fields(k.parameters));
    return k;
  }
}
