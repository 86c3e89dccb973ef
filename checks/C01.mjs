import { bundle } from "../lib/bundle.mjs";
import { World } from "../lib/world.mjs";

export const meta = { bounds: "every history of up to 6 (quick) / 9 (thorough) events over two consumers; every secret document of the alphabet" };

const TTL = 5 * 60 * 1000;

// the real object's own state, instants taken relative to now, so that states that differ only inside the implementation are not merged
function implState(o, w) {
  const seen = new Set();
  return JSON.stringify(o, (_k, v) => {
    if (v && typeof v === "object") { if (seen.has(v)) return "cycle"; seen.add(v); }
    if (typeof v === "string" && /^\d{4}-\d\d-\d\dT/.test(v)) { const d = Date.parse(v); return d ? `t${Math.max(d - w.now, -1)}` : "t0"; }
    if (typeof v === "number" && v > 1e12) return `t${Math.max(v - w.now, -1)}`;
    if (typeof v === "function") return "fn";
    return v;
  });
}

export async function run(ctx) {
  const b = await bundle(
    {
      holder: "lib/digitraffic-common/src/aws/runtime/secrets/secret-holder.ts",
      rds: "lib/digitraffic-common/src/aws/runtime/secrets/rds-holder.ts",
      proxy: "lib/digitraffic-common/src/aws/runtime/secrets/proxy-holder.ts",
      secret: "lib/digitraffic-common/src/aws/runtime/secrets/secret.ts",
    },
    { stubs: ["@aws-sdk/client-secrets-manager", "pg-promise"] },
  );
  const start = Date.UTC(2024, 0, 1);

  function setup(env = {}) {
    const w = new World({ now: start, env: { SECRET_ID: "the-secret", AWS_REGION: "eu-west-1", ...env } });
    const calls = [];
    const clients = [];
    class SecretsManager {
      constructor(cfg) { clients.push(cfg); }
      getSecretValue(input) {
        calls.push(input);
        return w.external("fetch", input);
      }
      send(cmd) { return this.getSecretValue(cmd.input); }
    }
    class GetSecretValueCommand { constructor(input) { this.input = input; } }
    const m = b.instantiate(w, { "@aws-sdk/client-secrets-manager": { SecretsManager, SecretsManagerClient: SecretsManager, GetSecretValueCommand } });
    return { w, m, calls, clients };
  }

  // ---- cache protocol: two readers of one holder, secret rotation, failures, time ----
  const doc = (v) => ({ "p.a": `a${v}`, "p.b": `b${v}`, other: `o${v}` });
  for (const ttlS of [undefined, 2, 3600]) {
    const ttl = (ttlS ?? 300) * 1000;
    const kinds = ["get", "ok", "ok2", "fail", "fail2", "empty", "rotate", "t1", "tHalf", "tTtlMinus", "tTtlPlus"];
    await ctx.bfs(`cache ttl=${ttlS ?? "default"}`, {
      depth: ctx.thorough ? 9 : 6,
      build: async (h, c) => {
        const { w, m, calls } = setup();
        const holder = ttlS === undefined ? new m.holder.SecretHolder("the-secret") : new m.holder.SecretHolder("the-secret", "", [], { ttl: ttlS });
        let version = 1;
        const current = [{ v: 1, from: start, to: Infinity }];
        let fetchedAt = -Infinity; // completion of the last successful fetch
        let fetchedV;
        let gets = 0;
        const open = [];
        for (const ev of h) {
          if (ev === "get") {
            const before = calls.length;
            const rec = { at: w.now, id: gets++ };
            open.push(rec);
            rec.p = holder.get().then((value) => { rec.done = { ok: true, value }; }, (error) => { rec.done = { ok: false, error }; });
            await w.quiesce();
            const fetched = calls.length - before;
            const age = w.now - fetchedAt;
            if (age < ttl) {
              c.equal(fetched, 0, "refetch-while-fresh", `age ${age}`);
              c.check(rec.done?.ok === true, "fresh-not-served", `cached secret is ${age} ms old and was not served`);
            } else if (age > ttl) {
              c.check(!rec.done, "expired-served", () => `secret ${age} ms old (ttl ${ttl}) was answered without a fetch`);
              rec.fetch = true;
              if (!w.externals.length) c.fail("no-fetch", "expired and no fetch is outstanding");
            } else if (!rec.done) rec.fetch = true;
            if (rec.done?.ok) c.equal(rec.done.value, doc(fetchedV), "wrong-cached-value");
          } else if (/^(ok|fail|empty)/.test(ev)) {
            const okEv = ev.startsWith("ok");
            const x = w.takeExternal(ev.endsWith("2") ? 1 : 0);
            c.equal(x.data.SecretId, "the-secret", "secret-id");
            if (okEv) x.resolve({ SecretString: JSON.stringify(doc(version)) });
            else if (ev !== "empty") x.reject(new Error("AccessDenied"));
            else x.resolve({});
            await w.quiesce();
            if (okEv) { fetchedAt = w.now; fetchedV = version; }
            const settled = open.filter((r) => r.done && !r.seen);
            if (okEv) {
              c.check(settled.length >= 1, "fetch-not-delivered", "successful fetch answered no reader");
              for (const r of settled) c.check(r.done.ok, "failed-after-success", () => `reader failed after a successful fetch: ${r.done.error}`);
              for (const r of settled) c.equal(r.done.value, doc(version), "wrong-value");
            } else {
              c.check(settled.length >= 1, "failure-not-delivered", "failed fetch answered no reader");
              for (const r of settled) c.check(!r.done.ok, "failure-hidden", () => `a failed fetch was answered with ${JSON.stringify(r.done.value)}`);
            }
            for (const r of settled) r.seen = true;
          } else if (ev === "rotate") {
            version++;
          } else w.now += ev === "t1" ? 1 : ev === "tHalf" ? ttl / 2 : ev === "tTtlMinus" ? ttl - 1 : ttl + 1;
          for (const r of open) if (r.done && !r.seen) r.seen = true;
        }
        const pending = open.filter((r) => !r.done).length;
        c.equal(w.externals.length > 0, pending > 0, "reader-hangs", `pending readers ${pending}, outstanding fetches ${w.externals.length}`);
        const enabled = kinds.filter((k) => {
          if (k === "get") return pending < 2;
          if (k.endsWith("2")) return w.externals.length > 1;
          if (k === "ok" || k === "fail" || k === "empty") return w.externals.length > 0;
          if (k === "rotate") return h[h.length - 1] !== "rotate" && version < 4;
          return true;
        });
        const rel = fetchedAt === -Infinity ? "none" : Math.min(w.now - fetchedAt, ttl + 1);
        return { canon: JSON.stringify([rel, version - (fetchedV ?? 0), version, pending, w.externals.length, h.slice(-3), implState(holder, w)]), enabled };
      },
    });
  }

  // ---- prefix and expected keys over every small document ----
  const values = [undefined, "x", "y"];
  await ctx.explore("prefix and expected keys", async (c) => {
    const { w, m } = setup();
    const d = {};
    for (const k of ["p.a", "p.b", "p", "pp.a", "q.p.a", "a", "p.c.d"]) {
      const v = c.choose(k, ["p.a", "a", "p.b"].includes(k) ? values : [undefined, "z"]);
      if (v !== undefined) d[k] = v;
    }
    const prefix = c.choose("prefix", ["", "p"]);
    const keys = c.choose("keys", [[], ["a"], ["a", "b"], ["c.d"]]);
    const via = c.choose("via", ["new", "create"]);
    const holder = via === "new" ? new m.holder.SecretHolder("the-secret", prefix, keys) : m.holder.SecretHolder.create(prefix, keys);
    const p = holder.get();
    p.catch(() => {});
    await Promise.resolve();
    for (let i = 0; i < 5 && !w.externals.length; i++) await Promise.resolve();
    c.check(w.externals.length === 1, "no-fetch", "no fetch issued");
    w.takeExternal(0).resolve({ SecretString: JSON.stringify(d) });
    const r = await w.settle(p);
    const want = {};
    for (const k of Object.keys(d)) {
      if (!prefix) want[k] = d[k];
      else if (k.startsWith("p.")) want[k.slice(2)] = d[k];
    }
    const missing = keys.filter((k) => !(k in want));
    if (missing.length) {
      c.check(!r.ok && !r.hung, "missing-key-accepted", () => `keys ${missing} are missing and get() answered ${JSON.stringify(r.value)}`);
      return "missing";
    }
    c.check(r.ok, "rejected", () => `get() failed: ${r.error}`);
    c.equal(r.value, want, "wrong-view");
    return want;
  });

  // ---- database credentials reach the right environment variables ----
  for (const which of ["rds", "proxy"]) {
    const hk = which === "rds" ? ["host", "ro_host"] : ["proxy_host", "proxy_ro_host"];
    await ctx.explore(`credentials ${which}`, async (c) => {
      const { w, m } = setup();
      const d = {};
      for (const k of ["username", "password", "host", "ro_host", "proxy_host", "proxy_ro_host"]) if (c.bool(k)) d[k] = `v-${k}`;
      const fault = c.choose("fault", ["none", "fail", "empty"]);
      const H = which === "rds" ? m.rds.RdsHolder : m.proxy.ProxyHolder;
      const p = H.create().setCredentials();
      p.catch(() => {});
      await w.quiesce();
      c.check(w.externals.length === 1, "no-fetch", "no fetch");
      const x = w.takeExternal(0);
      if (fault === "fail") x.reject(new Error("x"));
      else x.resolve(fault === "empty" ? {} : { SecretString: JSON.stringify(d) });
      const r = await w.settle(p);
      const ok = fault === "none" && ["username", "password", ...hk].every((k) => k in d);
      c.equal(r.ok, ok, "credentials-result", String(r.error));
      const env = w.env;
      if (ok) {
        c.equal([env.DB_USER, env.DB_PASS, env.DB_URI, env.DB_RO_URI], [d.username, d.password, d[hk[0]], d[hk[1]]], "credentials-env");
      } else c.equal([env.DB_USER, env.DB_PASS, env.DB_URI, env.DB_RO_URI], [undefined, undefined, undefined, undefined], "partial-credentials");
      return ok ? "ok" : "refused";
    });
  }

  // ---- single value from environment or secret; region override ----
  await ctx.explore("env or secret", async (c) => {
    const envValue = c.choose("environment", [undefined, "env", ""]), inEnv = envValue !== undefined;
    const override = c.choose("override", [undefined, "us-east-1"]);
    const inSecret = c.bool("inSecret");
    const fault = c.choose("fault", ["none", "fail", "empty"]);
    const { w, m, clients } = setup({ ...(inEnv ? { K: envValue } : {}), ...(override ? { SECRET_OVERRIDE_AWS_REGION: override } : {}) });
    const p = m.secret.getFromEnvOrSecret("K", "sid");
    p.catch(() => {});
    await w.quiesce();
    if (!inEnv) {
      c.equal(w.externals.length, 1, "no-fetch");
      c.equal(clients.map((x) => x.region), [override ?? "eu-west-1"], "region");
      const x = w.takeExternal(0);
      c.equal(x.data.SecretId, "sid", "secret-id");
      if (fault === "fail") x.reject(new Error("x"));
      else x.resolve(fault === "empty" ? {} : { SecretString: JSON.stringify(inSecret ? { K: "sec", L: "n" } : { L: "n" }) });
    } else c.equal(w.externals.length, 0, "fetch-although-in-env");
    const r = await w.settle(p);
    const want = inEnv ? envValue : fault === "none" && inSecret ? "sec" : undefined;
    if (want === undefined) c.check(!r.ok, "invented-value", String(r.value));
    else c.equal(r.value, want, "value");
    return want ?? "error";
  });
  ctx.assume("AWS Secrets Manager is replaced by a stand-in whose answers (value, absence, failure) and delivery times the explorer chooses");
}
