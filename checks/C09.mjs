import { bundle } from "../lib/bundle.mjs";
import { World } from "../lib/world.mjs";

export const meta = { parallel: true, bounds: "every level and up to 2 fields from the value alphabet, under every configuration, message, error and stack differing from the default in at most 2 (quick) / any (thorough) of the four; thorough also 3 fields" };

export async function run(ctx) {
  const b = await bundle({
    lg: "lib/digitraffic-common/src/aws/runtime/dt-logger.ts",
    log: "lib/digitraffic-common/src/utils/logging.ts",
    lead: "lib/digitraffic-common/src/utils/lead-time-logging.ts",
    slack: "lib/digitraffic-common/src/utils/slack.ts",
  }, { stubs: ["ky"] });
  const ISO = "2024-02-29T23:59:58.999Z";
  // value, its JSON form, its text in the message
  const values = [
    ["text", "abc", "abc", "abc"], ["eq", "foo=bar", "foo=bar", '"foo=bar"'], ["quote", 'a"b\n\\ä', 'a"b\n\\ä', 'a"b\n\\ä'], ["empty", "", "", ""],
    ["num", 12.5, 12.5, "12.5"], ["zero", 0, 0, "0"], ["big", 12345678901234567890n, "12345678901234567890", '"?12345678901234567890"?'],
    ["true", true, true, "true"], ["false", false, false, "false"], ["null", null, null, "null"], ["undef", undefined, undefined, "undefined"],
    ["date", new Date(ISO), ISO, ISO], ["baddate", new Date(NaN), null, ".*"],
  ];
  const keys = [["customFoo", "foo"], ["customRetryCount", "retryCount"], ["customXY", "xY"], ["type", "type"], ["tookMs", "tookMs"], ["customCustomX", "customX"]];
  const esc = (s) => s.replace(/[.*+?^${}()|[\]\\]/g, "\\$&");

  for (const [name, nf, bound] of ctx.thorough ? [["two fields, every context", 2, Infinity], ["three fields, up to 1 deviation", 3, 1]] : [["two fields, up to 2 deviations", 2, 2]]) await ctx.explore(name, (c) => {
    const cfg = c.deviate("config", ["env", "none", "given"]);
    const w = new World({ env: cfg === "env" ? { AWS_LAMBDA_FUNCTION_NAME: "env-fn", AWS_EXECUTION_ENV: "env-rt" } : {} });
    const { lg } = b.instantiate(w);
    const own = [];
    const logger = cfg === "given" ? new lg.DtLogger({ lambdaName: "given-fn", runTime: "given-rt", writeStream: { write: (s) => own.push(s) } }) : new lg.DtLogger();
    const level = c.choose("level", ["info", "warn", "error"]);
    const msg = { method: "Cls.method" };
    const m = c.deviate("message", [undefined, "", "text", 'multi\nline "q" ä', "called Cls.method here", "pre foo=1 end"]);
    if (m !== undefined) msg.message = m;
    const e = c.deviate("error", [undefined, "err", "text", "object", "big"]);
    const err = new TypeError("bad thing");
    if (e === "err") msg.error = err;
    if (e === "text") msg.error = "text error";
    if (e === "object") msg.error = { code: 1, d: [null] };
    if (e === "big") msg.error = { code: 10n };
    const st = c.deviate("stack", [undefined, "given stack", "long stack\n    at line\n".repeat(3000)]);
    if (st) msg.stack = st;
    const fields = [];
    let from = 0;
    for (let i = 0; i < nf; i++) {
      const k = c.choose(`field${i}`, keys.length - from + 1);
      if (k === 0) break;
      const [key, outKey] = keys[from + k - 1];
      from += k;
      const v = key === "type" ? values[c.choose("value", 3)] : key === "tookMs" ? values[4 + c.choose("value", 2)] : values[c.choose("value", values.length)];
      msg[key] = v[1];
      fields.push([key, outKey, v]);
    }
    const before = { ...msg };
    const r = logger[level](msg);
    c.equal(r, undefined, "returns");
    c.equal(msg, before, "argument-changed");
    const lines = cfg === "given" ? own : w.stdout;
    c.equal([own.length + w.stdout.length, lines.length], [1, 1], "one-line");
    c.check(/^[^\n]*\n$/.test(lines[0]), "not-one-line", lines[0]);
    let p;
    try { p = JSON.parse(lines[0]); } catch (x) { c.fail("not-json", lines[0]); }
    c.equal([p.level, p.method], [level.toUpperCase(), "Cls.method"], "level-method");
    c.equal([p.lambdaName, p.runtime], { env: ["env-fn", "env-rt"], none: ["unknown lambda name", "unknown runtime"], given: ["given-fn", "given-rt"] }[cfg], "origin");
    c.equal(p.error, { err: "TypeError: bad thing", text: "text error", object: '{"code":1,"d":[null]}', big: '{"code":"10"}' }[e], "error");
    c.equal(p.stack, st ? st : e === "err" ? err.stack : undefined, "stack");
    const known = new Set(["method", "message", "level", "error", "stack", "lambdaName", "runtime"]);
    for (const [, k, v] of fields) {
      known.add(k);
      if (v[2] === undefined) c.check(!(k in p) || p[k] === null, "field", k);
      else { c.check(k in p, "field-lost", k); c.equal(p[k], v[2], "field", k); }
    }
    c.equal(Object.keys(p).filter((k) => !known.has(k)), [], "unknown-field");
    // the text: method, original message, every field not already in it
    const base = m?.includes("Cls.method") ? m : `Cls.method ${m ?? ""}`;
    let pat = esc(base);
    for (const [, k, v] of fields) if (!base.includes(`${k}=`)) pat += ` ${esc(k)}=${v[3] === ".*" ? ".*" : v[0] === "big" ? v[3] : esc(v[3])}`;
    c.check(new RegExp(`^${pat}$`, "s").test(p.message), "message-text", () => `${JSON.stringify(p.message)} does not match ${pat}`);
    return lines[0].length + p.message;
  }, { sync: true, bound });

  await ctx.explore("two lines", (c) => {
    const w = new World({});
    const { lg } = b.instantiate(w);
    const logger = new lg.DtLogger();
    const ops = ["info", "warn", "error", "debug"];
    const seq = [];
    for (let i = 0; i < (ctx.thorough ? 4 : 3); i++) {
      const o = c.choose("op", ops);
      const f = c.choose("f", [{}, { customA: i }, { customB: `v${i}` }]);
      seq.push([o, f]);
      if (o === "debug") logger.debug({ i, ...f });
      else logger[o]({ method: "A.b", message: `m${i}`, ...f });
    }
    c.equal(w.stdout.length, seq.length, "one-line-each");
    w.stdout.forEach((l, i) => {
      const p = JSON.parse(l);
      const [o, f] = seq[i];
      c.equal(p.level, o.toUpperCase(), "level");
      if (o === "debug") c.equal(p.message, { i, ...f }, "debug-message");
      else {
        c.equal([p.a, p.b], [f.customA, f.customB], "fields-leak");
        c.equal(p.message, `A.b m${i}${"customA" in f ? ` a=${i}` : ""}${"customB" in f ? ` b=v${i}` : ""}`, "message");
      }
    });
    return w.stdout.join("");
  }, { sync: true });

  await ctx.explore("debug values", (c) => {
    const w = new World({});
    const { lg } = b.instantiate(w);
    const [v, want] = c.choose("value", [["text", "text"], [{ a: 1 }, { a: 1 }], [null, null], [undefined, undefined], [10n, "10"], [{ d: new Date(ISO) }, { d: ISO }], [[1, "x\n"], [1, "x\n"]]]);
    new lg.DtLogger().debug(v);
    c.equal(w.stdout.length, 1, "one-line");
    c.check(/^[^\n]*\n$/.test(w.stdout[0]), "one-line", "");
    const p = JSON.parse(w.stdout[0]);
    c.equal([p.level, p.message], ["DEBUG", want], "debug");
    return p;
  }, { sync: true });

  const errors = (c) => c.choose("error", [["err", new Error("boom x"), "boom x"], ["noMsg", new Error(""), ""], ["sub", new RangeError("r\n\"q\""), "r\n\"q\""], ["text", "plain", "plain"], ["obj", { code: 7 }, '{"code":7}'], ["undef", undefined, "undefined"], ["null", null, "null"], ["num", 3, "3"], ["deep", Object.assign(new Error("deep"), { stack: `Error: deep\n${"    at f (file.ts:1:1)\n".repeat(2000)}` }), "deep"]]);
  await ctx.explore("exceptions", (c) => {
    const w = new World({ env: c.bool("named") ? { AWS_LAMBDA_FUNCTION_NAME: "fn9" } : {} });
    const name = w.env.AWS_LAMBDA_FUNCTION_NAME ?? "test";
    const { lg, log } = b.instantiate(w);
    const own = [];
    const logger = new lg.DtLogger({ writeStream: { write: (s) => own.push(s) } });
    const [kind, err, text] = errors(c);
    const stack = c.choose("stack", [undefined, true, false]);
    const via = c.choose("via", ["direct", "curried", "curried-default"]);
    if (via === "direct") log.logException(logger, err, stack);
    if (via === "curried") log.createExceptionLogger(logger, stack)(err);
    if (via === "curried-default") log.createExceptionLogger(undefined, stack)(err);
    const lines = via === "curried-default" ? w.stdout : own;
    c.equal([lines.length, own.length + w.stdout.length], [1, 1], "one-line");
    const p = JSON.parse(lines[0]);
    c.equal([p.level, p.type, p.method], ["ERROR", "Error", `${name}.logException`], "fields");
    c.equal(p.stack, stack && err instanceof Error ? err.stack : undefined, "stack");
    c.equal(p.message, `${name}.logException error=${text} type=Error`, "message");
    return [kind, stack, p.message];
  }, { sync: true });

  await ctx.explore("lead times", (c) => {
    const w = new World({});
    const { lead } = b.instantiate(w);
    const vals = [undefined, 0, 5, -3, 1.5, NaN, Infinity, 2 ** 53];
    const o = { target: "tgt" };
    const l = c.choose("lead", vals), p = c.choose("process", vals);
    if (l !== undefined) o.leadTimeMs = l;
    if (p !== undefined) o.processTimeMs = p;
    const extra = c.choose("extra", [undefined, { customSource: "mqtt" }, { customN: 4n, customWhen: new Date(NaN) }]);
    if (extra) o.extraFields = extra;
    lead.logLeadTimes(o);
    const got = w.stdout.map((x) => JSON.parse(x)).map((x) => [x.level, x.name, x.target, x.tookMs, x.leadTime, x.source, x.n]);
    const row = (n, v) => ["INFO", n, "tgt", v, true, extra?.customSource, extra?.customN !== undefined ? "4" : undefined];
    c.equal(got, [...(Number.isSafeInteger(l) ? [row("lead-time", l)] : []), ...(Number.isSafeInteger(p) ? [row("process-time", p)] : [])], "lead-times");
    return got;
  }, { sync: true });

  await ctx.explore("slack", async (c) => {
    const w = new World({});
    const posts = [];
    const way = c.choose("post", ["ok", "reject", "reject-text", "throw", "hang-then-fail", "hang-then-ok"]);
    const ky = { default: { post: (url, o) => {
      posts.push([url, o]);
      if (way === "ok") return Promise.resolve({});
      if (way === "reject") return Promise.reject(new Error("down"));
      if (way === "reject-text") return Promise.reject("down");
      if (way === "throw") throw new Error("down");
      return w.external("post");
    } }, __esModule: true };
    const { slack } = b.instantiate(w, { ky });
    const text = c.choose("text", ["hi", "", 'q"ä\n']);
    const p = new slack.SlackApi("http://hook/x").notify(text);
    if (way.startsWith("hang")) {
      let done = false;
      p.then(() => (done = true), () => (done = true));
      await w.quiesce();
      c.check(!done, "not-awaited", "");
      const x = w.takeExternal(0);
      if (way === "hang-then-ok") x.resolve({}); else x.reject(new Error("late"));
    }
    const r = await w.settle(p);
    c.check(r.ok, "slack-throws", String(r.error));
    c.equal(posts.length, 1, "one-post");
    c.equal([posts[0][0], posts[0][1].json], ["http://hook/x", { text }], "post");
    const errs = w.stdout.map((l) => JSON.parse(l)).filter((l) => l.level === "ERROR");
    c.equal(errs.length, way === "ok" || way === "hang-then-ok" ? 0 : 1, "failure-logged");
    return way;
  });

  await ctx.explore("truncation", (c) => {
    const { log } = b.instantiate(new World({}));
    const max = c.choose("max", ctx.thorough ? 60 : 40);
    const len = c.choose("len", ctx.thorough ? 150 : 100);
    const s = Array.from({ length: len }, (_, i) => String.fromCharCode(97 + (i % 26))).join("");
    const mid = c.bool("middle");
    const out = (mid ? log.truncateMiddle : log.truncateEnd)(s, max);
    const n = len - max;
    if (out === s) { c.check(n <= `[TRUNCATED ${n} CHARS]`.length + 2, "not-truncated", `${len} characters, limit ${max}`); return "same"; }
    c.check(len > max, "truncated-fitting", "");
    const m = mid ? /^([a-z]*) \[TRUNCATED (\d+) CHARS\] ([a-z]*)$/.exec(out) : /^([a-z]*) \[TRUNCATED (\d+) CHARS\]$/.exec(out);
    c.check(m, "format", out);
    c.equal(Number(m[2]), n, "count");
    const [a, z] = [m[1], m[3] ?? ""];
    c.equal(a.length + z.length, max, "kept");
    c.check(s.startsWith(a) && s.endsWith(z), "content", out);
    if (mid) c.check(Math.abs(a.length - z.length) <= 1, "middle", out);
    return out;
  }, { sync: true });
}
