// API Gateway's mapping templates, run with the velocity engine of the library's own dependencies.
import { libRequire } from "./bundle.mjs";
const velocity = libRequire("velocityjs");

// java.lang.String as far as templates use it
export class JString {
  constructor(s) { this.s = String(s); }
  replaceAll(re, to) { return new JString(this.s.replace(new RegExp(String(re).replace(/^\(\?i\)/, ""), "g"), String(to).replace(/\$(\d)/g, "$$$1"))); }
  replace(a, b) { return new JString(this.s.split(String(a)).join(String(b))); }
  substring(a, b) { return new JString(this.s.substring(a, b)); }
  startsWith(x) { return this.s.startsWith(String(x)); }
  isEmpty() { return this.s === ""; }
  length() { return this.s.length; }
  equals(x) { return this.s === String(x); }
  toString() { return this.s; }
}
// org.apache.commons.lang StringEscapeUtils.escapeJavaScript
export function escapeJavaScript(x) {
  if (x === undefined || x === null) return new JString("");
  let o = "";
  for (const ch of String(x).split("")) {
    const n = ch.charCodeAt(0);
    if (ch === "'" || ch === '"' || ch === "\\" || ch === "/") o += "\\" + ch;
    else if (ch === "\n") o += "\\n";
    else if (ch === "\r") o += "\\r";
    else if (ch === "\t") o += "\\t";
    else if (ch === "\b") o += "\\b";
    else if (ch === "\f") o += "\\f";
    else if (n < 32 || n > 127) o += "\\u" + n.toString(16).toUpperCase().padStart(4, "0");
    else o += ch;
  }
  return new JString(o);
}
export const util = {
  escapeJavaScript,
  base64Encode: (x) => Buffer.from(String(x)).toString("base64"),
  base64Decode: (x) => Buffer.from(String(x), "base64").toString(),
  urlDecode: (x) => decodeURIComponent(String(x)),
  urlEncode: (x) => encodeURIComponent(String(x)),
  parseJson: (x) => JSON.parse(String(x)),
};
const asts = new Map();
export function render(template, ctx) {
  if (!asts.has(template)) asts.set(template, velocity.parse(template));
  const c = new velocity.Compile(asts.get(template));
  // java.util.Map methods that velocityjs lacks for its object literals
  const add = {
    containsKey(k) { return Object.hasOwn(this, String(k)); },
    isEmpty() { return Object.keys(this).length === 0; },
  };
  for (const [k, f] of Object.entries(add)) Object.defineProperty(Object.prototype, k, { value: f, configurable: true, enumerable: false, writable: true });
  // velocityjs leaves its own `eval` on every object whose method it calls
  Object.defineProperty(Object.prototype, "eval", { get: () => undefined, set() {}, configurable: true, enumerable: false });
  try {
    const out = c.render(ctx);
    return { out, ctx: c.context };
  } finally {
    for (const k of [...Object.keys(add), "eval"]) delete Object.prototype[k];
  }
}
/** lambda's return value -> what the HTTP client gets */
export function response(template, lambdaResult, contentType, status = 200) {
  const root = JSON.parse(JSON.stringify(lambdaResult));
  const { out, ctx } = render(template, {
    input: { path: (p) => (p === "$" ? root : undefined), body: JSON.stringify(root) },
    util,
    context: { responseOverride: { status: undefined, header: {} } },
  });
  const ov = ctx.context.responseOverride;
  const headers = { "Content-Type": contentType };
  for (const [k, v] of Object.entries(ov.header)) if (v !== undefined) headers[k] = String(v);
  return { status: ov.status ?? status, headers, body: out };
}
/** HTTP request -> event given to the lambda */
export function request(template, req) {
  const first = (o) => Object.fromEntries(Object.entries(o ?? {}).map(([k, v]) => [k, Array.isArray(v) ? v[v.length - 1] : v]));
  const groups = { querystring: first(req.query), path: req.path ?? {}, header: req.headers ?? {} };
  const { out } = render(template, {
    input: { body: req.body ?? "{}", params: (n) => (n === undefined ? groups : groups.path[n] ?? groups.querystring[n] ?? groups.header[n] ?? ""), path: () => req.body, json: () => req.body },
    method: { request: { multivaluequerystring: Object.fromEntries(Object.entries(req.query ?? {}).map(([k, v]) => [k, Array.isArray(v) ? v : [v]])) } },
    util,
    context: req.context ?? {},
  });
  return out;
}
