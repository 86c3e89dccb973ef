// xml2js with its default options, for well-formed documents without CDATA: parseString(Promise) and Builder
const un = (s) => s.replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&quot;/g, '"').replace(/&apos;/g, "'").replace(/&#x([0-9a-f]+);/gi, (_, h) => String.fromCodePoint(parseInt(h, 16))).replace(/&#(\d+);/g, (_, d) => String.fromCodePoint(+d)).replace(/&amp;/g, "&");
/** tree of a well-formed document: {name, attrs, nodes: [element | string]}; throws on anything else */
export function tree(text) {
  const re = /<\?[^]*?\?>|<!--[^]*?-->|<(\/?)([A-Za-z_][\w.:-]*)((?:\s+[\w.:-]+\s*=\s*(?:"[^"<]*"|'[^'<]*'))*)\s*(\/?)>|([^<]+)/gy;
  const root = { nodes: [] };
  const stack = [root];
  re.lastIndex = 0;
  for (let at = 0; at < text.length; at = re.lastIndex) {
    const m = re.exec(text);
    if (!m) throw new Error(`malformed XML at ${at}: ${text.slice(at, at + 30)}`);
    if (m[5] !== undefined) {
      if (/&(?!(?:lt|gt|quot|apos|amp|#\d+|#x[0-9a-f]+);)/i.test(m[5])) throw new Error("malformed XML: bare ampersand");
      if (stack.length === 1 && /\S/.test(m[5])) throw new Error("malformed XML: text outside the root");
      stack.at(-1).nodes.push(un(m[5])); continue;
    }
    if (m[2] === undefined) continue;
    if (m[1]) { const e = stack.pop(); if (e.name !== m[2]) throw new Error(`malformed XML: unexpected close tag ${m[2]}`); continue; }
    const e = { name: m[2], attrs: {}, nodes: [] };
    for (const a of m[3].matchAll(/([\w.:-]+)\s*=\s*(?:"([^"]*)"|'([^']*)')/g)) { if (a[1] in e.attrs) throw new Error("malformed XML: duplicate attribute"); e.attrs[a[1]] = un(a[2] ?? a[3]); }
    if (stack.length === 1 && root.nodes.some((n) => typeof n !== "string")) throw new Error("malformed XML: two roots");
    stack.at(-1).nodes.push(e);
    if (!m[4]) stack.push(e);
  }
  if (stack.length !== 1) throw new Error("malformed XML: unclosed tag");
  return root.nodes.find((n) => typeof n !== "string");
}
export const elements = (e) => e.nodes.filter((n) => typeof n !== "string");
export const textOf = (e) => e.nodes.map((n) => (typeof n === "string" ? n : textOf(n))).join("");

function value(e) {
  const o = {};
  if (Object.keys(e.attrs).length) o.$ = e.attrs;
  for (const k of elements(e)) (o[k.name] ??= []).push(value(k));
  const text = e.nodes.filter((n) => typeof n === "string").join("");
  if (!/^\s*$/.test(text)) { if (!Object.keys(o).length) return text; o._ = text; }
  return Object.keys(o).length ? o : text;
}
export function parse(text) { const e = tree(text); return e ? { [e.name]: value(e) } : null; }
export const parseString = (text, opts, cb) => { if (typeof opts === "function") cb = opts; let v; try { v = parse(String(text)); } catch (e) { cb(e); return; } cb(null, v); };
export const parseStringPromise = (text) => new Promise((ok, no) => parseString(text, (e, v) => (e ? no(e) : ok(v))));

const esc = (s) => String(s).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
function build(name, v) {
  if (Array.isArray(v)) return v.map((x) => build(name, x)).join("");
  if (v === null || typeof v !== "object") return v === "" || v === null || v === undefined ? `<${name}/>` : `<${name}>${esc(v)}</${name}>`;
  const attrs = Object.entries(v.$ ?? {}).map(([k, x]) => ` ${k}="${esc(x).replace(/"/g, "&quot;")}"`).join("");
  const inner = Object.entries(v).filter(([k]) => k !== "$").map(([k, x]) => (k === "_" ? esc(x) : build(k, x))).join("");
  return inner ? `<${name}${attrs}>${inner}</${name}>` : `<${name}${attrs}/>`;
}
export class Builder {
  constructor(o = {}) { this.o = o; }
  buildObject(v) {
    let name = this.o.rootName;
    if (!name) { const k = Object.keys(v); if (k.length === 1) { name = k[0]; v = v[name]; } else name = "root"; }
    return (this.o.headless ? "" : '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n') + build(name, v);
  }
}
export default { parseString, parseStringPromise, Builder };

/** the part of @rgrove/parse-xml in use: elements with name, attributes, children and text */
export class XmlNode {}
export class XmlText extends XmlNode { constructor(t) { super(); this.text = t; } }
export class XmlElement extends XmlNode { constructor(e) { super(); this.name = e.name; this.attributes = e.attrs; this.children = e.nodes.map((n) => (typeof n === "string" ? new XmlText(n) : new XmlElement(n))); } get text() { return this.children.map((n) => n.text).join(""); } }
export function parseXml(text) { const e = tree(text); if (!e) throw new Error("Root element is missing or invalid"); return { root: new XmlElement(e) }; }
