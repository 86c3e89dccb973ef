import { app } from "../lib/app.mjs";
import { tree, elements } from "../lib/xml2js.mjs";

export const meta = { bounds: "every text over 12 characters up to length 5 (quick) / 6 (thorough); every text made of an optional bracket pair, a prefix in three spellings and its near misses, and every body over 18 symbols up to length 2 (3), at lengths around the limit; every single symbol with its near misses" };
// the documented symbols
const SINGLES = { RAMPPI: ["RAMP", 48], LAIVA_VASEN: ["HARBOUR", 48], LAIVA_OIKEA: ["HARBOUR", 48], LENTOKONE_VASEN: ["AIRPORT", 48], LENTOKONE_OIKEA: ["AIRPORT", 48], LENTOKONE_YLOS: ["AIRPORT", 48], LENTOKONE_ALAS: ["AIRPORT", 48],
  NUOLI_VASEN: ["ARROW_LEFT", 32], NUOLI_OIKEA: ["ARROW_RIGHT", 32], NUOLI_YLOS: ["ARROW_UP", 32], NUOLI_ALAS: ["ARROW_DOWN", 32], NUOLI_VASENYLOS: ["ARROW_TOP_LEFT", 32], NUOLI_OIKEAYLOS: ["ARROW_TOP_RIGHT", 32], NUOLI_VASENALAS: ["ARROW_BOTTOM_LEFT", 32], NUOLI_OIKEAALAS: ["ARROW_BOTTOM_RIGHT", 32] };
const PREFIX = { TIE_: ["ROAD", ["BEGIN", 5]], VARATIE_: ["DETOUR", ["BEGIN", 5]], VARAREITTI_: ["DIVERSION", ["BEGIN", 5]], RAMPPI_: ["ROAD", ["RAMP", 30]] };
const CHARS = "0123456789ABCDEF";
const charOf = (ch) => (/[0-9]/.test(ch) ? [`n${ch}`, 16] : [ch, 20]);

/** symbols [name, width][] with the style of their borders, or undefined for a text that is not allowed */
export function expected(text) {
  let t = text;
  if (t.startsWith("[")) { if (!t.endsWith("]")) return undefined; t = t.slice(1, -1); }
  if (/[[\]]/.test(t) || t.length < 1 || t.length > 30 || t.split("_").length > 2) return undefined;
  t = t.toUpperCase();
  if (Object.hasOwn(SINGLES, t)) return { style: "SINGLE", id: t, symbols: [SINGLES[t]] };
  let style = "PLAIN", first = [], end = [];
  const p = t.indexOf("_");
  if (p >= 0) {
    const k = t.slice(0, p + 1);
    if (!Object.hasOwn(PREFIX, k)) return undefined;
    [style, first] = PREFIX[k]; first = [first]; end = [["END", 5]];
    t = t.slice(p + 1);
  }
  if ([...t].some((ch) => !CHARS.includes(ch))) return undefined;
  return { style, symbols: [...first, ...[...t].map(charOf), ...end] };
}

export async function run(ctx) {
  const a = await app({ image: "road/variable-signs/src/lambda/get-sign-image/get-sign-image.ts" });
  const x = a.start({});
  const seen = new Map(); // style and symbol -> its drawing
  const content = (e) => JSON.stringify(elements(e).map((k) => [k.name, Object.entries(k.attrs), elements(k).length]));
  const ask = async (c, text) => {
    const want = expected(text);
    const r = await x.w.settle(x.m.image.handler({ text }));
    x.w.stdout.length = 0;
    c.check(r.ok, "threw", () => `${JSON.stringify(text)}: ${r.error}`);
    const q = JSON.stringify(text);
    c.equal(r.value.status, want ? 200 : 400, "status", () => q);
    if (!want) { c.check(!/<svg/.test(Buffer.from(r.value.body, "base64").toString()), "image-of-invalid-text", () => q); return "400"; }
    c.check(Date.parse(r.value.timestamp) >= Date.UTC(2022, 10, 24) && Date.parse(r.value.timestamp) % 1000 === 0, "timestamp", () => r.value.timestamp);
    const svg = Buffer.from(r.value.body, "base64").toString();
    let root; try { root = tree(svg); } catch (e) { c.fail("malformed", `${q}: ${e.message}: ${svg.slice(0, 300)}`); }
    c.equal([root.name, root.attrs.xmlns], ["svg", "http://www.w3.org/2000/svg"], "root");
    let at = 0;
    const uses = want.symbols.map(([n, w]) => { const u = [`#${n}`, String(at), String(w)]; at += w; return u; });
    c.equal(root.attrs.viewBox, `0 0 ${at} 32`, "size", () => q);
    const kids = elements(root);
    c.equal(kids.filter((k) => k.name === "use").map((k) => [k.attrs.href, k.attrs.x, k.attrs.width]), uses, "symbols", () => `${q}: ${svg.slice(-600)}`);
    const defs = kids.filter((k) => k.name === "symbol");
    const width = new Map(want.symbols);
    c.equal(defs.map((d) => d.attrs.id).sort(), [...width.keys()].sort(), "definitions", () => q);
    c.equal(kids.length, uses.length + defs.length, "other-content", () => q);
    for (const d of defs) {
      c.equal([d.attrs.width, d.attrs.height, d.attrs.viewBox], [String(width.get(d.attrs.id)), "32", `0 0 ${width.get(d.attrs.id)} 32`], "symbol-size", () => q);
      c.check(elements(d).length > 0, "empty-symbol", () => `${q}: ${d.attrs.id}`);
      const key = `${want.style} ${want.id ?? d.attrs.id}`, drawing = content(d);
      c.equal(seen.get(key) ?? drawing, drawing, "drawn-differently", () => key);
      seen.set(key, drawing);
    }
    return `200 ${want.symbols.length}`;
  };

  const alphabet = ["1", "a", "_", "[", "]", "T", "I", "E", "x", "<", "ä", "%"];
  await ctx.explore("short texts", async (c) => {
    let t = "";
    const n = ctx.thorough ? 6 : 5;
    for (let i = 0; i < n; i++) { const ch = c.choose("char", ["", ...alphabet]); if (ch === "") break; t += ch; }
    return ask(c, t);
  }, { replayEvery: 997 });

  await ctx.explore("roads", async (c) => {
    const p = c.choose("prefix", [...Object.keys(PREFIX), "", "TIE", "ATIE_", "TIE__", "_", "ROAD_", "DETOUR_", "SINGLE_", "LAIVA_", "END_", "BEGIN_"]);
    const prefix = c.choose("spelling", [(s) => s, (s) => s.toLowerCase(), (s) => s[0] + s.slice(1).toLowerCase()].slice(0, p ? 3 : 1))(p);
    let t = "";
    const n = ctx.thorough ? 3 : 2;
    for (let i = 0; i < n; i++) { const ch = c.choose("char", ["", ...CHARS, "e", "G"]); if (ch === "") break; t += ch; }
    const [open, close] = c.choose("brackets", [["", ""], ["[", "]"], ["[", ""], ["", "]"], ["[[", "]]"], ["[", "]]"]]);
    return ask(c, open + prefix + t + close);
  }, { replayEvery: 997 });

  await ctx.explore("lengths", async (c) => {
    const prefix = c.choose("prefix", [...Object.keys(PREFIX), ""]);
    const n = c.choose("length", [1, 2, 10, 28, 29, 30, 31, 32, 60]);
    if (n < prefix.length) c.prune();
    const at = c.choose("other at", ["none", "first", "last"]);
    let t = (prefix + c.choose("char", ["1", "F", "0"]).repeat(n)).slice(0, n);
    const other = c.choose("other", ["c", "G", "_", "&"]);
    if (at === "first") t = prefix + other + t.slice(prefix.length + 1, n); else if (at === "last") t = t.slice(0, -1) + other;
    const [open, close] = c.choose("brackets", [["", ""], ["[", "]"]]);
    return ask(c, open + t + close);
  });

  await ctx.explore("single symbols", async (c) => {
    const s = c.choose("symbol", [...Object.keys(SINGLES), "END", "BEGIN", "RAMP", "HARBOUR", "NUOLI", "NUOLI_", "constructor", "__proto__", "toString"]);
    const t = c.choose("spelling", [(v) => v, (v) => v.toLowerCase(), (v) => v[0] + v.slice(1).toLowerCase(), (v) => v.slice(1), (v) => v.slice(0, -1), (v) => `${v}1`, (v) => `1${v}`, (v) => ` ${v}`, (v) => `TIE_${v}`, (v) => `${v}_`, (v) => v.replace("_", "")])(s);
    const [open, close] = c.choose("brackets", [["", ""], ["[", "]"], ["[", ""], ["", "]"]]);
    return ask(c, open + t + close);
  });

  // a symbol looks different from every other one of its style, and a character keeps its shape inside borders
  await ctx.explore("drawings", async (c) => {
    for (const ch of CHARS) for (const p of ["", "TIE_", "VARATIE_", "VARAREITTI_"]) await ask(c, p + ch);
    for (const s of Object.keys(SINGLES)) await ask(c, s);
    const style = c.choose("style", ["PLAIN", "ROAD", "DETOUR", "DIVERSION", "SINGLE"]);
    const mine = [...seen].filter(([k]) => k.startsWith(`${style} `));
    for (const [k, d] of mine) for (const [k2, d2] of mine) c.check(k === k2 || d !== d2, "same-drawing", () => `${k} and ${k2}`);
    for (const ch of CHARS) {
      const n = charOf(ch)[0], plain = JSON.parse(seen.get(`PLAIN ${n}`)).map((q) => JSON.stringify(q));
      if (["ROAD", "DETOUR", "DIVERSION"].includes(style)) {
        const drawn = JSON.parse(seen.get(`${style} ${n}`)).map((q) => JSON.stringify(q));
        c.check(plain.every((q) => drawn.includes(q)) && drawn.length > plain.length, "character-changed", () => `${style} ${n}`);
        for (const other of ["ROAD", "DETOUR", "DIVERSION"]) c.check(other === style || seen.get(`${other} ${n}`) !== seen.get(`${style} ${n}`), "same-borders", () => `${n} ${style} ${other}`);
      }
    }
    return style + mine.length;
  });
}
