import { bundle } from "../lib/bundle.mjs";
import { World } from "../lib/world.mjs";

export const meta = { bounds: "every geometry of up to 3 rings/polygons with up to 3 points over the coordinate alphabet; every pair of positions of a 15 degree (quick) / 9 degree (thorough) grid that contains the poles, the equator and both meridians" };

export async function run(ctx) {
  const b = await bundle({ g: "lib/digitraffic-common/src/utils/geometry.ts", t: "lib/digitraffic-common/src/utils/geojson-types.ts", s: "lib/digitraffic-common/src/types/geojson.ts" });
  const w = new World({});
  const { g, t, s } = b.instantiate(w);

  // a tiny WKT reader
  const parse = (wkt) => {
    const m = /^([A-Z]+)\s*(EMPTY|\(.*\))$/s.exec(wkt);
    if (!m) return undefined;
    if (m[2] === "EMPTY") return [m[1], "EMPTY"];
    const json = m[2].replace(/-?\d[\d.eE+-]*(?: -?\d[\d.eE+-]*)+/g, (x) => `"${x}"`).replace(/\(/g, "[").replace(/\)/g, "]");
    const conv = (v) => (typeof v === "string" ? v.split(" ").map(Number) : v.map(conv));
    try { return [m[1], conv(JSON.parse(json))]; } catch { return undefined; }
  };
  const nums = [0, 25.123456789, -60.5, 180];
  const pos = (c) => { const p = [c.choose("x", nums), c.choose("y", nums.slice(0, 3))]; return p; };
  const pos3 = (c) => { const p = pos(c); if (c.bool("z")) p.push(7.5); return p; };
  let n = 0;
  const fresh = () => { n++; return [n % 180, -(n % 90) / 4]; };
  const ring = (k) => { const r = Array.from({ length: k }, fresh); return [...r, r[0]]; };
  const gen = (c) => {
    n = 0;
    const type = c.choose("type", ["Point", "LineString", "Polygon", "MultiPolygon"]);
    if (type === "Point") return { type, coordinates: pos3(c) };
    if (type === "LineString") return { type, coordinates: Array.from({ length: 2 + c.choose("n", 2) }, () => pos(c)) };
    const rings = () => Array.from({ length: 1 + c.choose("rings", 3) }, () => ring(3 + c.choose("points", 2)));
    if (type === "Polygon") return { type, coordinates: rings() };
    return { type, coordinates: Array.from({ length: 1 + c.choose("polys", 3) }, rings) };
  };
  const flat2 = (v) => (typeof v[0] === "number" ? v.slice(0, 2) : v.map(flat2));
  await ctx.explore("WKT", (c) => {
    const geo = gen(c);
    const before = JSON.stringify(geo);
    const wkt = g.createGeometry(geo);
    const p = parse(wkt);
    c.check(p, "not-wkt", wkt);
    const want = geo.type === "Point" ? [flat2(geo.coordinates)] : flat2(geo.coordinates);
    c.equal(p, [geo.type.toUpperCase(), want], "wkt-content", wkt);
    c.equal(JSON.stringify(geo), before, "changed");
    return wkt;
  }, { sync: true });
  await ctx.explore("unsupported WKT", (c) => {
    const geo = c.choose("g", [{ type: "MultiPoint", coordinates: [[1, 2]] }, { type: "MultiLineString", coordinates: [[[1, 2], [3, 4]]] }, { type: "GeometryCollection", geometries: [] }]);
    const k = w.stdout.length;
    c.equal(parse(g.createGeometry(geo)), ["POLYGON", "EMPTY"], "unsupported");
    c.equal(w.stdout.slice(k).map((l) => JSON.parse(l).level), ["ERROR"], "unsupported-logged");
    return geo.type;
  }, { sync: true });

  await ctx.explore("GML", (c) => {
    const geo = gen(c);
    const srs = c.choose("srs", [undefined, "EPSG:3067"]);
    const before = JSON.stringify(geo);
    let r, e;
    try { r = srs ? g.createGmlLineString(geo, srs) : g.createGmlLineString(geo); } catch (x) { e = x; }
    c.equal(JSON.stringify(geo), before, "changed");
    c.equal(!!e, geo.type === "MultiPolygon", "gml-refusal", String(e));
    if (e) return "refused";
    const all = [];
    const walk = (v) => (typeof v[0] === "number" ? all.push(...v) : v.forEach(walk));
    walk(geo.coordinates);
    const got = r.posList.split(" ").map(Number);
    c.equal(r.srsName, srs ?? "EPSG:4326", "srs");
    c.equal(got.length, all.length, "gml-count");
    got.forEach((x, i) => c.check(Math.abs(x - all[i]) <= 1e-7 * Math.abs(all[i]), "gml-value", `${x} for ${all[i]}`));
    return r.posList;
  }, { sync: true });
  await ctx.explore("precision", (c) => {
    const p = [c.choose("x", [25.123456789, 0, -0.00012345678, 180]), 60.987654321];
    const d = c.choose("precision", [undefined, 2, 4, 8, 10]);
    const out = d ? g.positionToList(p, d) : g.positionToList(p);
    c.equal(out, p.map((v) => v.toPrecision(d ?? 8)).join(" "), "precision");
    return out;
  }, { sync: true });

  const step = ctx.thorough ? 9 : 15;
  const grid = [];
  for (let x = -180; x <= 180; x += step) for (let y = -90; y <= 90; y += step) grid.push([x, y]);
  const R = 6371;
  const vec = ([x, y]) => { const a = (x * Math.PI) / 180, l = (y * Math.PI) / 180; return [Math.cos(l) * Math.cos(a), Math.cos(l) * Math.sin(a), Math.sin(l)]; };
  const dist = (p, q) => { const a = vec(p), z = vec(q); const ch = Math.hypot(a[0] - z[0], a[1] - z[1], a[2] - z[2]); return 2 * R * Math.asin(Math.min(1, ch / 2)); };
  await ctx.explore("distance", (c) => {
    const p = grid[c.choose("from", grid.length)];
    for (const q of grid) {
      const d = g.distanceBetweenPositionsInKm(p, q);
      c.check(Math.abs(d - dist(p, q)) < 1e-3, "distance", () => `${p} to ${q}: ${d} km, should be ${dist(p, q)}`);
      c.check(Math.abs(d - g.distanceBetweenPositionsInKm(q, p)) < 1e-6, "asymmetric", () => `${p} ${q}`);
      c.check(Math.abs(g.distanceBetweenPositionsInM(p, q) - d * 1000) < 1e-3, "metres", "");
      c.check(g.areDistinctPositions(p, q) === (p[0] !== q[0] || p[1] !== q[1]), "distinct", () => `${p} ${q}`);
    }
    const near = [p[0] + 0.0001, p[1] > 0 ? p[1] - 0.0002 : p[1] + 0.0002];
    const dn = g.distanceBetweenPositionsInM(p, near);
    c.check(Math.abs(dn - dist(p, near) * 1000) < 0.01, "distance-near", () => `${p}: ${dn}`);
    c.check(Math.abs(g.distanceBetweenPositionsInKm([...p, 100], [...near, 5]) * 1000 - dn) < 1e-6, "altitude-counts", "");
    return dn;
  }, { sync: true });
  await ctx.explore("illegal positions", (c) => {
    const bad = c.choose("bad", [[], [1], [1, 2, 3, 4], [undefined, 1], [1, undefined]]);
    const first = c.bool("first");
    for (const f of ["distanceBetweenPositionsInKm", "distanceBetweenPositionsInM"]) {
      let e;
      try { first ? g[f](bad, [1, 2]) : g[f]([1, 2], bad); } catch (x) { e = x; }
      c.check(e instanceof Error, "illegal-accepted", JSON.stringify(bad));
    }
    return bad.length + String(first);
  }, { sync: true });

  await ctx.explore("features", (c) => {
    const geo = c.bool("null") ? null : gen(c);
    const features = Array.from({ length: c.choose("n", 3) }, (_, i) => ({ type: "Feature", geometry: geo, properties: { i } }));
    const lu = c.choose("updated", [null, new Date(5)]);
    const fc = g.createFeatureCollection(features, lu);
    c.equal(fc, { type: "FeatureCollection", lastUpdated: lu, features }, "collection");
    c.equal(g.isFeatureCollection(JSON.parse(JSON.stringify({ ...fc, features: features.map((f) => ({ ...f, geometry: geo ?? { type: "Point", coordinates: [1, 2] } })) }))), true, "is-collection");
    if (geo) {
      c.equal(g.isValidGeoJson(geo), true, "valid");
      c.equal(s.GeometrySchema.safeParse(geo).success, true, "schema");
      c.equal(s.GeometrySchema.parse(geo), geo, "schema-changes");
      c.equal(s.GeometrySchema.safeParse({ type: "GeometryCollection", geometries: [geo, geo] }).success, true, "schema-collection");
      c.equal(s.FeatureCollectionSchema.safeParse({ type: "FeatureCollection", features }).success, true, "schema-features");
    }
    c.equal(g.isFeatureCollection({ type: "Feature", geometry: geo, properties: {} }), false, "is-collection");
    return [geo, features.length, lu];
  }, { sync: true });
  const broken = [
    [{ type: "Point", coordinates: [1] }], [{ type: "Point", coordinates: ["1", "2"] }], [{ type: "Point" }], [{ type: "Points", coordinates: [1, 2] }],
    [{ type: "LineString", coordinates: [[1, 2]] }], [{ type: "LineString", coordinates: [1, 2] }], [{ type: "Polygon", coordinates: [[[1, 2], [3, 4], [1, 2]]] }], [{ type: "Polygon", coordinates: [[1, 2]] }],
    [{ type: "MultiPolygon", coordinates: [[[1, 2]]] }], [{}], [[]],
  ];
  await ctx.explore("broken geometries", (c) => {
    const [x] = c.choose("g", broken);
    c.equal(g.isValidGeoJson(x), false, "broken-valid", JSON.stringify(x));
    c.equal(s.GeometrySchema.safeParse(x).success, false, "broken-schema", JSON.stringify(x));
    c.equal(s.FeatureSchema.safeParse({ type: "Feature", geometry: x }).success, false, "broken-feature", JSON.stringify(x));
    return JSON.stringify(x);
  }, { sync: true });
  await ctx.explore("types", (c) => {
    const p = pos3(c);
    const o = new t.GeoJsonPoint(p), l = new t.GeoJsonLineString([p, [1, 2]]);
    c.equal({ ...o }, { type: "Point", coordinates: p }, "point");
    c.equal({ ...l }, { type: "LineString", coordinates: [p, [1, 2]] }, "line");
    return p;
  }, { sync: true });
}
