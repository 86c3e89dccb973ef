import { A } from "./lib1.mjs";
const C = (x) => `@road/counting-site/src/${x}`;
export default [
  { id: "C34", title: "Counting sites store every count exactly once and follow the site list",
    statement: "Whatever update fails at whatever point, the stored counts of a site are exactly the counting service's counts from the start of its history up to the site's recorded time, each once; every update of a site that is due asks for the next day from the first missing minute, in Helsinki time, and moves on; a failing site does not hold back the others, and removed sites are left alone. After a successful metadata update the sites are those of the site list, with those missing marked as removed when first found missing; a failed one changes nothing. Requests answer exactly the matching sites and counts, in order, with the time of their last change, and refuse invalid parameters.",
    over: ["histories", "fault_sequences", "inputs"], text: "every history of updates over starting points, kinds of counts, pauses and failures up to the bound, every history of site lists with a failure, every request within the bound's deviations",
    why: "A count stored twice or skipped shows only after a failure between two statements or at the edge of a window; tests need a database and are not run by the build.",
    anchors: A([C("service/update-service.ts"), C("service/api-service.ts"), C("dao/data.ts"), C("dao/site.ts"), C("api/v2/eco-counter.ts"), C("lambda/update-data/update-data.ts"), C("lambda/update-metadata/update-metadata.ts"), C("lambda/get-sites/get-sites.ts"), C("lambda/get-values/get-values.ts"), C("lambda/get-values-csv/get-values-csv.ts")], [["updates", C("service/update-service.ts")], ["queries", C("dao/data.ts")]], ["cs2_site and cs2_data rows", "requests to the counting service", "responses"]),
    how: "DFS over histories of the real Lambdas with a counting service holding a ground truth and a PostgreSQL stand-in executing the statements with failures; rows, requests and answers are compared with a reference." },
];
