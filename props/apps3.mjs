import { A } from "./lib1.mjs";
const U = (x) => `@road/data-upload/src/${x}`;
const S = (x) => `@road/variable-signs/src/${x}`;
export default [
  { id: "C35", title: "Variable signs publish the newest state received from every sign",
    statement: "An upload is answered with success only if all its files are stored, and every stored file is processed or marked as failed: a file marked as processed is stored for each of its signs, unaltered, unless a newer file of the same sign and format is; an older file never replaces a newer one, and a broken or truncated one is marked as failed and ends. Documents, device lists and sign states arriving through the older interface are applied completely or not at all, with 200 only when they were. Every publication is well-formed, lists exactly the newest data of the devices in use in order, unaltered, without the test devices' test times, and carries the time of the newest change.",
    over: ["histories", "fault_sequences", "schedules", "inputs"], text: "every history of uploads and processing runs with failed or delayed statements up to the bound, every position at which one processing run waits for another, every publication within the bound's deviations of a plain device table, every history of documents and device lists with a failed statement",
    why: "A state that was acknowledged and lost, or overwritten by an older one, shows wrong speed limits to road users and appears only when a statement fails or is overtaken; these applications' tests need a database and are not run by the build.",
    anchors: A([U("service/variable-signs.ts"), U("service/datex2-update.ts"), U("service/vs-datex2-223-parser.ts"), U("service/vs-datex2-35-parser.ts"), U("service/vs-datex2-37-parser.ts"), U("dao/data.ts"), U("dao/variable-signs.ts"), U("lambda/upload-datex2/upload-datex2.ts"), U("lambda/handle-new-messages/handle-new-messages.ts"), U("lambda/delete-old-messages/delete-old-messages.ts"), S("service/datex2-update-service.ts"), S("service/json-update-service.ts"), S("service/variable-signs.ts"), S("service/filtering-service.ts"), S("db/datex2.ts"), S("db/metadata.ts"), S("db/data.ts")], [["processing", U("service/variable-signs.ts")], ["publications", S("service/variable-signs.ts")]], ["data_incoming, device_data_datex2, device and device_data rows", "responses of the upload and update Lambdas", "publications"]),
    how: "DFS over histories of the real Lambdas of both applications with a PostgreSQL stand-in that executes their statements, fails them or lets others pass while one waits; the stored rows and the parsed publications are compared with what was sent." },
  { id: "C36", title: "A sign image shows exactly the requested symbols or is refused",
    statement: "For every text, the sign image is either refused as invalid (400) or a well-formed SVG that shows exactly the symbols of the text, in order and side by side, inside the borders of the road type its prefix names, with each symbol defined once and a size equal to the sum of the widths. Texts are digits and letters A to F with at most one known prefix, or one single symbol, in any case, up to 30 characters, with or without one pair of brackets; nothing else is accepted, never answered with 500 or copied into the image.",
    over: ["inputs"], text: "every text up to the bound over an alphabet of valid, invalid and structural characters, every combination of prefix, spelling, body, brackets and length, every single symbol and its near misses",
    why: "The text comes from the public URL; tests sample a few texts and are not run by the build.",
    anchors: A([S("service/text-converter.ts"), S("service/textSymbol.ts"), S("lambda/get-sign-image/get-sign-image.ts")], [["parsing", S("service/text-converter.ts")], ["symbols", S("service/textSymbol.ts")]], ["responses", "symbols, positions and sizes in the SVG"]),
    how: "exhaustive enumeration of texts against a reference grammar; the SVG is parsed and compared symbol by symbol, and the drawings of each style are compared with one another." },
];
