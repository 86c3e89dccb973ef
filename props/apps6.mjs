import { A } from "./lib1.mjs";
const R = (x) => `@marine/winter-navigation/src/${x}`;
export default [
  { id: "C41", title: "Winter navigation data follows its source and is published as it is there",
    statement: "After every update that succeeds, the locations, restrictions, port suspensions, vessels, sources, activities, queues and dirways are those the source had at its announced version: new, changed, deleted and restored objects alike. A change is never lost when an answer or a database statement fails or when it is made while an update runs: a later update brings it. A failing answer of one kind changes nothing of that kind, neither its time of checking, and does not keep the others from being updated. The API shows exactly the objects that are not deleted, linked to each other as in the source: locations by locode, points of dirways in order, a vessel by IMO or MMSI with its events within the requested time, telling who assists whom also when vessels lack an IMO or MMSI; invalid parameters are answered with 400, unknown objects with 404, failures with 500. The time of update shown is that of the last check.",
    over: ["inputs", "histories", "fault_sequences"], text: "every history of updates of the ten kinds up to the bound, with changes before and during an update and failing answers and statements; every one or two changes of a full set of linked objects; every combination of parties, numbers, times and requested window of events within the bound",
    why: "A restored object, a fault between two statements or a vessel without a number only shows for particular histories and data; the application's tests need a database and are not run by the build.",
    anchors: A([R("service/data-updater.ts"), R("api/ibnet-api.ts"), R("db/vessels.ts"), R("db/locations.ts"), R("db/dirways.ts"), R("db/port-suspensions.ts"), R("db/data-version.ts"), R("service/vessel-service.ts"), R("service/location-service.ts"), R("service/dirway-service.ts"), R("lambda/get-vessels/get-vessels.ts")], [["updates", R("service/data-updater.ts")], ["queries", R("db/vessels.ts")], ["who assists whom", R("service/vessel-service.ts")]], ["wn_ tables", "responses of the API"]),
    how: "DFS over histories of a versioned source and over data sets and requests, run by the real Lambdas with a PostgreSQL stand-in that executes the statements and fails them; tables and responses are compared with a reference computed from the source." },
];
