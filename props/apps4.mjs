import { A } from "./lib1.mjs";
const T = (x) => `@road/maintenance-tracking/src/${x}`;
const M = (x) => `@road/maintenance-tracking-municipality/src/${x}`;
export default [
  { id: "C37", title: "Maintenance tracking messages of state roads are stored once and none is lost",
    statement: "A posted message is answered with 200 only when it was queued, unaltered. A queued message is acknowledged only when every one of its observations is stored: each distinct observation once, whatever is redelivered or delivered at the same time, with its own times, machine, contract and system (UNKNOWN without one), and of one message either all or none; a message that cannot be stored goes back to the queue and finally to the dead letters. The cleaning removes exactly the trackings that ended more than 26 hours ago, are not referred to by a kept one and are not the newest of their domain, and completes on the next run after a failure.",
    over: ["histories", "fault_sequences", "schedules"], text: "every history of posted messages up to the bound, valid and broken, with failed sends, fetches and statements and concurrent deliveries; every small set of trackings over ages, references and domains",
    why: "A message lost or stored in part only shows when a statement or a fetch fails; the application's tests need a database and are not run by the build.",
    anchors: A([T("lambda/update-queue/update-queue.ts"), T("lambda/process-queue/process-queue.ts"), T("service/maintenance-tracking.ts"), T("service/sqs-big-payload.ts"), T("dao/maintenance-tracking-dao.ts"), T("lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts")], [["handling", T("lambda/process-queue/process-queue.ts")], ["storing and cleaning", T("dao/maintenance-tracking-dao.ts")]], ["responses", "maintenance_tracking_observation_data and maintenance_tracking rows", "outcome of a delivery"]),
    how: "DFS over histories of the real Lambdas with a queue that redelivers, a stand-in for the large-message client and a PostgreSQL stand-in that executes the statements and fails them; rows are compared with the messages after every delivery." },
  { id: "C38", title: "Work events of municipal machines become exactly the documented trackings",
    statement: "Every event with a mapped task that is newer than what is stored of its machine becomes part of the machine's trackings, once, although fetches overlap: a tracking goes on to the next event only within 305 s and 520 m, not over 80 km/h beyond 50 m, and not under 5 km/h beyond 50 m or 20 km/h beyond 200 m; its tasks stay the same, and a change of tasks ends it at the first point of the next one. Only the last tracking stays unfinished; the next fetch ends it, and is linked to it only with the same tasks. Per run a machine's data are stored completely or not at all, without affecting other machines, the counts returned say what was stored, and unknown tasks are added as ignored. Without a contract with a source nothing is stored.",
    over: ["histories", "inputs", "fault_sequences"], text: "every drive of a machine within the bound's deviations over steps around every limit and tasks, cut into fetches, and every failed statement or request in a run",
    why: "Trackings grow over several fetches of overlapping windows, so a wrong limit, link or end needs particular successions of events; the application's tests need a database and are not run by the build.",
    anchors: A([M("lambda/paikannin-update-data/paikannin-update-data.ts"), M("service/paikannin-update.ts"), M("service/paikannin-utils.ts"), M("service/utils.ts"), M("service/common-update.ts"), M("dao/data.ts"), M("api/paikannin.ts")], [["grouping", M("service/paikannin-utils.ts")], ["continuation", M("service/paikannin-update.ts")]], ["maintenance_tracking, task and work machine rows", "result of the Lambda", "requests"]),
    how: "DFS over drives and fetches of the real Lambda with stand-ins for the source and PostgreSQL (the statements are executed, geometry functions included); rows are compared with a reference after every fetch." },
];
