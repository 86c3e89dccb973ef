import { A } from "./lib1.mjs";
const P = (x) => `@marine/portactivity/src/${x}`;
export default [
  { id: "C30", title: "Port activity messages are stored validated, once, or handed back to the queue",
    statement: "Every valid timestamp taken from the port activity queue is stored for the right port call and ship, completed from the ship and port call data, and replaces exactly the older estimates of the same source that it supersedes; an invalid one is dropped and changes nothing. Messages of a batch do not affect one another: one whose storing failed is handed back for redelivery, the others are acknowledged, and redelivering a message changes nothing more. A superseded (older) message never replaces a newer one.",
    over: ["inputs", "histories", "fault_sequences"], text: "every message within the bound's deviations from a plain one, every pair of a known timestamp and an arriving one over types and sources, every batch of messages with a database failure at any statement followed by redelivery",
    why: "Tests of the application need a database, are not run by the build and process single messages without failures.",
    anchors: A([P("lambda/process-queue/process-queue.ts"), P("service/timestamps.ts"), P("service/timestamp-validation.ts"), P("dao/timestamps.ts")], [["batch processing", P("lambda/process-queue/process-queue.ts")], ["storing", P("service/timestamps.ts")]], ["port_call_timestamp rows", "batch item failures"]),
    how: "DFS over messages, batches and failures of the real Lambda on a PostgreSQL stand-in executing its statements; rows and batch failures are compared with a reference." },
  { id: "C31", title: "Port activity timestamps and ship lists are answered complete and reconciled",
    statement: "A timestamp query answers exactly the stored timestamps of the asked port, ship or source within its time window, newest per source, with estimates of Awake.AI and VTS reconciled by the documented rule, and refuses queries without a criterion. The ship list page shows exactly the ships of the port in the asked hours, in order, with nothing of the data able to act as markup or script. Ships due for an estimate are found exactly once, and only timestamps past their retention are deleted.",
    over: ["inputs", "histories"], text: "every pair or triple of timestamps over sources, types and times of the alphabets, and every query within the bound's deviations",
    why: "Tests of the application are not run by the build; which rows combine to which answer depends on combinations of sources, ages and types.",
    anchors: A([P("lambda/get-timestamps/get-timestamps.ts"), P("lambda/get-shiplist-public/get-shiplist-public.ts"), P("service/timestamps.ts"), P("service/shiplist.ts"), P("dao/shiplist-public.ts"), P("dao/timestamps.ts"), P("lambda/delete-old-timestamps/delete-old-timestamps.ts")], [["queries", P("service/timestamps.ts")], ["ship list page", P("lambda/get-shiplist-public/get-shiplist-public.ts")]], ["responses", "rows"]),
    how: "DFS over stored timestamps and queries of the real Lambdas on a PostgreSQL stand-in; answers are compared with a reference computed from the rows." },
  { id: "C32", title: "Pilotages follow their source and every change is announced",
    statement: "After every run against the pilotage source the recorded pilotages are those of the list (finished ones that were never active are not recorded), timestamps of pilotages that disappeared are removed and no others, and one message is sent per new or changed pilotage with its own type, time, ship, converted port and port call. A run that fails, in the database, the queue or the source, leaves things as they were, so that the next run announces the change.",
    over: ["histories", "fault_sequences", "inputs"], text: "every history of lists of two pilotages up to the depth bound with one failure at any statement, message or response, and every pilotage within the bound's deviations from a plain one",
    why: "A pilotage recorded but not announced, or removed twice, only shows in a history with a failure; tests run one update.",
    anchors: A([P("lambda/update-timestamps-from-pilotweb/update-timestamps-from-pilotweb.ts"), P("service/pilotweb.ts"), P("service/location-converter.ts"), P("dao/pilotages.ts"), P("api/pilotweb.ts")], [["synchronisation", P("service/pilotweb.ts")]], ["pilotage and timestamp rows", "messages sent"]),
    how: "DFS over histories of source lists and failures of the real Lambda on a PostgreSQL stand-in; rows and messages are compared with a reference after every run." },
  { id: "C33", title: "Outside predictions and actual times become exactly the right messages",
    statement: "Every usable prediction or actual time in an answer of Awake.AI (ship and port arrivals, departures, the actual-time stream) or of the schedules source becomes exactly one message with its own port, port area, ship, time and source; stopped voyages, predictions of Digitraffic itself, other zones, too near or past times are left out, and one unusable entry never loses the others. A failing ship, port or send does not stop the rest. The access token is fetched once, reused only while valid, and refetched after that.",
    over: ["inputs", "histories", "fault_sequences"], text: "every answer within the bound's deviations from a plain one, pairs of entries, every history of token requests over time and failures, and every failed send",
    why: "Tests sample a few answers and are not run by the build; what one malformed entry does to its neighbours shows only in combinations.",
    anchors: A([P("service/awake-ai-eta-ship.ts"), P("service/awake-ai-eta-port.ts"), P("service/awake-ai-etd-port.ts"), P("service/awake-ai-etx-helper.ts"), P("service/awake-ai-atx.ts"), P("service/schedules.ts"), P("api/oauth-token-api.ts"), P("api/awake-ai-atx.ts")], [["conversion", P("service/awake-ai-etx-helper.ts")], ["schedules", P("service/schedules.ts")], ["token reuse", P("api/oauth-token-api.ts")]], ["messages sent", "requests made"]),
    how: "DFS over answers, time and failures of the real Lambdas and services with stand-ins for HTTP, the stream and the queue; messages are compared with a reference." },
];
