import { A } from "./lib1.mjs";
const R = (x) => `@rail/rami/src/${x}`;
export default [
  { id: "C39", title: "Passenger information of trains is shown as it was sent, in its latest version",
    statement: "Of every message that was accepted from the queue exactly the latest version is shown, from the start of its validity until its end, unless it was deleted: with its own texts (trimmed), delivery rules, times to the second, stations, train and date, whatever order and however often versions arrive. The queries return exactly the messages that match every given filter, and 400 for values that are not valid. A message is stored completely or not at all, and one that cannot be parsed or stored is not lost: it stays in the queue or becomes a dead letter. An upload answers 200 only when the message is queued unaltered or, being invalid, sent to the dead letters. Every dead letter is stored in a readable object with its content, or stays in the queue.",
    over: ["inputs", "histories", "fault_sequences"], text: "every message within the bound's deviations of the two kinds, every history of insertions, updates and deletions in any order with repeated deliveries and failing statements, connections, sends and uploads, and every combination of query parameters within the bound",
    why: "A rule of one field, a version that comes late or a statement that fails only shows for particular messages and histories; the application's tests need a database and are not run by the build.",
    anchors: A([R("lambda/process-rosm-queue/process-rosm-queue.ts"), R("service/process-rosm-message.ts"), R("dao/message.ts"), R("service/get-message.ts"), R("lambda/get-active-messages/get-active-messages.ts"), R("lambda/get-messages-updated-after/get-messages-updated-after.ts"), R("lambda/upload-rosm-message/upload-rosm-message.ts"), R("lambda/process-dlq/process-dlq.ts"), R("util/database.ts"), R("util/s3.ts")], [["conversion", R("service/process-rosm-message.ts")], ["storing and queries", R("dao/message.ts")], ["dead letters", R("lambda/process-dlq/process-dlq.ts")]], ["responses of the API", "batchItemFailures", "objects of the dead letter bucket"]),
    how: "DFS over messages, histories, batches, queries and dead letters of the real Lambdas with a MySQL stand-in that executes the statements and fails them; what the API shows is compared with a reference after every step." },
  { id: "C40", title: "Unknown delays and tracks of trains follow the stop monitoring messages",
    statement: "A stop monitoring message is acknowledged only when it has been saved unaltered and, unless it is of a bus or has no boarding call, one message with exactly its unknown delays and tracks has been queued, or when it cannot be parsed and was sent to the dead letters with its content; a failing record does not affect the others of its batch. Such an update changes exactly the rows of its train and date whose station, type and minute match: both values false changes an existing row only. It is applied completely or not at all, also when a statement fails or MySQL rolls the transaction back after a deadlock; every change has a history row, a failed update has none. No database connection is kept. Cleaning removes exactly what is older than a day.",
    over: ["inputs", "histories", "fault_sequences"], text: "every message within the bound's deviations of the fields of three calls, every batch and every sequence of updates up to the bound over tables in several states, with failing statements, deadlocks, connections and sends",
    why: "Half-applied updates and lost messages only show when a particular statement fails or deadlocks; the application's tests need a database and are not run by the build.",
    anchors: A([R("lambda/process-sm-queue/process-sm-queue.ts"), R("service/process-sm-message.ts"), R("lambda/process-udot-queue/process-udot-queue.ts"), R("service/process-udot-message.ts"), R("dao/udot.ts"), R("dao/stop_monitoring_message.ts"), R("dao/time_table_row.ts"), R("lambda/delete-old-data/delete-old-data.ts"), R("util/database.ts")], [["conversion", R("service/process-sm-message.ts")], ["updates", R("dao/udot.ts")], ["transactions", R("util/database.ts")]], ["batchItemFailures", "queued messages", "rami_udot, rami_udot_history and rami_stop_monitoring_message rows"]),
    how: "DFS over messages, batches and update sequences of the real Lambdas with a MySQL stand-in that executes the statements, fails them and rolls back on deadlocks; tables are compared with a reference after every step." },
];
