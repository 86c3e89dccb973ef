import { A } from "./lib1.mjs";
export default [
  { id: "C08", title: "API handlers are invoked, timed and failed exactly as configured",
    statement: "A handler invoked through the factory runs exactly once per request with the event it was given and its own answer or error is what the caller gets, also when invocations overlap. The configured error handler sees every error once, and its answer replaces the error; without one the error reaches the caller unchanged. Every invocation, successful or not, is handed to the logging handler or logged once with the function's name and its own duration.",
    over: ["schedules", "configurations", "fault_sequences"], text: "every outcome (success, rejection, synchronous throw) and completion order of overlapping invocations, under every combination of logging handler and error handler",
    why: "The tests call one handler once; timing of overlapping invocations and failures inside configured handlers are not covered.",
    anchors: A(["aws/infra/api/handler-factory.ts"], [["handler composition", "aws/infra/api/handler-factory.ts"]], ["result of the handler", "log lines", "calls of the handlers"]),
    how: "DFS over invocation schedules of the real factory on a virtual clock." },
  { id: "C09", title: "Every log call writes exactly one complete JSON line and never throws",
    statement: "Every call of the logger writes exactly one line of valid JSON carrying the level, method, lambda, runtime and every custom field given with the value and type it had, for any value whatsoever, and it neither throws nor changes its argument; nothing leaks from one line to another. Exceptions are logged with their type, message and, if asked, stack. Lead times are logged only when they are numbers, Slack notifications never fail their caller, and texts too long to log are truncated to the promised length with the number of removed characters.",
    over: ["inputs", "configurations", "histories"], text: "every combination of level, value kinds, messages, errors and stacks in the alphabet, including bigint, invalid dates, nested objects, quotes and newlines",
    why: "Tests log a few plain records; the logger is in every error path and a value that makes it throw loses the original failure.",
    anchors: A(["aws/runtime/dt-logger.ts", "utils/logging.ts", "utils/lead-time-logging.ts", "utils/slack.ts", "aws/runtime/dt-logger-default.ts"], [["record formatting", "aws/runtime/dt-logger.ts"], ["exception logging", "utils/logging.ts"], ["Slack notification", "utils/slack.ts"]], ["lines written to the stream"]),
    how: "DFS over log records of the real logger, parsing what it writes." },
  { id: "C10", title: "Event parameters, encodings, dates and ids are converted without loss",
    statement: "Query parameters of a proxy event are all read, multi-valued ones as lists and single ones as values, without changing the event. Base64 encoding and decoding are exact inverses for any text, also compressed. Dates are formatted in UTC and parsed to the same instant whatever the local time zone, and texts that are not dates are refused, as are texts that do not denote a number where the schema expects one.",
    over: ["inputs", "configurations"], text: "every event, text, instant and time zone of the bounded alphabets",
    why: "Tests use one or two examples in the time zone of the build machine.",
    anchors: A(["utils/lambda-proxy-event.ts", "utils/base64.ts", "utils/zod-utils.ts", "utils/date-utils.ts"], [["parameter reading", "utils/lambda-proxy-event.ts"], ["date formatting", "utils/date-utils.ts"]], ["returned values"]),
    how: "DFS over all inputs of the bounded alphabets against reference implementations." },
  { id: "C11", title: "A stop watch reports exactly the time its tasks ran",
    statement: "After any sequence of starts, stops and resets, the duration of each task is the sum of its finished periods plus the running one, tasks do not influence one another, and stopping what was never started is refused. The log holds exactly one record per task with its duration.",
    over: ["histories"], text: "every history of start, stop, reset, create, log and clock steps over three tasks up to the depth bound",
    why: "Tests exercise short fixed sequences with a real clock and tolerances.",
    anchors: A(["utils/stop-watch.ts"], [["period accounting", "utils/stop-watch.ts"]], ["durations", "records", "log lines"]),
    how: "BFS over histories of the real class on a virtual clock against a reference model." },
  { id: "C14", title: "Geometries keep their structure and value in every representation",
    statement: "Converting a GeoJSON geometry to WKT or GML keeps every ring, polygon and coordinate in its place, and conversions never change their argument; unsupported geometries give an empty polygon or an error. Distances equal the great circle distance for every pair of legal positions, whatever the zeros and altitudes, are symmetric, and positions that are not on the globe are refused. A geometry is reported valid, and accepted by the schemas, exactly when it is well-formed GeoJSON.",
    over: ["inputs"], text: "every geometry of the bounded alphabet and every pair of positions on a grid with the poles, the equator and the meridians",
    why: "Tests convert a few geometries without holes or several polygons and measure between non-zero coordinates.",
    anchors: A(["utils/geometry.ts", "utils/geojson-types.ts", "types/geojson.ts"], [["WKT", "utils/geometry.ts"], ["distance", "utils/geometry.ts"]], ["parsed WKT and GML", "distances", "validity"]),
    how: "DFS over geometries and position pairs against a WKT reader and reference distance." },
  { id: "C15", title: "IMO, MMSI and LOCODE validity is decided by their definitions",
    statement: "A number is a valid IMO number exactly when it has seven digits and its last digit is the check digit, so every six-digit prefix has exactly one valid completion; a valid MMSI is exactly a nine-digit whole number not starting with zero; a valid LOCODE has exactly the documented form. Numbers and their texts are judged alike, and anything that is not a whole number is refused.",
    over: ["inputs"], text: "all seven-digit numbers and their neighbourhood, and every text of the bounded alphabet",
    why: "Tests check a handful of numbers; check digit errors and fractional or non-numeric input need the whole space.",
    anchors: A(["marine/id_utils.ts"], [["IMO check digit", "marine/id_utils.ts"], ["MMSI and LOCODE", "marine/id_utils.ts"]], ["verdicts"]),
    how: "exhaustive enumeration of the number space and of short texts against the definitions." },
  { id: "C16", title: "Shared utility functions compute what they promise without side effects",
    statement: "Two arrays are said to have the same values exactly when each contains the other's; first and last are those of the given order, ties included, and empty arrays are refused; omitting keys removes them at every level and nothing else and gives a copy. None of these changes its argument. Environment variables are read as they are now, including when empty, and only a missing one uses the fallback or is reported by name; setting environment keys checks that all are present.",
    over: ["inputs", "configurations"], text: "every array, value tree and environment of the bounded alphabets",
    why: "Tests check some examples and do not look at mutation, empty strings, dates or duplicates.",
    anchors: A(["utils/utils.ts"], [["array helpers", "utils/utils.ts"], ["environment", "utils/utils.ts"]], ["returned values", "arguments after the call"]),
    how: "DFS over all inputs of the bounded alphabets against reference implementations." },
  { id: "C17", title: "A canary succeeds exactly when the endpoint or database is healthy",
    statement: "A URL check sends one request to its own host and path with the right method, headers and API key (never where none belongs) and fails exactly when the answer's status, content type, CORS header, compression or content does not satisfy the checks that were asked for; callbacks see the decompressed body unaltered. A database canary runs every declared check, fails exactly when a query fails, a count violates its check or nothing was checked, reports only after all steps have finished, and releases its connection.",
    over: ["inputs", "fault_sequences", "schedules"], text: "every kind of check against every response deviating from the expected one in up to the bound's ways; every list of database checks with every result, failure and step timing",
    why: "A canary that never fails passes all of its tests; only running every check against deviating answers shows that the alarm works.",
    anchors: A(["aws/infra/canaries/url-checker.ts", "aws/infra/canaries/database-checker.ts", "__test__/asserter.ts"], [["response checks", "aws/infra/canaries/url-checker.ts"], ["database checks", "aws/infra/canaries/database-checker.ts"]], ["canary outcome", "requests", "queries", "connections"]),
    how: "DFS over checks × deviating responses, running the real canary code with a synthetics runtime that schedules steps." },
  { id: "C18", title: "A dead letter is acknowledged only when it has been stored",
    statement: "The dead letter lambda stores every message of a batch unchanged in the configured bucket, each in an object of its own, and accepts the batch only when all of them are stored, so no message is lost whatever uploads fail and however often the batch is redelivered; the dead letter Lambdas of port activity and maintenance tracking do the same. Bucket names derived for queues are always legal, stable and keep distinct queues apart.",
    over: ["fault_sequences", "schedules", "inputs"], text: "every sequence of deliveries with every order and outcome of uploads; every name of the bounded alphabet and every cut of long names",
    why: "The lambda is shipped as source text that no test executes.",
    anchors: A(["aws/infra/sqs-queue.ts", "aws/infra/sqs-queue-internal.ts", "aws/runtime/s3.ts", "@marine/portactivity/src/lambda/process-dlq/lambda-process-dlq.ts", "@road/maintenance-tracking/src/lambda/process-dlq/process-dlq.ts"], [["dead letter lambda", "aws/infra/sqs-queue-internal.ts"], ["bucket name", "aws/infra/sqs-queue-internal.ts"]], ["objects in the bucket", "batch outcome", "names"]),
    how: "DFS over deliveries and upload schedules of the source text that the real construct ships and of the Lambdas of two applications; enumeration of names." },
];
