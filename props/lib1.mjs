const L = "lib/digitraffic-common/src/";
const A = (files, mech, observe) => ({ files: files.map((f) => (f.startsWith("@") ? f.slice(1) : L + f)), mechanism: mech.map(([name, where]) => ({ name, where: where.startsWith("@") ? where.slice(1) : L + where })), ...(observe ? { observe_at: observe } : {}) });
export default [
  { id: "C01", title: "Secrets are cached for their TTL only and complete credentials are exposed",
    statement: "A secret read through a secret holder is answered with the document most recently fetched from the secret store and at most the time-to-live old; an older one is never served, a fresh one is never fetched again, and a failed fetch is reported to its readers and never cached. Only the requested view of the document is returned (prefix stripped, every expected key present, otherwise an error). Database credentials and environment-or-secret values come from exactly the documented keys and variables, all of them or none.",
    over: ["histories", "inputs", "fault_sequences"], text: "every history of reads, time steps, successful and failed fetches, over two consumers of a holder, up to the depth bound; every document of the alphabet",
    why: "Unit tests read a holder once or twice with a mocked client; expiry boundaries, overlapping reads, failed fetches between successful ones and partial documents need every order.",
    anchors: A(["aws/runtime/secrets/secret-holder.ts", "aws/runtime/secrets/rds-holder.ts", "aws/runtime/secrets/proxy-holder.ts", "aws/runtime/secrets/secret.ts", "aws/runtime/environment.ts"], [["TTL cache", "aws/runtime/secrets/secret-holder.ts"], ["credential setting", "aws/runtime/secrets/rds-holder.ts"]], ["GetSecretValue calls", "values returned to readers", "process environment"]),
    how: "BFS over histories of the real holder under a virtual clock and a secret store whose answers are pending events; DFS over documents." },
  { id: "C02", title: "Retry makes the promised attempts and always settles cleanly",
    statement: "A retried operation is attempted once plus at most the allowed number of retries, waits the prescribed delay before each retry, and stops at the first success or at the first error the predicate does not accept. The caller gets the value of the successful attempt, or a rejection with an error when attempts are exhausted or an attempt exceeds its half-hour limit; retry counts over the limit are refused without a call. Nothing the call started (timers) outlives it, and overlapping calls do not influence each other.",
    over: ["fault_sequences", "schedules", "inputs"], text: "every combination of attempt outcomes (success, typed errors, non-errors, synchronous throws, hanging attempts), retry counts, delays and predicates; every settlement order of two overlapping calls",
    why: "The tests use real timers, two or three outcomes and one retry count; hanging attempts, timer leaks and overlapping calls are not reachable by them.",
    anchors: A(["utils/retry.ts"], [["attempt loop", "utils/retry.ts"], ["timeout race", "utils/retry.ts"]], ["calls to the operation and their instants", "result", "armed timers"]),
    how: "DFS over attempt outcomes and settlement orders of the real function on a virtual clock." },
  { id: "C03", title: "Database work is atomic, isolated and always releases its connection",
    statement: "A unit of work in a transaction makes all of its writes durable when it succeeds and none when any statement, the caller's code or the commit fails; the caller is always told which of the two happened and gets the work's own value or error. Every unit of work, read-only or read-write, runs on a freshly reset session of the right endpoint with the configured credentials, and its connection and pool are closed before the caller is answered, whatever fails at whichever step. Missing settings are reported before anything connects.",
    over: ["fault_sequences", "schedules", "histories"], text: "every script of reads and writes up to the bound, with a fault at every interaction with the server, sequentially and overlapping",
    why: "The tests run against a mocked or absent database and cannot fail a connect, reset, statement, commit, rollback or close at will.",
    anchors: A(["database/database.ts"], [["transaction wrapper", "database/database.ts"], ["pool shutdown", "database/database.ts"]], ["server statement log", "open connections", "result"]),
    how: "DFS over unit-of-work scripts and faults, running the real module with the real pg-promise and pg-pool on a model PostgreSQL session." },
  { id: "C05", title: "Proxy responses reach the client as the body, status and headers that were built",
    statement: "Whatever calls are made on the proxy response builder, in whatever order, the built response decodes at the client to exactly the bytes given, with the status, type, file name, location, time and entity tag asked for, each a legal header value. Compression is declared exactly when the body was compressed, entity tags are stable for equal and distinct for different bodies, and a response that cannot fit the payload limit is replaced by an error rather than sent. Redirects need a location, and responses without a body must have been asked for.",
    over: ["programs", "inputs"], text: "every sequence of builder calls up to the bound from an alphabet covering every builder method, and every body size around the payload limit",
    why: "Tests build a dozen fixed responses; order-dependent interactions (compress then body, base64 then compress, empty bodies) are beyond them.",
    anchors: A(["aws/types/lambda-proxy-types.ts"], [["builder", "aws/types/lambda-proxy-types.ts"]], ["built proxy response decoded as API Gateway and a client would"]),
    how: "DFS over builder call sequences of the real class against a reference builder, decoding the result as a client does." },
  { id: "C06", title: "Lambda responses pass the integration templates unchanged",
    statement: "A lambda response built by any sequence of builder calls, passed through any of the response templates, reaches the client with exactly the body, status, file name, modification time and entity tag that were built. Deprecated integrations add deprecation headers and never alter the body. A body over the payload limit becomes an error response.",
    over: ["programs", "configurations", "inputs"], text: "every sequence of builder calls up to the bound and every ready-made response, through every response template, evaluated as API Gateway evaluates it",
    why: "Tests compare fields of single responses and template strings; none evaluates the template on a response.",
    anchors: A(["aws/types/lambda-response.ts", "aws/infra/api/response.ts", "aws/runtime/digitraffic-integration-response.ts"], [["response builder", "aws/types/lambda-response.ts"], ["response templates", "aws/infra/api/response.ts"]], ["client side body, status, headers after template evaluation"]),
    how: "DFS over builder sequences × templates, executing the real templates with a Velocity engine." },
  { id: "C07", title: "Request templates deliver exactly the declared parameters as valid JSON",
    statement: "For every set of declared parameters and every request, the event a lambda receives is valid JSON containing exactly the declared query, path, header, context and multi-value parameters and body, each with the value the client sent. No parameter value or name can inject or override another part of the event. Contradictory declarations are refused when the integration is built.",
    over: ["configurations", "inputs"], text: "every integration of up to the bound's declarations, and every request of the value alphabet including quotes, control characters, non-ASCII and template syntax",
    why: "Tests compare the generated template text and never evaluate it on a request.",
    anchors: A(["aws/infra/api/integration.ts"], [["template generation", "aws/infra/api/integration.ts"]], ["event after template evaluation"]),
    how: "DFS over declarations × requests, executing the generated templates with a Velocity engine." },
];
export { A };
