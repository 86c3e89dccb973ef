import { A } from "./lib1.mjs";
export default [
  { id: "C12", title: "The web ACL judges every request by exactly the rules that were asked for",
    statement: "Whatever sequence of builder calls is made, the resulting AWS WAF access control list blocks, counts, exempts and rate-limits exactly the requests the calls describe: throttle limits apply to anonymous or identified clients as asked, exempted paths and addresses only, and every request without a usable digitraffic-user header is anonymous. Rules are evaluated in the promised order with distinct priorities and names. Combinations that AWS would refuse are refused by the builder.",
    over: ["configurations", "inputs", "histories"], text: "every sequence of builder calls up to the bound, evaluated on every request of a product of headers, paths, addresses and query strings",
    why: "Tests count rules; which requests a combination of rules blocks needs evaluating the ACL on requests.",
    anchors: A(["aws/infra/acl-builder.ts"], [["rule construction", "aws/infra/acl-builder.ts"]], ["synthesised rules, interpreted on requests"]),
    how: "DFS over builder call sequences; the synthesised ACL is interpreted with WAF semantics and compared with a reference on all requests." },
  { id: "C13", title: "A function gets exactly the rights, alarms and settings it was configured with",
    statement: "Every lambda built has the configured name, code, memory, timeout, runtime, environment, network and log group, and its role grants the shared secret and the listed actions exactly when asked, and nothing beyond. A monitored function has an alarm for every enabled metric with its own threshold, bound to its own function and the right topic. Building one function changes neither its options nor another function of the stack.",
    over: ["configurations"], text: "every configuration deviating from the defaults in up to the bound's ways, and pairs of functions in one stack",
    why: "Tests look at single settings; interactions between settings, defaults and shared objects are not covered.",
    anchors: A(["aws/infra/stack/dt-function.ts", "aws/infra/stack/dt-function-alarms.ts", "aws/infra/stack/monitoredfunction.ts", "aws/infra/stack/lambda-log-group.ts", "aws/infra/stack/subscription.ts"], [["builder", "aws/infra/stack/dt-function.ts"], ["alarms", "aws/infra/stack/monitoredfunction.ts"]], ["synthesised template"]),
    how: "DFS over builder configurations, interpreting the synthesised template against a reference." },
  { id: "C19", title: "Stack checks report every violation and nothing else",
    statement: "The stack checking aspect reports, as an error or warning as documented, every resource that violates a rule, under its own path and key, and nothing for resources that satisfy it. A whitelist pattern silences exactly the findings it matches. Casing rules accept exactly the kebab-case paths and camelCase parameters that the documentation asks for.",
    over: ["configurations", "inputs"], text: "every resource kind with every combination of checked settings under every whitelist, and every short path part and parameter name",
    why: "Tests check one resource per rule; a rule that is silently never applied passes them.",
    anchors: A(["aws/infra/stack/stack-checking-aspect.ts"], [["rules", "aws/infra/stack/stack-checking-aspect.ts"], ["whitelist", "aws/infra/stack/stack-checking-aspect.ts"]], ["annotations on constructs"]),
    how: "DFS over stacks × whitelists; the aspect's annotations are compared with the rules." },
  { id: "C20", title: "A REST API is exposed to exactly the clients and in the form asked for",
    statement: "A REST API admits exactly the addresses it was given (everyone when none were), each of its API keys belongs to its own usage plan and stage, and an endpoint is exported with the asked key or refused when that is ambiguous. Unknown paths answer the configured status with a valid JSON message; preflight, models, documentation and static responses appear exactly where and as they were asked for. Deprecated integrations answer each error message with its own status and CORS header.",
    over: ["configurations", "histories"], text: "every configuration with every sequence of API building actions up to the bound, every static integration and documentation part of the alphabets",
    why: "Tests synthesise one or two APIs; which clients are admitted and what they read depends on combinations of settings.",
    anchors: A(["aws/infra/stack/rest-api.ts", "aws/infra/api/static-integration.ts", "aws/infra/documentation.ts", "aws/infra/usage-plans.ts", "utils/api-model.ts", "aws/infra/api/responses.ts"], [["API policy and exports", "aws/infra/stack/rest-api.ts"], ["static responses", "aws/infra/api/static-integration.ts"]], ["synthesised template", "rendered responses"]),
    how: "DFS over API building actions; the synthesised template is interpreted (policies, keys, gateway and mock responses) and compared with a reference." },
  { id: "C21", title: "Queues, schedules and grants are wired exactly as declared",
    statement: "A queue is encrypted and, unless it is FIFO or has its own, gets a dead letter queue whose messages only its own lambda stores in its own private bucket and whose arrivals raise the warning alarm. A body posted through the queue integration reaches exactly that queue unaltered, and nothing else can be smuggled into the call. Schedules run their own lambda at the asked rate, findings are notified exactly when new, failed and severe, and bucket grants admit exactly the named distribution or user.",
    over: ["configurations", "inputs"], text: "every pair of queues, request body, rate, finding and bucket request of the alphabets",
    why: "Tests hardly touch these constructs; a wrong queue, bucket, role or pattern still synthesises.",
    anchors: A(["aws/infra/sqs-queue.ts", "aws/infra/sqs-integration.ts", "aws/infra/scheduler.ts", "aws/infra/security-rule.ts", "aws/infra/bucket-policy.ts"], [["queues", "aws/infra/sqs-queue.ts"], ["queue integration", "aws/infra/sqs-integration.ts"]], ["synthesised template", "rendered SQS call"]),
    how: "DFS over constructs; policies, patterns and the mapping template of the synthesised stack are evaluated on requests." },
  { id: "C22", title: "A canary runs, stores its results and raises its alarm as configured",
    statement: "Every canary runs its own handler on its schedule with exactly its environment, host and API key, inside the network only when asked, and its role can store artifacts and read the secrets and keys it needs and no others. It has one alarm of its own, on its own success rate, with the configured threshold, name and topic. Two canaries in one stack do not affect one another, and a database canary without a secret is refused.",
    over: ["configurations"], text: "every canary deviating from the defaults in up to the bound's ways, and pairs of canaries with a shared or separate role",
    why: "No test synthesises a canary; a canary that cannot store results or has no alarm fails silently.",
    anchors: A(["aws/infra/canaries/canary.ts", "aws/infra/canaries/url-canary.ts", "aws/infra/canaries/database-canary.ts", "aws/infra/canaries/canary-role.ts", "aws/infra/canaries/canary-alarm.ts"], [["canary construction", "aws/infra/canaries/canary.ts"], ["alarm", "aws/infra/canaries/canary-alarm.ts"]], ["synthesised template"]),
    how: "DFS over canary configurations, interpreting the synthesised template against a reference." },
  { id: "C23", title: "Network, database, proxy and DNS stacks fit together when deployed",
    statement: "Deployed in order, the stacks find every export and parameter they need, and the environment's database names lead to the writer, the reader, the proxy and its read-only endpoint of that environment, whether the cluster was created, restored or imported. The database lies in the private subnets, is encrypted unless refused, retained and protected; private subnets reach out only through their gateway. Configurations that name no cluster or two, or whose cluster cannot be identified, are refused.",
    over: ["configurations", "histories"], text: "every environment deviating from the defaults in up to the bound's ways, deployed on a simulated CloudFormation; every short endpoint text",
    why: "Tests cover the parsing of one endpoint; wiring across stacks only shows when the stacks are deployed together.",
    anchors: A(["aws/infra/stacks/network-stack.ts", "aws/infra/stacks/db-stack.ts", "aws/infra/stacks/db-proxy-stack.ts", "aws/infra/stacks/db-dns-stack.ts", "aws/infra/import-util.ts", "aws/infra/stack/parameters.ts"], [["database", "aws/infra/stacks/db-stack.ts"], ["names", "aws/infra/stacks/db-dns-stack.ts"]], ["resources, exports and parameters of the deployed stacks"]),
    how: "DFS over environments; synthesised stacks are deployed in order on a model of exports and parameters and the resulting records compared with the endpoints." },
];
