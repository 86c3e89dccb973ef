import { A } from "./lib1.mjs";
const S = (x) => `@other/status/src/${x}`;
export default [
  { id: "C42", title: "Monitoring follows the services, and pauses for maintenance",
    statement: "The checks of the monitoring service are turned off when a maintenance that is published for it on the status page has started, or starts within a minute, and turned on again, each of them, when there is none; nothing else turns them off, and nothing changes when the status page cannot be read. Turning them off also triggers the update of the status page for that maintenance and tells the operators once; whatever request fails or loses its answer, the following runs make up for it, so that in the end the checks are as they should be and the page has been told. After an hourly update without failures there is exactly one check for every endpoint of the applications' specifications that can be called without further parameters and for every configured endpoint, with its address, method, own headers and contents, interval, time limit and contacts, also after an address was changed or a check was altered, after a request failed midway or its answer was lost; a further update changes nothing. The operators are told exactly of the components that are missing on either side and, outside maintenance, of those whose states differ, also when applications have components of the same name.",
    over: ["inputs", "histories", "fault_sequences"], text: "every history of states of the status page and checks with failing and lost requests up to the bound; every combination of components and states, and every specification, configuration and altered check with failing requests, within the bound of deviations",
    why: "A request that fails between two others, a header left behind by another check or two applications with a component of the same name only show for particular histories and data; the application's tests mock the services and are not run by the build.",
    anchors: A([S("service/maintenance-service.ts"), S("service/status-service.ts"), S("service/utils.ts"), S("api/nodeping-api.ts"), S("api/cstate-statuspage-api.ts"), S("api/digitraffic-api.ts"), S("lambda/handle-maintenance/lambda-handle-maintenance.ts"), S("lambda/check-component-states/lambda-check-component-states.ts")], [["maintenance", S("service/maintenance-service.ts")], ["differences and updates", S("service/status-service.ts")], ["requests", S("api/nodeping-api.ts")]], ["checks of NodePing", "GitHub actions", "Slack messages"]),
    how: "DFS over histories of the status page, specifications and failing requests, run by the real code against a stand-in of the monitoring service that keeps checks and contacts; its state and the messages are compared with a reference computed from the configuration." },
];
