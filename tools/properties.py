#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json
K = "crates/kuadrant-filter/src/"
W = "crates/wasm-shim/src/"
EX = K + "kuadrant/pipeline/executor.rs"
BP = K + "kuadrant/pipeline/blueprint.rs"
FA = K + "kuadrant/pipeline/factory.rs"
CX = K + "kuadrant/context.rs"
T = K + "kuadrant/pipeline/tasks/"
KF = W + "filter/kuadrant_filter.rs"
RC = W + "filter/root_context.rs"
CEL = K + "data/cel.rs"

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

HOST = ["return value of the stream callbacks (Continue/Pause)", "gRPC calls dispatched to the proxy",
        "local replies", "resume calls", "header maps", "metric increments"]

prop("C01", "A request is not let through while a guard call is outstanding",
     "While any guard call (isGuard, the default) made for a request is outstanding, the request, or the response when the call was made in the response phase, stays paused whatever callback comes next. As soon as no guard call is outstanding and the request was not refused, the stream is let through: the callback that finds no guard outstanding continues, or the reply that settles the last guard resumes it. Calls that are not guards never hold a request; they only hold the end of the response body until they are answered.",
     ["schedules", "configurations", "fault_sequences"],
     "every action tree of bounded size over guard/non-guard calls, every order of proxy callbacks and replies, every reply outcome",
     "The unit tests run single mock tasks; the order of replies, callbacks and terminal outcomes that decides whether the barrier is balanced is sampled once or not at all.",
     [EX, CX, T + "dynamic.rs", T + "failure_mode.rs", KF],
     [("barrier raised at dispatch, lowered by the reply or its no-op replacement", CX + ":Barrier"), ("pause/resume decision", KF + ":should_pause/should_resume")],
     [("barrier count", "guard calls outstanding", CX)], HOST)

prop("C02", "Every failed call is settled by its service's failureMode",
     "A gRPC call that cannot be built or sent, or is answered with a non-OK status or a message that cannot be read, counts one error; with failureMode deny the request is answered 500 and nothing else runs, with failureMode allow processing goes on as if the call were complete. This holds alike for calls of top level actions, for calls made by the onReply of another call, and for calls that first had to wait for data; only a call that waited and fails once the response body is flowing is merely logged.",
     ["schedules", "configurations", "fault_sequences"],
     "every place a call can fail (condition, message, dispatch, status, payload) x failure mode x position in the action tree x order of other replies",
     "The tests inject a failure at one point of one configuration; the composition with nesting, waiting for data and concurrent calls is not reached.",
     [T + "failure_mode.rs", T + "dynamic.rs", BP],
     [("failure mode wrapper", T + "failure_mode.rs:FailureModeTask::apply"), ("wrapping of actions", BP + ":to_tasks/to_core_task")], (), HOST)

prop("C03", "A terminal outcome is final: exactly one reply, nothing after it",
     "Once a terminal deny, a terminal fail or a failing call with failureMode deny takes effect, the client gets exactly one local reply, with the status, headers and body that outcome specifies, or 500 when a deny's reply cannot be told. From then on no further action is evaluated, no further call is made except the trace export, the request is never resumed towards the upstream, and replies still to come change nothing.",
     ["schedules", "configurations", "fault_sequences"],
     "every action tree of bounded size with terminal outcomes at any position, every interleaving of the replies outstanding at that moment with later callbacks",
     "Tests stop at the local reply; what replies and callbacks that come after it do is not covered.",
     [EX, T + "send_reply.rs", T + "fail.rs", KF],
     [("queue cleared, calls turned into no-ops", EX + ":execute_teardown/process_tasks/digest"), ("local reply", T + "send_reply.rs:apply")],
     [("terminated", "the pipeline has been answered", EX)], HOST)

prop("C04", "The order in which replies arrive does not change the outcome",
     "For actions that run in parallel and do not refuse the request, the calls made, their payloads, the header and property changes and the fact that the request is let through are the same whatever the order in which the replies arrive, and whatever callbacks come between them. When several of them refuse, exactly one of their refusals is delivered in every order, and the request is never let through.",
     ["schedules"],
     "all permutations of replies of up to four concurrent calls, interleaved with body and response callbacks",
     "Each test scripts a single order of replies.",
     [EX, CX, KF],
     [("replies matched to calls by token", EX + ":digest"), ("scoped bindings", CX + ":CelScope")], (), HOST)

prop("C05", "Sequential actions wait for what precedes and hold back what follows",
     "An action with execution sequential, of whatever type, is not evaluated before every action configured ahead of it has completed, and no action configured after it is evaluated before it has completed; parallel actions between two fences do not wait for each other. An action that is skipped or fails without ending the request counts as completed, and legacy actions run one after the other, except that no legacy action waits for a ratelimit-report ahead of it.",
     ["schedules", "configurations"],
     "every action list of bounded length over parallel/sequential x action types x outcomes, every reply order",
     "Dependencies are unit-tested as lists of ids; that evaluation respects them under every completion order, including failures, is not.",
     [BP, EX],
     [("dependency computation", BP + ":compute_dependencies"), ("dependency check", EX + ":process_tasks")],
     [("completed tasks", "ids whose dependents may run", EX)], HOST)

prop("C06", "Every paused stream is eventually resumed or answered",
     "Whenever the filter pauses a stream it has a gRPC call outstanding whose reply, of whatever outcome, leads to the stream being resumed or answered: in no order of events does a stream stay paused with no call outstanding. This includes the end of a response body, responses without a body, conditions that never become decidable, and local replies that run through the response callbacks.",
     ["schedules", "fault_sequences", "configurations"],
     "every action tree of bounded size, every order of callbacks and replies, run to quiescence",
     "Liveness quantifies over complete schedules; tests only script prefixes that work.",
     [KF, EX],
     [("resume on reply", KF + ":on_grpc_call_response"), ("forced resume at the end of a response", KF + ":on_http_response_body")], (), HOST)

prop("C07", "Each action's call is made once; stray replies change nothing",
     "For each request every action whose condition holds makes its call exactly once, however many callbacks and replies re-evaluate the request. A reply for an unknown token, a second reply for the same token, or a reply that comes after the request was settled has no effect on calls, replies, headers, counters or pausing, other than letting a stream go on that nothing holds.",
     ["schedules", "histories"],
     "every interleaving of callbacks, replies, duplicate and unknown replies over bounded action trees",
     "Tests never deliver unexpected tokens and check calls only on the scripted path.",
     [EX, KF],
     [("token table", EX + ":digest"), ("queue drained once per evaluation", EX + ":eval")], (), HOST)

prop("C08", "Actions wait for data that is not there yet, and then run once",
     "An action whose condition or data needs an attribute, body field or stored value that is not available yet is neither skipped nor failed: it stays pending, lets others proceed, and is evaluated exactly once as soon as the data is there. Fields of the request and response body (requestBodyJSON, responseBodyJSON) are read for every action that uses them, whatever its type. When a body ends without the field, a call depending on it fails and is treated as a failed call, and nothing waits for it any longer.",
     ["schedules", "inputs", "configurations"],
     "every action type x kind of missing data x order of the callbacks and replies that provide it, single and multiple body chunks",
     "Tests cover one kind of pending data each, in the order in which it works.",
     [T + "dynamic.rs", T + "store.rs", T + "headers.rs", T + "send_reply.rs", T + "token_usage.rs", T + "request_body.rs", CEL],
     [("pending attribute state requeues the task", T + "*.rs"), ("pending detection", CEL + ":Expression::eval")], (), HOST)

prop("C09", "A reply is visible to the actions of its own onReply only",
     "Inside the onReply of a call, the configured variable denotes the reply to that very call, also in calls nested below it until they rebind it, regardless of other calls using the same variable name and of the order in which replies arrive. Outside of that onReply the variable is not defined.",
     ["schedules", "configurations"],
     "trees of calls sharing one variable name, siblings and nesting up to three levels and more than ten siblings, all reply orders",
     "Shadowing and prefix clashes of scopes need several concurrent calls answered in particular orders.",
     [CX, T + "dynamic.rs"],
     [("scoped bindings", CX + ":CelScope::new_ctx/is_ancestor")], [("bindings", "reply values by scope", CX)], HOST)

prop("C10", "Stored values are seen by later actions and exported as configured",
     "A value stored by an action can be read under its path by every action evaluated afterwards for the same request, the latest value winning; an action that reads a path some action may still store waits for it, and one that reads a path nobody will store any more never waits: it sees null or fails alone. When export is asked for, the proxy property named after the escaped path below the kuadrant namespace is set to the value's encoding, exactly once per store.",
     ["schedules", "configurations"],
     "stores at any place of bounded action trees (nested, conditional, failing, repeated) x readers of every type x reply orders; exported values of every type",
     "Unit tests exercise the value store in isolation, not its interplay with pending actions and replies.",
     [CX, T + "store.rs", CEL],
     [("reservation of paths", CX + ":ValueStore/PathReservation"), ("store task", T + "store.rs:apply")],
     [("values, reserved", "stored values and paths still to be stored", CX)], HOST + ["properties set"])

prop("C11", "Header actions change exactly the headers they name",
     "A headers action leaves the target map with each named header, compared without regard to case, holding exactly the given value, and every other header with its order and repeated values as it was; several actions compose in the order in which they complete, each seeing the effect of the earlier ones. Headers of the response are changed once the response headers are there, and a failing or false action changes nothing.",
     ["inputs", "schedules", "configurations"],
     "all initial maps of bounded size over names differing in case and repeated, all header values returned by an expression in each supported shape, all sequences of up to three actions, both targets",
     "Unit tests check a few maps with one spelling.",
     [T + "headers.rs", K + "data/headers.rs", CX],
     [("set/remove/get", K + "data/headers.rs:Headers"), ("header task", T + "headers.rs:apply")], (), ["header maps written back"])

prop("C12", "The most specific matching host and first matching rule are selected",
     "A request is handled by the action sets of the most specific configured hostname that covers its host (exact before longer wildcard before shorter wildcard before '*'), without regard to case and port; among these the first whose route predicates all hold is run, and no other. A request that matches none passes untouched and is counted as a miss, and a predicate that cannot be evaluated answers 500 instead of letting the request through.",
     ["configurations", "inputs"],
     "all sets of up to three hostnames from a universe of exact, wildcard and overlapping names x all request hosts (case, port, IPv6, suffix tricks) x predicate outcomes",
     "Tests hold a handful of host/pattern pairs; overlap of wildcards and fall-through are combinatorial.",
     [FA], [("reversed-domain trie", FA + ":reverse_subdomain/select_blueprint"), ("predicates", CEL + ":PredicateVec")], (),
     ["the call a request triggers", "hits/misses/errors counters"])

prop("C13", "Reconfiguration is atomic and leaves requests in flight alone",
     "A request is processed entirely under the configuration that was in force when it arrived, however many reconfigurations follow before it ends. A valid configuration applies to every later request as a whole; an invalid one is refused as a whole and the one before stays in force.",
     ["histories", "schedules", "configurations"],
     "all histories of up to four valid/invalid configurations interleaved with the events of concurrent requests",
     "Tests configure once.",
     [RC, FA, KF],
     [("factory swapped on configure", RC + ":on_configure"), ("factory captured per request", KF + ":new")], (), HOST)

prop("C14", "Service descriptors are fetched until every service has one",
     "After a configuration is accepted, every dynamic service it uses that has no descriptor is asked for, and asked for again on every later tick until a usable descriptor arrived, but never while a fetch for it is in flight, across failed, partial, malformed and unrelated answers and across reconfigurations; ticks are armed when there is something to fetch. A call to a service without descriptor is a failed call, and works as soon as the descriptor is there; descriptors already obtained are kept.",
     ["histories", "fault_sequences", "schedules"],
     "all histories of bounded length over {configure with several valid and invalid configurations, tick, reply full/partial/mixed/lacking/unrelated/garbage/empty/status/stale/unknown, fetch refused by the proxy}, each service probed with a request after every step",
     "The unit tests check single transitions of the descriptor cache.",
     [K + "filter/descriptor_manager.rs", RC],
     [("descriptor states", K + "filter/descriptor_manager.rs"), ("fetch on configure and tick", RC)],
     [("descriptor table", "Embedded/Missing/Pending/Resolved per service", K + "filter/descriptor_manager.rs")], ["fetch calls", "tick period", "calls made for requests"])

prop("C15", "Concurrent requests do not influence each other",
     "When several requests are processed by the same filter instance at the same time, each one's calls, payloads, headers, replies, pauses and counters are what they would be if it were alone, whatever the interleaving of their callbacks and replies, and whether or not some of them are aborted midway. (Only a trace export may batch finished spans of several requests.)",
     ["schedules"],
     "all interleavings of the complete event sequences of two (and three) requests over bounded action trees, with tracing on and off",
     "Tests process one request at a time.",
     [KF, CX, EX, K + "tracing/processor.rs"],
     [("one context per stream", KF), ("per-request caches", K + "kuadrant/cache.rs")], (), HOST)

prop("C16", "The counters count each request's outcome exactly",
     "Every accepted configuration counts one config; every request counts exactly one hit when an action set is run for it, one miss when none matches, one error when selection fails; every local reply of an action or failed call counts one denied, every failed call that is settled by its failure mode and every terminal fail counts one error, and every response that starts counts one allowed. Nothing else is counted.",
     ["schedules", "fault_sequences", "configurations"],
     "every event of every execution of the other scenarios, plus selection outcomes",
     "The counters are asserted on a few scripted paths.",
     [K + "metrics/mod.rs", KF, T + "send_reply.rs", T + "failure_mode.rs", T + "fail.rs", RC],
     [("increments", K + "metrics/mod.rs")], (), ["metric increments per callback"])

prop("C17", "One request identifier and trace context accompany every call",
     "Every gRPC call made for a request carries exactly one x-request-id: the client's when it sent one, otherwise one generated value that is the same for the whole request and differs between requests; and it continues the client's trace context and baggage. When an identifier header is configured, that same identifier is put on the response, or on the local reply when the filter answers, whatever characters it contains.",
     ["inputs", "schedules", "configurations"],
     "client identifiers over an alphabet of quoting and non-ASCII characters x header spellings x configurations x outcomes; bounded trace header values",
     "Tests use one well-behaved identifier.",
     [CX, BP, K + "tracing/propagation.rs", T + "send_reply.rs"],
     [("tracker", CX + ":Tracker"), ("propagation", K + "tracing/propagation.rs")], (), ["call metadata", "response headers", "local reply headers"])

prop("C18", "With tracing on, each request's spans are exported once",
     "With a tracing service and an identifier header configured, and spans collected (level INFO or finer, and the client's trace, if any, sampled), every request that runs an action set sends exactly one export to that service, when its processing is over, whether it was let through, refused or failed; the export is never a reason to hold or refuse the request, and its failure changes nothing. Every finished span is exported exactly once, those of a request at the latest with its own export (an export may also carry finished spans of other requests). A request's spans form one tree under one root that names the action set, the host and the request id and continues the client's trace when there is one. The calls of each action of the set, those its replies lead to included, name spans in a branch of that tree of the action's own.",
     ["schedules", "fault_sequences", "configurations"],
     "action trees of bounded size x reply orders x outcomes x export refused or failing",
     "The tests check one export on one path.",
     [T + "export_traces.rs", K + "services/tracing.rs", K + "tracing/processor.rs", CX, EX],
     [("teardown", EX + ":execute_teardown"), ("span buffer", K + "tracing/processor.rs")], (), ["calls to the tracing service, decoded"])

prop("C19", "JSON body fields are extracted exactly, however the body is chunked",
     "The scalar value (string, number, boolean or null) an action reads from a request or response body by JSON pointer is the value a JSON parser finds there for the whole body, whatever the split into chunks (including inside multi-byte characters and escapes), whether or not earlier chunks were already let through, and whatever replies arrive between the chunks. A body that is not JSON or lacks the field makes only the depending action fail; a field that was complete before the body ends early or turns out malformed may be used.",
     ["inputs", "schedules"],
     "bounded JSON documents with nesting, escapes, numbers, look-alike keys x pointers x every split into up to three chunks x paused/continued between chunks",
     "Tests feed one or two fixed splits.",
     [T + "store/json_body_parser.rs", T + "store.rs", T + "token_usage.rs", CX],
     [("incremental parser", T + "store/json_body_parser.rs"), ("offset bookkeeping", T + "store.rs")], (), ["payload of the depending call", "exported properties"])

prop("C20", "Event stream fields are extracted exactly, however the body is chunked",
     "For a text/event-stream response the value read by JSON pointer is taken from the last event with data before the terminating one, as the event stream format defines events (line endings CR, LF or CRLF, comments, multi-line data, unknown fields), whatever the split of the stream into chunks, including inside multi-byte characters and line endings.",
     ["inputs", "schedules"],
     "event streams composed of bounded sequences of lines x line endings x every split into up to three chunks",
     "Tests feed one or two fixed splits.",
     [T + "store/sse_body_parser.rs", T + "store/sse_body_parser/sse_line_parser.rs", T + "token_usage.rs"],
     [("line parser", T + "store/sse_body_parser/sse_line_parser.rs"), ("event parser", T + "store/sse_body_parser.rs:EventParser")], (), ["payload of the depending call", "exported properties"])

prop("C21", "Messages are faithful: what is configured is sent, what is replied is read",
     "The message of a call is the protobuf encoding of exactly the fields its expression gives, for every scalar type, enum, nested, repeated and map field, oneof and well-known type; a value outside the field's range or of another type makes the call fail instead of being sent altered. The fields of a reply (of at least one byte) are seen by expressions with exactly the values encoded, unset fields as their defaults or as absent.",
     ["inputs"],
     "all field types x boundary values of each type x singular/repeated/map/oneof, in both directions",
     "Tests convert a few values per type; range boundaries and type mismatches are not enumerated.",
     [K + "services/dynamic/converters.rs", K + "services/dynamic.rs"],
     [("conversion", K + "services/dynamic/converters.rs:MessageConverter")], (), ["payload of dispatched calls", "effects computed from replies"])

prop("C22", "Legacy rate-limit actions ask and act as the protocol prescribes",
     "A rate-limit action calls the limiter with its scope as domain and exactly the descriptor entries its data and conditions yield plus the request data, domain and hits addend taken from the well-known keys when given and the addend one by default; it makes no call when its predicates do not hold or it has conditional data none of which applies. OVER_LIMIT answers 429 with the limiter's headers, OK lets the request through with the limiter's headers on the response, any other code is answered 500 and a failed call is settled by failureMode; a report that uses the response is sent when it is there, no other action waits for a report, and no report refuses a request by its answer.",
     ["inputs", "configurations", "schedules", "fault_sequences"],
     "service kinds x data items (static, expression, conditional, null, typed) x conditions x replies (codes x headers) x order with other actions",
     "The tests script a few configurations and replies.",
     [K + "configuration/legacy_translation.rs", BP, K + "services/dynamic/converters.rs"],
     [("translation", K + "configuration/legacy_translation.rs")], (), ["decoded limiter requests", "replies and headers"])

prop("C23", "Legacy auth actions ask and act as the protocol prescribes",
     "An auth action sends the authorization service the request's attributes (method, path, host, headers, scheme, protocol, time, source, destination) and its scope and request data as context; a denied reply is answered with the service's status (403 when it gives none), headers and body, an OK reply lets the request through with the given request headers set and its metadata readable as auth values, and a reply that is neither or uses unsupported fields (response headers to add, headers to remove, query parameters) is answered 500. A request that needs authorization is not let through before an OK reply, unless the call failed and its failureMode is allow.",
     ["inputs", "configurations", "schedules", "fault_sequences"],
     "request attribute values x replies (status, denied/ok bodies, headers, metadata shapes, unsupported fields) x order with other actions",
     "The tests script a few replies.",
     [K + "configuration/legacy_translation.rs", BP, K + "services/dynamic/converters.rs"],
     [("translation", K + "configuration/legacy_translation.rs")], (), ["decoded check requests", "replies, headers and properties"])

prop("C24", "No client input can take the filter down",
     "Whatever a client or upstream sends in headers, path, query, host, addresses and bodies, and whatever a service replies, every callback returns without a panic and leaves the filter able to process further requests; a request whose attributes cannot be read is either processed or refused, never left hanging.",
     ["inputs", "fault_sequences"],
     "malformed and boundary values of every client-controlled input x every host call that can fail",
     "Tests feed well-formed input.",
     [CX, CEL, K + "data/cel/strings.rs", K + "data/attribute.rs", FA, KF],
     [("error propagation", K)], (), ["panics", "callbacks' results"])

prop("C25", "CEL string functions compute what their specification says",
     "charAt, indexOf, lastIndexOf, join, lowerAscii, upperAscii, replace, split, substring and trim compute, for every receiver and arguments, what the CEL strings extension specifies in terms of code points, and report an error where it specifies one; none of them panics or counts bytes.",
     ["inputs"],
     "all strings up to length 4 over an alphabet of one-, two-, three- and four-byte characters x all arguments and offsets in and out of range",
     "Tests use ASCII and offsets in range.",
     [K + "data/cel/strings.rs", CEL],
     [("functions", K + "data/cel/strings.rs")], (), ["value carried by a call"])

prop("C26", "Attributes reach expressions with their documented type and value",
     "Every attribute of the request, source, destination, connection and metadata that the proxy provides is seen by conditions and expressions with its documented type and exact value, including optional and custom ones and names that need escaping; an attribute the proxy does not know is null, one that is not available yet makes the action wait, and a failing one makes only the depending action fail. source.remote_address is the client address without port, IPv6 included.",
     ["inputs", "configurations"],
     "every well-known attribute x boundary values of its type x {present, absent, not yet available, failing}, map and index access, path escaping",
     "Tests read a few attributes.",
     [CEL, K + "data/attribute.rs", CX, W + "wasm_host.rs"],
     [("well-known attributes", CEL + ":new_well_known_attribute_map"), ("path parsing", K + "data/attribute.rs:Path")], (), ["value carried by a call", "property paths asked for"])

prop("C27", "Configurations are accepted or refused as documented, with defaults",
     "A configuration with all documented fields, or with optional ones left out, is accepted and behaves according to the values given or the documented defaults (timeout 20ms, failureMode deny, guard, parallel); timeouts in the documented notation reach the calls exactly. A configuration with an unknown service, invalid expression, unparseable duration, unknown kind or nested execution mode is refused.",
     ["configurations"],
     "every optional field present/absent x bounded values, every single-fault mutation of a valid configuration",
     "Tests parse a few configurations.",
     [K + "configuration.rs", BP, RC],
     [("deserialisation", K + "configuration.rs")], (), ["result of configure", "timeouts and effects of calls"])

prop("C28", "gRPC requests are recognised and named exactly",
     "request.grpc.service and request.grpc.method are defined exactly when the content type is application/grpc, bare or with a suffix or parameter, and the path is /service/method with both parts non-empty; they then hold exactly these two parts. For every other request they are absent, and conditions guarded by has() are false.",
     ["inputs"],
     "all paths up to bounded length over an alphabet of slashes, dots and letters x content type variants",
     "Tests list a dozen paths.",
     [K + "data/grpc.rs", CEL],
     [("path and content type parsing", K + "data/grpc.rs")], (), ["calls made under conditions on request.grpc"])

prop("C29", "Route conditions see the query parameters as sent",
     "In the predicates of routeRuleConditions, queryMap(request.query) holds each parameter under its percent-decoded name with its percent-decoded value: everything after the first '=', '' when there is none; the first value when a name is repeated (or with false), the list of all of them with true. Escapes that do not decode stand for themselves. Action sets apply or not accordingly, for every query string; no query makes the request fail. How '+' and parameters without a name are read is left open.",
     ["inputs"],
     "all query strings up to a bounded number of tokens over names, '=', '&', escapes (multi-byte, undecodable, of '=' and '&') x conditions that compare, test for presence and list",
     "Tests call the function on a few query strings and never through a request.",
     [K + "data/cel.rs", BP, KF],
     [("queryMap", K + "data/cel.rs:decode_query_string")], (), ["whether the action set's deny reply is sent"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
