#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the wording lives in one readable place."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n,m,w in state],
            mechanism=[dict(name=n, where=w) for n,w in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Binary encoding round-trips every value",
  "Encoding any value of a built-in type, enumeration, array, one- to three-dimensional Variant array, DataValue, DiagnosticInfo, ExtensionObject or generated service/information structure, and decoding the bytes, yields an equal value and consumes exactly the bytes that were produced, alone or inside a longer stream. Equality is up to the documented identifications only: null and empty strings, byte strings and arrays are the same, and times are kept in whole 100 ns ticks between the years 1601 and 9999. No value ever encodes without error into bytes that decode to a different value.",
  ["inputs"], "every value of every type the binary encoder accepts, at any nesting",
  "The codec tests encode one or two hand-picked values per type and compare a few bytes; extreme numbers, NaN payloads, nested variants, empty and multi-dimensional arrays, optional-field masks and the 250+ generated structures are not sampled.",
  ["ua/binary_encoder.go","ua/binary_decoder.go","ua/structs.generated.go","ua/binary_registry.go"],
  [("getEncoder/getDecoder build per-type codecs by reflection","ua/binary_encoder.go, ua/binary_decoder.go"),("WriteVariant/ReadVariant type switch and array dimensions","ua/binary_encoder.go, ua/binary_decoder.go")],
  observe=["ua.BinaryEncoder.Encode","ua.BinaryDecoder.Decode"])
p("C02", "Wire bytes follow the OPC UA binary encoding",
  "The bytes the encoder emits for a value are exactly those that OPC UA Part 6 (UA Binary) prescribes for it: little-endian scalars, GUID byte order, 1601-based ticks, the most compact NodeId form, presence masks, type ids, dimension lists and ExtensionObject lengths. The decoder reads every conforming encoding of a value, including non-minimal NodeId forms and null (-1) lengths, to that value.",
  ["inputs"], "every value and every conforming encoding of it",
  "A self round-trip cannot see a symmetric mistake, and the tests compare bytes for about a dozen constants.",
  ["ua/binary_encoder.go","ua/binary_decoder.go"],
  [("field order and masks of each Write*/Read* pair","ua/binary_encoder.go, ua/binary_decoder.go")], observe=["ua.BinaryEncoder.Encode","ua.BinaryDecoder.Decode"])
p("C03", "Decoding arbitrary bytes is total and bounded",
  "Decoding any byte sequence as any supported type either returns a value or returns an error; it never panics, never exhausts the stack, never loops, and never allocates memory out of proportion to the number of bytes received. A malformed or truncated encoding is reported as an error and not silently decoded into a value with misaligned fields. A body whose type the decoder does not know is skipped by its declared length, so what follows it still decodes.",
  ["inputs"], "every byte sequence, including truncations and mutations of valid encodings, for every target type",
  "The tests only decode bytes the encoder itself just produced.",
  ["ua/binary_decoder.go"], [("length checks, nesting limit and error returns of each Read*","ua/binary_decoder.go")], observe=["ua.BinaryDecoder.Decode"])
p("C04", "Identifier text forms and namespace mapping are inverse",
  "Formatting any NodeID, ExpandedNodeID or QualifiedName and parsing the text gives back the same identifier, distinct identifiers never format alike, and text that is not a valid identifier parses to the nil identifier. Converting a NodeID to an ExpandedNodeID and back over a table of namespace URIs gives the same NodeID.",
  ["inputs"], "all namespace indexes, identifier kinds and contents, including separators, empty strings and non-ASCII text",
  "The tests parse a handful of literal ids.",
  ["ua/nodeid.go","ua/expanded_nodeid.go","ua/qualified_name.go"], [("String/Parse pairs","ua/nodeid.go, ua/expanded_nodeid.go, ua/qualified_name.go"),("ToNodeID/NewExpandedNodeID","ua/expanded_nodeid.go")], observe=["ua.ParseNodeID","ua.ParseExpandedNodeID","ua.ParseQualifiedName"])
p("C05", "Secure channels deliver every message intact",
  "For every supported security policy and message security mode, every negotiated buffer size and every message size up to the negotiated limits, a request sent by a conforming peer reaches the service unchanged and its response comes back unchanged and matched to the request, also across chunk boundaries and security-token renewals. The bytes each side puts on the wire (chunk headers, padding, signature, encryption, key derivation, sequence numbers) are what OPC UA Part 6 prescribes, so an independent implementation of the protocol can talk to both the server and the client.",
  ["inputs","configurations","histories"], "all policies x modes, buffer sizes, message sizes, chunkings and renew points",
  "The tests exchange a few small messages with the library's own client, one buffer size, and never renew a token; matching mistakes in client and server cancel out.",
  ["server/server_secure_channel.go","client/client_secure_channel.go","ua/security_policy.go"],
  [("sendResponse/readRequest chunking, padding, sign, encrypt","server/server_secure_channel.go"),("sendRequest/readResponse","client/client_secure_channel.go"),("per-policy primitives","ua/security_policy.go")],
  state=[("security tokens and derived keys","current and previous keys of the channel","server/server_secure_channel.go, client/client_secure_channel.go")], observe=["TCP connection","service results"])
p("C06", "Tampered, forged or replayed traffic is never accepted",
  "On a channel with Sign or SignAndEncrypt, no service is executed and no response is accepted for a chunk whose bytes were altered, which was signed with other keys, which names an unknown channel or token, or which is an earlier chunk sent again or a later one sent out of order; the receiver closes the channel instead. A channel is only opened for a policy and mode the server offers, with a nonce of the required length and a certificate that proves possession of its key.",
  ["inputs","fault_sequences"], "every position and kind of alteration of every message of a secured conversation, both directions",
  "The tests never alter traffic.",
  ["server/server_secure_channel.go","client/client_secure_channel.go","ua/security_policy.go"],
  [("signature, token and sequence verification in readRequest/readResponse","server/server_secure_channel.go, client/client_secure_channel.go")], observe=["TCP connection","service side effects"])
p("C07", "No peer can crash or wedge the server",
  "Whatever bytes or service requests any peer sends on any number of connections, with or without security and at any point of the connection or session life cycle, the server process stays up and keeps serving other, well-behaved clients. Each such peer gets a proper error response or is disconnected.",
  ["inputs","histories","fault_sequences"], "all byte streams and all sequences of structurally valid requests with arbitrary field values",
  "Tests only run well-formed happy paths; one panic in any goroutine kills the process.",
  ["server/server_secure_channel.go","server/server.go","server/server_service_set.go","server/session.go","server/session_manager.go","server/event_monitored_item.go"],
  [("validation in readRequest and in each service handler","server/*.go")], observe=["process liveness","health session"])
p("C08", "Negotiated transport limits are honoured",
  "The server never sends a chunk larger than the peer's receive buffer, a response message larger than the peer's maximum message size or with more chunks than the peer's maximum; it answers with an error instead. It rejects chunks and messages beyond the limits it announced, accepts everything within them, and the Acknowledge it sends never exceeds what either side offered. The client likewise sends nothing beyond the limits the server announced (it reports an error and stays usable) and takes every response within its own limits and none beyond.",
  ["inputs","configurations"], "all Hello parameters, request sizes and response sizes around each limit",
  "All tests use the default 64 KB / 64 MB / 4096 limits with small messages.",
  ["server/server_secure_channel.go"], [("Hello/Acknowledge negotiation, chunk-size computation, message-size checks","server/server_secure_channel.go")], observe=["TCP connection"])
p("C09", "Certificates are accepted exactly when the trust rules allow",
  "A peer certificate is accepted exactly when it is within its validity period, has the required key usage, builds a chain through the supplied, trusted and issuer certificates to a self-signed root, has a trusted certificate somewhere in that chain, no certificate of the chain is revoked by any available current revocation list of its issuer, the revocation state of each non-root certificate of the chain is known, and (for servers) matches the host name; each check may only be waived by its own suppression setting (tolerating incomplete chains lets a certificate serve as its own trusted root), and an actual revocation is never waived. A rejected certificate is stored in the rejected folder when one is configured.",
  ["inputs","configurations"], "all chain shapes, trust-list contents, revocation lists, validity windows, usages, host names and suppression settings",
  "The tests run with verification disabled or with one self-signed certificate.",
  ["ua/certificate_helpers.go","ua/certificate_list.go"], [("ValidateCertificate","ua/certificate_helpers.go")], observe=["ua.ValidateCertificate"])
p("C10", "Only authenticated identities obtain an active session",
  "A session becomes active exactly when the client proves possession of the channel's certificate key over the server's current nonce and the presented identity token is of an offered policy and accepted by the matching authenticator, which sees precisely the user name and password (or user certificate, with proof of its key) the client supplied, for every policy. A missing, wrong, replayed or wrongly encrypted credential is refused, leaves the session as it was, and never brings down the server.",
  ["inputs","configurations","histories"], "all identity kinds, credentials (any length and content), policies, authenticator verdicts and activation histories",
  "Tests log in once with a fixed password per policy; wrong, empty, long and multi-block passwords, tampered signatures and re-activation are not covered.",
  ["server/server_service_set.go","server/session_manager.go","server/auth_provider.go","client/client.go"], [("handleCreateSession/handleActivateSession","server/server_service_set.go"),("identity token encryption in Client","client/client.go")], observe=["CreateSession/ActivateSession results","authenticator callbacks"])
p("C11", "Session tokens work only on their own activated channel",
  "A service request is executed only if it names the authentication token of a live session that has been activated on the very secure channel carrying the request; unknown, closed, expired, not-yet-activated or foreign-channel tokens are refused with an error and have no effect. Tokens are unique and unpredictable, a session expires after its revised timeout without requests and never earlier, and a discovery-only connection reaches nothing but the discovery services.",
  ["histories","inputs","schedules"], "all interleavings of create/activate/use/close/expire/reconnect over several channels and sessions",
  "Tests use one session per connection and always the right token.",
  ["server/server_service_set.go","server/session_manager.go","server/session.go","server/server_secure_channel.go"], [("token lookup and secureChannelId comparison in every handler","server/server_service_set.go"),("session expiry check","server/session_manager.go")], observe=["service results"])
p("C12", "Subscriptions and continuation points belong to one session",
  "No request of one session can observe, modify, acknowledge, republish or delete the subscriptions, monitored items, notifications or continuation points of another session; it gets the same error as for an identifier that does not exist (or, from the standard methods of the Server object, access denied). Deleting a subscription or closing a session with delete removes exactly what it owns.",
  ["histories"], "all interleavings of subscription, monitored-item, publish and browse requests by several sessions",
  "Tests run a single session at a time.",
  ["server/server_service_set.go","server/subscription_manager.go","server/session.go"], [("ownership check on each subscription service","server/server_service_set.go")], observe=["service results","notifications"])
p("C13", "Role permissions and access levels gate every operation",
  "A user can see, read, write, call or receive events from a node only if one of the roles the server assigns to that user grants the corresponding permission on the node (or by default), and, for current values, only if the node's access level allows it (history needs the read-history permission); otherwise the operation is refused with the documented status and has no effect. A user holding a granting role is never refused, whatever the other rules, roles or their order.",
  ["inputs","configurations"], "all role rules, permission sets, identities, node classes and operations",
  "Tests use one operator account and two variables.",
  ["server/roles_provider.go","server/variable_node.go","server/method_node.go","server/object_node.go","server/server.go","server/server_service_set.go"], [("IsUserPermitted / UserRolePermissions / UserAccessLevel","server/*.go"),("RulesBasedRolesProvider.GetRoles","server/roles_provider.go")], observe=["Read/Write/Browse/Call/CreateMonitoredItems results"])
p("C14", "Reads return the addressed attribute, value and timestamps",
  "Each entry of a Read response corresponds to the entry at the same position of the request and carries the current value of exactly that node's attribute with exactly the requested timestamps, or the documented bad status when the node, attribute, encoding or index range does not exist. Invalid requests (no entries, too many, negative max age, bad timestamp selector) are refused as a whole.",
  ["inputs","histories"], "all nodes, node classes, attribute ids, timestamp selectors, list sizes and orders",
  "Tests read a dozen fixed nodes one attribute at a time.",
  ["server/server_service_set.go","server/server.go"], [("handleRead / readValue","server/server_service_set.go, server/server.go")], observe=["Read response"])
p("C15", "Writes take effect exactly or not at all",
  "After a Write, every entry whose result is Good is what subsequent reads (through the service and the node) return, and every entry with a bad result has changed nothing. A value is accepted exactly when the node is writable and its built-in type and rank fit the node's data type and value rank; other attributes than the writable ones are refused.",
  ["inputs","histories"], "all declared data types, ranks, access levels, written values and write/read histories",
  "Tests write one matching value per built-in type.",
  ["server/server_service_set.go","server/server.go","server/variable_node.go"], [("handleWrite / writeValue type and rank check","server/server_service_set.go, server/server.go")], observe=["Write results","Read results","VariableNode.Value"])
p("C16", "Index ranges select and replace exactly that sub-range",
  "Reading with an index range returns exactly the elements lo..hi (clipped at the end of the value) of an array, string or byte string, and nothing but a documented bad status for a malformed, empty or out-of-bounds range. Writing with an index range replaces exactly those elements when the width matches, keeps all others, leaves previously obtained values untouched, and otherwise changes nothing.",
  ["inputs","histories"], "all range texts, value types and lengths, and replacement values",
  "Tests use three ranges on one array.",
  ["server/server.go","server/server_service_set.go"], [("parseBounds/readRange/writeRange","server/server.go")], observe=["Read/Write results"])
p("C17", "Browse returns exactly the matching references, once each",
  "Browsing a node returns exactly the references that satisfy the requested direction, reference type (with or without subtypes), node-class mask and visibility, with the requested fields of each target, and following continuation points to the end yields each such reference exactly once in the order of an unpaged browse, whatever page sizes are used. A continuation point works once, only in its session, disappears when released, and an unknown or used one is refused with an error.",
  ["inputs","histories","configurations"], "all graphs, filters, page sizes and browse/next/release histories",
  "Tests browse one folder with default settings.",
  ["server/server_service_set.go","server/session.go","server/namespace_manager.go"], [("handleBrowse/handleBrowseNext","server/server_service_set.go"),("browse continuation points","server/session.go")], observe=["Browse/BrowseNext results"])
p("C18", "Browse paths resolve to exactly the nodes they name",
  "Translating a browse path returns nodes reachable from the start by following, element by element, references of the given type and direction (with subtypes when asked) to targets with the given browse name, and reports no match exactly when there is none. Malformed paths and unknown start nodes are refused with the documented status, per path.",
  ["inputs","configurations"], "all graphs and relative paths",
  "Tests translate three fixed paths.",
  ["server/server_service_set.go","server/server.go"], [("handleTranslateBrowsePaths / follow","server/server_service_set.go, server/server.go")], observe=["TranslateBrowsePathsToNodeIds results"])
p("C19", "The address space stays consistent under any add/delete history",
  "After any sequence of node additions and deletions (single, batch, recursive, concurrent), a node is found exactly if it was added and not deleted since, no remaining node refers to a deleted one (except by one-way type-definition and modelling-rule references), every reference to a node that was present, or added in the same call, has its inverse counterpart there, nodes of the standard namespace cannot be deleted by id, and a recursive delete removes exactly the deletable nodes reachable through ownership references (HasComponent, HasOrderedComponent, HasProperty, HasSubtype) and reports their number. Every such call returns, also when references form cycles or shared children.",
  ["histories","schedules"], "all histories and graph shapes, including cycles, diamonds and re-adding",
  "Tests delete a small tree once.",
  ["server/namespace_manager.go"], [("addNodes/deleteNode reference maintenance","server/namespace_manager.go")], observe=["FindNode","References()","Browse"])
p("C20", "Type-hierarchy queries agree with the declared hierarchy",
  "For every type hierarchy loaded into the server, asking whether one type is a subtype of another, for a type's supertype, its subtypes or the built-in encoding of a data type gives the answer implied by the HasSubtype references present at that moment, and always returns.",
  ["inputs","histories","configurations"], "all type trees and queries, before and after types are added or deleted",
  "No test asks about user-defined hierarchies or changes them.",
  ["server/namespace_manager.go"], [("IsSubtype/FindSuperType/GetSubTypes/FindVariantType","server/namespace_manager.go")], observe=["NamespaceManager queries"])
p("C21", "Monitored values are reported in order, losing only by queue policy",
  "A reporting monitored item delivers the first value and then every sampled change exactly once and in order, tagged with its client handle and requested timestamps, split over notifications only as the maximum per publish requires. When more changes accumulate than the revised queue size, exactly the oldest are dropped (discard oldest) or the newest replaced (otherwise), and the remaining value adjacent to the loss carries the overflow indication when the queue is longer than one. After ResendData every reporting item that has nothing queued delivers its current value once more.",
  ["histories","schedules","configurations"], "all value histories, sampling/publishing interleavings, queue sizes, discard policies and notification limits",
  "Tests subscribe to one slowly changing value with a large queue.",
  ["server/datachange_monitored_item.go","server/subscription.go"], [("Poll/enqueue/notifications queue","server/datachange_monitored_item.go"),("publish","server/subscription.go")], observe=["Publish responses"])
p("C22", "Data-change filters report exactly the significant changes",
  "A change is reported exactly when it is significant under the item's filter: status change only, status or value, or status, value or source timestamp; with an absolute deadband when some element moved by more than the deadband from the last reported value, for every numeric type, scalar or array, signed or unsigned. Filters that do not apply to the node are refused when the item is created or modified.",
  ["inputs","histories","configurations"], "all triggers, deadbands, numeric types, scalar/array values and value histories",
  "Tests never set a filter.",
  ["server/datachange_monitored_item.go","server/server_service_set.go"], [("equal / deadband functions","server/datachange_monitored_item.go")], observe=["Publish responses"])
p("C23", "Notification sequence numbers, acks and republish are consistent",
  "Within a subscription, notification messages carry consecutive sequence numbers starting at 1, keep-alives announce the next number without consuming it, and every unacknowledged message can be republished unchanged as often as asked until it is acknowledged or falls out of the bounded retransmission queue. Each acknowledgement in a Publish request is answered at its position with Good exactly if that message was available, and the available-sequence-numbers list is exactly what can be republished.",
  ["histories"], "all interleavings of publishes, acknowledgements, republishes and value changes",
  "Tests never acknowledge selectively and never republish.",
  ["server/subscription.go","server/server_service_set.go"], [("retransmission queue, sequence numbers","server/subscription.go"),("handlePublish/handleRepublish","server/server_service_set.go")], observe=["Publish/Republish responses"])
p("C24", "Subscription settings are revised and obeyed",
  "Revised publishing interval, keep-alive count and lifetime count always lie in the server's limits, keep lifetime at least three keep-alive periods, and equal the request where it is within limits. A subscription with outstanding publish requests answers at least once per keep-alive period, sends no data while publishing is disabled, and a subscription is removed (with a timeout status notification) when, and only when, no request for it (Publish or another service naming it) arrived for its lifetime, to within a keep-alive period.",
  ["inputs","configurations","histories"], "all requested parameters including zero, negative, huge and NaN, and all publish/pause histories",
  "Tests use one parameter set.",
  ["server/subscription.go","server/server_service_set.go","server/subscription_manager.go"], [("parameter setters and publish tick","server/subscription.go")], observe=["CreateSubscription/ModifySubscription/Publish responses"])
p("C25", "Monitoring modes and triggering select what is reported",
  "A disabled item neither samples nor reports, a sampling item queues without reporting, and a reporting item reports; changing the mode takes effect for later samples, in any order of changes. A sampling item linked to a triggering item reports its queued values exactly when the triggering item queues a notification, and links and their removal answer per link with the documented status.",
  ["histories","configurations"], "all mode-change histories, link topologies and value histories",
  "Tests only use reporting items and no links.",
  ["server/datachange_monitored_item.go","server/subscription.go","server/server_service_set.go"], [("SetMonitoringMode / triggered items","server/datachange_monitored_item.go, server/subscription.go")], observe=["Publish responses","SetMonitoringMode/SetTriggering results"])
p("C26", "Events reach exactly the matching subscribers, fully and in order",
  "An event raised on an object is delivered once, in order, to every event item on that object and on each object above it in the notifier hierarchy whose filter accepts it, and to no other; the delivered fields are exactly the selected attributes in the order of the select clauses, null where the event has no such field. The where clause is evaluated as written for every combination of supported operators, and a clause the server cannot evaluate never crashes it.",
  ["inputs","histories","configurations"], "all event types, select/where clauses, notifier graphs and queue lengths",
  "Tests raise one event type with one select clause and no where clause.",
  ["server/event_monitored_item.go","server/namespace_manager.go","server/object_node.go","ua/base_event.go"], [("OnEvent / whereClause / selectFields","server/event_monitored_item.go"),("NamespaceManager.OnEvent","server/namespace_manager.go")], observe=["Publish responses"])
p("C27", "Client calls get their own response or a timely error",
  "Every client call returns the response to its own request, whatever the order, delay or interleaving of responses and the number of concurrent callers, or returns an error no later than its deadline or shortly after the connection is lost; no call hangs and no response is delivered to another call. After a connection failure every later call fails promptly.",
  ["schedules","fault_sequences","histories"], "all response orders, delays, drops, connection-loss points and caller concurrency",
  "Tests issue one call at a time against an always healthy server.",
  ["client/client_secure_channel.go","client/client.go"], [("pendingResponses correlation and requestWorker/responseWorker","client/client_secure_channel.go")], observe=["return of Client methods"])
p("C28", "Method calls dispatch the right method with the right arguments",
  "Each entry of a Call request invokes exactly the handler of the named method with the caller's session and the arguments as sent, at most once, and its result comes back at the same position; an unknown object or method, a non-method node, a user without execute permission or a method without handler is answered with the documented status and invokes nothing.",
  ["inputs","histories"], "all objects, methods, argument lists and batch shapes",
  "Tests call two methods once each.",
  ["server/server_service_set.go","server/method_node.go"], [("handleCall / callMethod","server/server_service_set.go")], observe=["Call response","handler invocations"])
p("C29", "Operation and capacity limits are enforced exactly",
  "Every service with an announced operation limit accepts lists up to the limit and refuses longer or empty ones as a whole without effect, and list results always match the request in number and position. Sessions and subscriptions are admitted exactly while their number is below the configured maximum, counting neither closed nor failed ones.",
  ["inputs","configurations","histories"], "all limit settings, list lengths, and create/close histories",
  "Tests never reach a limit.",
  ["server/server_service_set.go","server/session_manager.go","server/subscription_manager.go","ua/server_capabilites.go"], [("operation limit checks in handlers","server/server_service_set.go"),("Add in managers","server/session_manager.go, server/subscription_manager.go")], observe=["service results"])
p("C30", "Loading a nodeset reproduces the described address space",
  "After loading a UANodeSet document, the address space contains exactly the described nodes with the described class, names, attributes, values and references (plus inverses), with namespace indexes and aliases mapped through the document's own tables, whatever namespaces were registered before. A document that cannot be parsed is reported as an error.",
  ["inputs","configurations"], "all nodeset documents over all supported node classes, value types, aliases and namespace table permutations",
  "Tests load one document into a fresh server.",
  ["server/namespace_manager.go","ua/ua_node_set.go"], [("LoadNodeSet / toDataValue / alias and namespace mapping","server/namespace_manager.go")], observe=["FindNode","node getters","Browse/Read"])
p("C31", "Concurrent reads and writes of a value are linearizable",
  "Concurrent Read and Write requests of any number of sessions and concurrent updates by the application on the same variable behave as if executed one at a time in an order consistent with real time; a read never returns a mixture of two values or of one write's value with another's timestamp or status.",
  ["schedules","histories"], "all interleavings of readers and writers over sessions and application code",
  "Tests access a variable from one goroutine.",
  ["server/variable_node.go","server/server.go","server/server_service_set.go"], [("VariableNode lock","server/variable_node.go")], observe=["Read/Write results"])
p("C32", "History reads reach the historian under the rules",
  "A HistoryRead entry is handed to the server's historian, with the caller's details, range and continuation point, exactly when the user may read the node's history, and the historian's results come back at the matching positions; any other entry gets the documented bad status, and a server without historian refuses the request. A variable marked historizing offers every accepted value once, in order, to its historian.",
  ["inputs","histories"], "all batches over nodes with and without historian and permission, and all value histories",
  "Tests never read history.",
  ["server/server_service_set.go","server/history_read_writer.go","server/variable_node.go"], [("handleHistoryRead","server/server_service_set.go"),("SetValue historian call","server/variable_node.go")], observe=["HistoryRead response","HistoryReadWriter callbacks"])
p("C33", "Diagnostics tell the truth about sessions and subscriptions",
  "At any time, whatever was created, modified, closed or deleted before and in whatever order, the server's diagnostics agree with what the clients did: the current and cumulated session and subscription counts; a diagnostics object for each open session, with its id, name, endpoint, revised timeout, subscription and item counts and per-service request and error counts; an entry and a node for each existing subscription (also one that outlives its session) with its session, revised settings, priority, publishing state, modification count and item counts, and none for a deleted one. Each component variable shows the same as its structure.",
  ["histories"], "all histories of sessions, subscriptions, items and service calls",
  "Tests never read diagnostics beyond the enabled flag.",
  ["server/session_manager.go","server/subscription_manager.go","server/server.go","server/session.go","server/subscription.go"], [("addDiagnosticsNode / removeDiagnosticsNode","server/session_manager.go"),("addDiagnosticsNode / Add / Delete","server/subscription_manager.go"),("diagnostics read handlers","server/server.go")], observe=["Browse and Read of the ServerDiagnostics nodes"])
p("C34", "What discovery advertises is what the server accepts",
  "For every configuration of the server, GetEndpoints and CreateSession answer with exactly the configured endpoints (each security policy and mode, the unsecured one only if enabled) with the server's description and certificate and the token types it takes, under distinct policy ids, never with credentials unprotected, and with security levels that rise with the mode; profile and server uri filters select what they name; what one client asks changes nothing for others; and a combination of endpoint and identity is accepted if and only if it is advertised.",
  ["configurations","inputs"], "all sets of identity authenticators, endpoints with and without security, filters and combinations of policy, mode and identity",
  "Tests run against one configured server and ask for its endpoints once.",
  ["server/server.go","server/server_service_set.go"], [("buildEndpointDescriptions","server/server.go"),("handleGetEndpoints / handleFindServers / handleCreateSession / handleActivateSession","server/server_service_set.go, server/server.go")], observe=["GetEndpoints, FindServers, CreateSession and ActivateSession responses"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
print(len(P))
