NA = {}
T["C01"] = ("property-based testing: type-directed generation, round trip", "Randomised search over values of every encodable type; trusts the reference equality (documented identifications).")
T["C02"] = ("property-based differential testing against an independent reference codec", "Randomised search; trusts the reference encoder written from Part 6 and the schema in the repository.")
T["C03"] = ("structure-aware fuzzing with a reference decoder, allocation and nesting oracles", "Randomised mutation of encodings of every type; memory and time bounds are generous constants.")
T["C04"] = ("property-based testing: round trip and differential against an independent parser/formatter", "Randomised search over identifiers, texts and namespace tables.")
T["C14"] = ("model-based property testing of the Read service over the wire", "Randomised search over nodes, attributes and request lists; the model of attributes per node class is the oracle.")
T["C15"] = ("model-based property testing of write/read histories over the wire", "Randomised search over declarations and values; fit is judged at the level of built-in types and ranks.")
T["C16"] = ("property-based testing against slicing and splicing as the oracle", "Randomised search over value types, lengths and range texts.")
T["C17"] = ("model-based property testing of Browse/BrowseNext histories over the wire", "Randomised search over reference graphs, filters, page sizes and continuation point histories of several sessions; the model graph is the oracle.")
T["C18"] = ("property-based testing against a path search over a model graph", "Randomised search over reference graphs and relative paths; order and duplicates of targets are not judged.")
T["C13"] = ("property-based testing of permission configurations against a permission model; rule evaluation against a reference", "Randomised search over role rules, permission sets, access levels and all node services; one known finding (rules never see application and endpoint).")
T["C19"] = ("stateful model-based testing of the address space", "Randomised histories of additions and deletions compared with a reference graph; concurrent histories sample schedules.")
T["C20"] = ("property-based testing of type hierarchy queries against an independent walk of the hierarchy", "Randomised type forests and changes; standard hierarchy parsed independently.")
T["C28"] = ("model-based property testing of Call batches with a log of handler invocations", "Randomised search over methods, arguments and concurrent batches.")
T["C21"] = ("stateful model-based testing of monitored items over the wire, samples driven deterministically", "Randomised histories of values, samples, publishes and parameter changes compared with a queue model.")
T["C22"] = ("model-based property testing of data-change filters over the wire", "Randomised value histories per trigger, deadband and type; percent deadband and NaN differences are not judged.")
T["C25"] = ("stateful model-based testing of monitoring modes and triggering links over the wire", "Randomised histories of mode changes, links, samples and publishes compared with a model.")
T["C29"] = ("property-based testing of operation limits and stateful testing of capacities", "Randomised limits, list lengths and create/close histories; a limit of zero is not judged.")
T["C23"] = ("stateful model-based testing of Publish/Republish histories with lost connections", "Randomised histories of several subscriptions per session compared with a model of sequence numbers and the retransmission queue.")
T["C24"] = ("property-based testing of revised settings; real-time histories against timing bounds", "Randomised parameters and pauses; timing is judged with three seconds of slack.")
T["C26"] = ("model-based property testing of event delivery over the wire; concurrent event storms", "Randomised notifier graphs, select and where clauses, mode changes and queue overflow; null and mixed-type comparisons are not judged.")
T["C05"] = ("property-based testing with an independent protocol stack as the peer", "Randomised policies, modes, keys, buffer sizes, message sizes near chunk boundaries, renewals and pipelining; the independent stack checks every byte it receives.")
T["C06"] = ("mutation-based fuzzing of sealed traffic with an execution oracle", "Randomised alterations, forgeries, replays and reorderings of chunks; a tampered request would change a value that is watched.")
T["C08"] = ("property-based testing of sizes around negotiated limits", "Randomised limits and message sizes; whether a message fits is decided by arithmetic on Part 6 chunk layouts.")
T["C09"] = ("model-based property testing over generated certificate hierarchies", "Randomised hierarchies, trust folders, revocation lists and suppression settings against an own chain search, directly and through channel opening.")
T["C10"] = ("model-based property testing of activation histories with spoilt credentials; client logins against the real server", "Randomised search over policies, keys, credentials and histories; the model of what each credential proves is the oracle.")
T["C11"] = ("stateful model-based testing of session tokens over several channels; real-time expiry histories", "Randomised histories; every service is tried with right, foreign, closed, unactivated and forged tokens.")
T["C12"] = ("stateful model-based testing of several sessions using each other's identifiers", "Randomised histories; a model of ownership gives every result and every notification.")
T["C07"] = ("stateful fuzzing of services, raw bytes and stalled peers with a well-behaved client as the health oracle", "Randomised requests with hostile field values, byte streams at every stage, races between connections and peers that do not read; a request may take up to a minute.")
T["C27"] = ("property-based testing against a scripted fault-injecting server built on an independent protocol stack", "Randomised answers (order, delay, loss, duplication, wrong types), renewals, connection losses and callers; timing is judged with four seconds of slack.")
T["C31"] = ("property-based testing of concurrent histories against a linearizability checker", "Randomised histories of several sessions and the application; the checker searches all orders consistent with real time, so what is found is exact, but schedules are sampled.")
T["C32"] = ("model-based property-based testing with a recording historian", "Randomised requests, permissions, details and historian results; access level bits and entries for unknown nodes are not judged.")
T["C30"] = ("property-based testing: documents generated from a model of the address space, structure-aware mutation", "Randomised documents over the supported node classes and value types; matrices, other structures and several display names are not generated.")
T["C33"] = ("stateful model-based property-based testing of the diagnostics nodes", "Randomised sequential histories; counters of live delivery are only compared between structure and component, HistoryRead and unimplemented counters are not judged.")
T["C34"] = ("property-based testing of configurations against a model of the endpoints, and by using them", "Randomised configurations, filters and uses; locales of discovery requests are not judged.")
