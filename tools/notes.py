NOTE = {
 "C21": ("generated identities and byte strings against an independent encoder", "Round trips and differential comparison on generated identities, address forms and byte strings, including arbitrary and truncated ones."),
 "C22": ("generated type registries and values against a reference model", "Random registrations, values, truncated and foreign bytes against a model of the registry, with concurrent encoding and decoding."),
 "C23": ("differential testing against crypto/ed25519 and crypto/ecdh", "Random keys, messages, corruptions, weak points and hexadecimal texts against the standard library and an independent Edwards-to-Montgomery map."),
 "C01": ("stateful traffic generation against a ledger", "Random traffic programs between up to five nodes over links with latency, fragmentation and back pressure, in virtual time; every delivery is compared with a ledger of what was sent."),
 "C02": ("stateful request histories against a ledger", "Random concurrent requests in both directions with generated reply delays, orders and deadlines; replies are compared with those of the very handler invocation."),
 "C03": ("fault injection at generated bytes and instants, in virtual time", "Connections are cut, reset or closed by either side at generated bytes and instants while requests are made; a request that outlives its context or connection is found as a virtual-time hang."),
 "C04": ("generated concurrent answering histories", "Handlers, goroutines and copies of contexts race to answer; successes are counted against the frames that leave on the wire."),
 "C05": ("stateful generation against a handler-chain model", "Random handler chains with scripted errors, compared with a model of the chain, and a probe of all other peers after every history."),
 "C06": ("grammar-based handshake fuzzing with an independent implementation", "Handshakes are altered, cut, replayed, reflected, forged and made with weak keys by a peer written independently of noise."),
 "C07": ("wire tampering by a generated man in the middle", "Bits, bytes, lengths and frames are altered at generated places of a running session; deliveries are compared with a ledger. Replayed, removed, swapped and mirrored whole frames are known findings."),
 "C08": ("invariants over recorded wires of generated sessions", "All wires of generated sessions are recorded and searched for secrets, repeated nonces, blocks and ephemeral keys, with the global random generator re-seeded."),
 "C09": ("structured fuzzing of both sides of the wire with liveness probes", "Hostile peers, unauthenticated and authenticated, send generated frames, protocol messages and garbage in any number; an honest probe must be served within a virtual-time bound, and a crash ends the worker."),
 "C10": ("boundary-value generation over limits and frame sizes", "Frames of every size around generated limits, honest and announced only, against the exact acceptance rule."),
 "C11": ("stateful generation against a recency model of the pools", "Histories of arrivals, dials, uses and departures are compared with a model of both pools. The outbound pool being bounded by the inbound limit is a known finding."),
 "C12": ("stateful generation with concurrent first uses, counting connections", "Concurrent and sequential uses, drops and restarts; connections seen by the network are counted against the lifetimes of earlier ones."),
 "C13": ("generated activities around generated Close instants, with goroutine and connection inspection", "Close is called at generated instants among generated activities, in virtual time, where a Close that never returns, an open connection, a pending call, a running handler or a left-over goroutine is seen at once."),
 "C24": ("model-based testing against a reference table", "Operation sequences over keys crafted to share prefixes, compared after every step with a reference model."),
 "C25": ("generated tables against exhaustive sorting", "Tables of every shape and targets of every distance, compared with sorting all entries."),
 "C14": ("generated traffic gaps around generated timeouts, in virtual time", "Traffic with gaps just below, at and above the timeout over links with latency and back pressure; closings are judged to the instant. The undocumented default is a known finding."),
 "C15": ("fault injection at generated stages of connecting, counting attempts", "Refusals, black holes, cuts at generated handshake bytes and late successes; attempts seen by the network and callbacks are counted against the configuration and the caller's context."),
 "C16": ("generated concurrent callers with generated contexts, in virtual time", "Calls to one address with contexts cancelled at generated stages; each call is judged by its own context alone."),
 "C17": ("history checking of recorded callbacks", "All callbacks of all nodes in generated histories with failing handshakes, drops and handler errors are recorded and checked against the order and the counts the property states."),
 "C18": ("stateful generation of uses after close, compared with what the peer received", "Connections are closed from generated sides and instants; every success reported afterwards must have been received by the peer."),
 "C19": ("stateful generation of registrations around listening", "Concurrent and sequential registrations, failing protocols and listens, against a model of what may take effect."),
 "C20": ("generated node configurations over a virtual network with addresses", "Bind hosts, ports, public addresses and failures are generated; identities seen by peers on both sides are compared and advertised addresses dialled."),
 "C26": ("structured generation of requests and bytes against an independent codec and model", "Routing requests over the wire from an independent peer are compared with exhaustive sorting; encodings with an independent encoder, malformed bytes with an independent parser."),
 "C27": ("model-based testing of admission and eviction over generated liveness", "Histories of contacts by live, dead, silent and restarted peers against a model of the table and of the events."),
 "C28": ("generated networks against a breadth-first reference search", "Networks of honest peers with unreachable and silent entries and generated parallelism options; the result is compared with a reference search."),
 "C29": ("generated topologies and pushes against a reachability model", "Overlays, payload sizes, latencies, concurrent pushes and rejecting applications; receipts are counted per node and message."),
 "C30": ("generated topologies with wire-level counting of gossip per link", "Every gossip frame on every link is counted by content; contexts and unreachable neighbours are generated."),
 "C31": ("generated concurrent programs under the race detector", "Generated programs over all concurrently callable methods run under the Go race detector; any report is a violation."),
 "C32": ("generated loads with concurrency measured in virtual time", "Handlers block for generated virtual times; their number running at once is compared with the configured workers, exactly, at quiescent instants."),
 "C33": ("differential testing against an independent implementation of the protocol", "Peers written independently of noise play both roles with generated numbers, sizes, answers and segmentations; every frame that reaches them is compared with the protocol and with what was asked for."),
 "C34": ("model-based generation over registries, values and replies", "Concurrent typed traffic between nodes with generated registries is compared with a model of both registries; decoded values are kept and compared again at the end."),
 "C35": ("fault-injecting histories with inspection of what remains", "Connections of fourteen kinds come and go; afterwards goroutines, sockets, lists, clients and (by weak pointers) memory are inspected and the node is used again."),
 "C36": ("generated inputs against big-integer arithmetic and net/netip", "Differential comparison and algebraic laws on generated byte strings, key sets and address texts."),
 "C37": ("generated reentrant call rules over event histories in virtual time", "Rules make callbacks of generated histories call back into the node; each call's duration in virtual time, result and effects are checked, and a call that never returns is found by the bubble coming to a halt."),
}
