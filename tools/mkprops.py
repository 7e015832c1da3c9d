#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is edited here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Messages arrive intact, exactly once, from the right peer",
  "While the connection between two nodes stays up, every message handed over for sending, in either direction, is given to the receiving node's handlers exactly once, byte for byte as sent, marked as coming from the sender's identity and as not being a request. What a handler was given never changes afterwards, even if it is kept while more messages arrive. With a single worker, the messages of one connection are handled in the order they were sent. What a peer has sent before it ends its connection is handled all the same.",
  ["inputs", "schedules", "histories"],
  "all payload sizes up to the limit (empty, around buffer sizes, maximal), all bursts and interleavings of concurrent senders, any number of peers, any fragmentation and latency of the byte stream, replies pushed on inbound connections as well as sends on outbound ones",
  "node_test.go sends one fixed short string per message and only counts handler calls; it never compares contents, order or sender, never keeps a payload, and never sends more than 1 MB or an empty message.",
  ["client.go", "node.go", "msg.go", "aead.go"],
  [("per-connection write queue drained by one writer", "client.go writeLoop"), ("length-prefixed frames read with io.ReadFull into a reused buffer, then copied", "client.go read/recvLoop"), ("worker pool fed by one channel", "node.go Listen")],
  [("write queue", "messages accepted but not yet flushed", "Client.writerBuf"), ("read buffer", "reused for every frame", "Client.readerBuf")],
  ["Handler invocations (HandlerContext.Data/ID/IsRequest)"])

p("C02", "A request gets its own reply and nobody else's",
  "Each request that succeeds returns exactly the bytes its own handler invocation replied with, whatever the number of requests in flight, the order in which replies are produced, and the connections and directions they travel on; the handler sees each request once, with the bytes sent, marked as a request. A reply that comes too late for its request is dropped: it is neither given to another request nor presented to the requester's handlers as an incoming message.",
  ["inputs", "schedules", "histories"],
  "all sets of concurrent requests between several nodes, in both directions, answered in any order, immediately or later from other goroutines, with some of them abandoned by their callers before the reply arrives",
  "The RPC tests use identical request and reply bytes for every call, so a swapped reply cannot be seen; no test abandons a request or answers out of order.",
  ["client.go", "map.go", "msg.go", "node.go"],
  [("request identifiers per connection with a pending table", "map.go requestMap"), ("replies matched before dispatch to handlers", "client.go recvLoop")],
  [("pending table", "request number to waiting channel", "requestMap.entries")],
  ["Node.Request results", "Handler invocations"])

p("C03", "Every request ends",
  "A request never blocks for ever: it returns its reply, or its context's error as soon as that context is done, or an error as soon as the connection it travelled on is gone, whichever side dropped the connection and at whatever byte. This holds for requests already waiting and for those issued while the connection is going down, also when the caller set no deadline.",
  ["schedules", "fault_sequences", "crash_points"],
  "all points in time and all byte offsets at which the peer, the network, a handler error, a local close or a node shutdown drops the connection, relative to requests in flight, with and without deadlines",
  "No test drops a connection while a request is waiting; every request in the suite is answered.",
  ["client.go", "map.go", "node.go"],
  [("waiting requests are failed when the reader of their connection stops", "client.go recvLoop, map.go requestMap.close"), ("select on reply and context", "client.go request")],
  [("pending table", "request number to waiting channel", "requestMap.entries")],
  ["return of Node.Request / RequestMessage"])

p("C04", "At most one response leaves for each request",
  "For each request at most one response is sent back, however many handlers and goroutines try to answer it and however the handler context is copied: exactly one attempt succeeds and every other attempt returns an error. An attempt that fails because its value cannot be encoded does not use the response up. Plain messages may be answered any number of times.",
  ["schedules", "inputs", "histories"],
  "all numbers of handlers and goroutines answering the same request, in all interleavings, by raw or typed sends, mixed over requests and plain messages",
  "Every handler of the suite answers exactly once; the error for a second answer is never exercised, with several handlers or concurrently.",
  ["msg.go", "node.go", "client.go"],
  [("one-shot flag shared by all copies of a handler context", "msg.go HandlerContext.Send")],
  [("sent flag", "whether the request was already answered", "HandlerContext.sent")],
  ["frames received by the requester", "return values of HandlerContext.Send/SendMessage"])

p("C05", "Handlers run in order, and a handler error costs only its connection",
  "Every incoming message is given to all handlers, in the order they were registered and with the same contents, until one of them returns an error. A handler error closes the connection the message came from and becomes that connection's error, and nothing else: however many handler errors have happened, the node keeps handling the messages of all other peers and of new connections.",
  ["histories", "schedules", "configurations"],
  "all handler chains, all numbers of workers, and all histories of failing and succeeding messages from several peers",
  "TestHandlerErrorCausesConnToClose lets one handler fail once and stops there; nothing is sent after the failure and no test registers two handlers.",
  ["node.go", "client.go"],
  [("worker loop over the handlers of the node", "node.go Listen")],
  [("handlers", "registered handlers in order", "Node.handlers"), ("workers", "goroutines that run the handlers", "Node.workers")],
  ["Handler invocations", "Client.Error", "Client.WaitUntilClosed"])

p("C06", "Only a peer that proves its identity in this session is accepted",
  "A peer is returned by a dial, announced as connected, or handed to a handler only under an identity whose private key it proved to hold within this very session. Any other handshake - bytes altered, cut short or replayed from other sessions, signatures missing or made with another key, the node's own bytes reflected back, a weak or malformed key - is refused with an error on both the dialling and the accepting side, and nothing such a peer sends along reaches a handler or a connection callback.",
  ["inputs", "fault_sequences", "histories"],
  "all byte strings an active attacker can send in place of or in between the handshake messages, on inbound and outbound connections, including everything recorded from other sessions, and any data sent right behind a bad handshake",
  "The suite only ever connects two honest nodes; no test presents a wrong signature, a foreign identity, a replay, a reflection or data after a failed handshake.",
  ["client.go", "ecdh.go", "keys.go", "id.go"],
  [("signed ephemeral keys, ECDH, and a signature over identity and shared secret", "client.go handshake"), ("failed handshakes end the connection", "client.go inbound/outbound")],
  [("peer identity", "set after the handshake succeeded", "Client.id"), ("cipher", "session cipher", "Client.suite")],
  ["Node.Ping result", "Protocol.OnPeerConnected", "Handler invocations", "Client.Error"])

p("C07", "Altered or forged session traffic is never delivered",
  "Once a session is established, whatever bytes are altered, cut off or inserted on the wire by someone without the session key, the two nodes deliver only messages and replies that the other side really sent on that session, unchanged and in a prefix of the order sent. The connection on which such bytes arrive is closed with an error and its waiting requests fail, while other connections carry on.",
  ["inputs", "fault_sequences"],
  "all positions and kinds of corruption (bit flips, byte insertion and deletion, truncation, garbage frames, plaintext frames, frames taken from another session) in either direction of a session carrying messages, requests and replies",
  "No test corrupts a byte on the wire; every transfer of the suite is over an untouched loopback connection.",
  ["client.go", "aead.go", "msg.go"],
  [("AES-256-GCM over every frame", "aead.go"), ("reader stops at the first bad frame", "client.go recvLoop")],
  [("cipher", "session cipher", "Client.suite")],
  ["Handler invocations", "Node.Request results", "Client.Error"])

p("C08", "Traffic is unreadable on the wire, with fresh keys and unrepeated nonces",
  "Beyond the ephemeral key exchange nothing on the wire can be read without the session key: neither payloads nor the peers' identities and addresses appear, and equal messages give unrelated bytes. Every session uses a fresh ephemeral key on both sides, and within a session no encryption nonce is ever used twice, over both directions together, even if the application re-seeds the global pseudo-random generator.",
  ["inputs", "histories"],
  "all payloads, numbers of messages and sessions between the same nodes, and all re-seedings of the process-wide pseudo-random source by the application",
  "No test looks at the bytes on the wire, and none runs with a seeded generator.",
  ["aead.go", "client.go", "ecdh.go", "keys.go"],
  [("random nonce per frame", "aead.go encryptAEAD"), ("ephemeral Ed25519 pair per connection", "client.go handshake")],
  [], ["bytes on the wire"])

p("C09", "No peer can crash or wedge a node",
  "Whatever bytes peers send, before or after authenticating, in frames of any length and content, through the routing and gossip protocols too, the process does not crash and the node goes on accepting connections and serving its other peers. Each offending connection is either closed or its bad message is ignored.",
  ["inputs", "fault_sequences", "configurations"],
  "all byte sequences from unauthenticated and authenticated peers, for all receive limits including none, with and without the routing and gossip protocols bound, and with any number of such peers",
  "All peers of the suite are well-behaved; the only malformed-input tests call two decoding functions with a few short slices.",
  ["client.go", "node.go", "msg.go", "id.go", "kademlia/msg.go", "kademlia/protocol.go", "gossip/protocol.go", "codec.go"],
  [("length checks before every slice operation", "client.go read, msg.go, id.go, kademlia/msg.go"), ("handler errors end only the connection", "node.go")],
  [], ["the process staying alive", "a probe request from an honest peer"])

p("C10", "The receive limit is exact",
  "With a receive limit set, a frame is accepted exactly when its size on the wire (as announced by its header) is at most the limit; a larger one is not delivered, and the receiver drops the connection with the too-large error. With the limit set to zero frames of any size are accepted; by default the limit is 4 MB.",
  ["inputs", "configurations"],
  "all limits including zero and the default, and all message sizes around and far beyond them, from honest and dishonest senders that announce any size",
  "TestWithNodeMaxRecvMessageSize tries a single size on one limit and asserts nothing about delivery or the error; limit zero is never run.",
  ["client.go", "node_options.go", "node.go", "error.go"],
  [("size check before the body is read", "client.go read")],
  [("limit", "maximum frame size accepted", "Node.maxRecvMessageSize")],
  ["Handler invocations", "Client.Error"])

p("C11", "The connection pools never exceed their limits",
  "At any moment a node lists at most its configured maximum of inbound and of outbound connections. A connection beyond the limit is still established and served, at the price of the least recently used connection of that pool (the one accepted, or looked up for a call, longest ago), which is closed, and no connection is closed for the sake of a limit that was not reached.",
  ["histories", "configurations", "schedules"],
  "all limits, and all sequences of inbound arrivals, outbound dials, uses and departures that reach and exceed them",
  "No test sets an inbound limit; the outbound-limit tests only check that messages get through and never look at how many connections exist.",
  ["map.go", "node.go", "node_options.go"],
  [("pool with a recency list, evicting its tail when full", "map.go clientMap.get")],
  [("pool", "live clients by address with recency order", "Node.inbound, Node.outbound")],
  ["Node.Inbound", "Node.Outbound", "Client.WaitUntilClosed", "delivery over the new connection"])

p("C12", "One live connection per address, shared and replaced transparently",
  "Any number of pings, sends and requests to an address, concurrent or in sequence, share one outbound connection as long as it lives, and no second connection to that address is opened meanwhile. Once a connection has gone, for whatever reason, it leaves the node's list of connections and the next use of the address dials again and works if the peer is reachable.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of concurrent first uses of an address, and all histories of uses, drops by either side, peer restarts on the same address and reuses",
  "The suite never counts connections under concurrent first use and never uses an address again after its connection was lost.",
  ["node.go", "map.go", "client.go"],
  [("lookup-or-create under the pool lock", "map.go clientMap.get"), ("failed or closed clients are removed and redialled", "node.go dialIfNotExists")],
  [("outbound pool", "live clients by address", "Node.outbound")],
  ["number of connections accepted by the peer", "Node.Outbound", "results of Ping/Send/Request"])

p("C13", "Close always returns and leaves nothing running",
  "Closing a node returns, whenever and however often it is called: before or after or without a successful listen, immediately after it, concurrently, with traffic and handlers in flight (though not from inside the node's own handlers and callbacks, which it waits for). When it has returned every inbound and outbound connection is closed, the port is free, no handler is running or started later and pending calls of the node have ended with an error, and no goroutine of the node outlives it for long; the process never crashes.",
  ["schedules", "histories", "crash_points"],
  "all moments of closing relative to listening, dialling, handshakes, traffic in both directions, handler execution and other closes, for nodes that have listened, failed to listen or never listened",
  "All tests close idle nodes at their end, long after listening, once; connections are torn down from both ends at the same time, which hides those a closed node keeps open.",
  ["node.go", "client.go", "map.go"],
  [("listener goroutine releases connections, then workers", "node.go Listen/Close"), ("pool release", "map.go clientMap.release")],
  [("listening flag", "whether the accept loop runs", "Node.listening"), ("work channel", "messages for the workers", "Node.work")],
  ["return of Node.Close", "the peer's view of its connections", "goroutine stacks"])

p("C14", "Idle connections time out, busy ones never do",
  "With an idle timeout set, a connection over which the node has neither read nor written a message for that long is closed and its resources are released, on inbound and outbound connections alike. A connection on which messages flow in at least one direction with gaps shorter than the timeout is never closed by it and every such message gets through; with a timeout of zero connections never time out, and by default the documented timeout applies.",
  ["schedules", "configurations", "histories"],
  "all timeouts and all timings and directions of traffic (one-way in, one-way out, alternating, bursts, silence of every length), on both ends",
  "Two tests set a timeout on a connection with no traffic at all; none keeps a connection busy, in one direction or both, past the timeout.",
  ["client.go", "node_options.go", "node.go"],
  [("read and write deadlines renewed by traffic", "client.go read/writeLoop")],
  [("idle timeout", "configured duration", "Node.idleTimeout")],
  ["moment at which connections close", "Handler invocations"])

p("C15", "Dialling tries exactly as often as configured and reports failure once",
  "A call to an unreachable or failing peer makes exactly the configured number of attempts (three by default) and then returns an error, and it succeeds if one of those attempts does. It returns promptly with the context's error once its own context is done, at any stage of connecting. Each call that fails to connect reports this to the failed-dial callback exactly once with that address, and leaves no connection behind.",
  ["fault_sequences", "configurations", "schedules"],
  "all numbers of attempts, all sequences of per-attempt outcomes (refused, dropped or stalled or garbled during the handshake, successful), and all moments of cancellation",
  "No test dials an unreachable address or a peer that fails during the handshake, and none cancels a dial.",
  ["node.go", "client.go", "node_options.go"],
  [("bounded retry loop", "node.go dialIfNotExists")],
  [("attempt limit", "configured number of dials", "Node.maxDialAttempts")],
  ["connection attempts seen by the network", "Protocol.OnPingFailed", "Node.Outbound", "returned error"])

p("C16", "One caller's context never harms another call",
  "The expiry or cancellation of the context of one call affects that call only. Other calls to the same address, even those waiting for the very connection the cancelled call had started to dial, still succeed within their own contexts, and a connection that is already established stays up with its requests in flight unharmed.",
  ["schedules", "fault_sequences"],
  "all moments of cancelling any one of several concurrent calls to an address, before, during and after connection establishment",
  "Every call of the suite uses a background context.",
  ["node.go", "client.go"],
  [("shared dial with per-call contexts", "node.go dialIfNotExists")],
  [], ["results of the other calls", "liveness of the shared connection"])

p("C17", "Connection callbacks tell the truth",
  "For every connection that completes its handshake the connected callback runs exactly once, before any message of that peer is reported, and the disconnected callback runs exactly once, after the last message was reported; for a connection that does not complete it neither runs. Every message or response received is reported once to the received callback, and every flush of messages, requests or responses to the sent callback. Waiting for a client to become ready or closed returns once it has, also after failure, and a failed or dropped client reports its first error.",
  ["histories", "schedules", "fault_sequences"],
  "all histories of successful, failing and dropped connections in both roles, with messages, requests and responses in both directions",
  "No test registers connection or message callbacks except indirectly through the routing protocol, and none looks at their order or number.",
  ["mod.go", "client.go", "node.go"],
  [("callback loops around handshake, read loop and write loop", "client.go")],
  [("ready/closed channels", "state of the client", "Client.ready, Client.clientDone")],
  ["Protocol callbacks", "Client.WaitUntilReady/WaitUntilClosed/Error"])

p("C18", "Nothing is reported as sent on a connection that is already closed",
  "Once a connection has been closed on this side, a later send or request to that peer either goes through on a fresh connection or returns an error, and a reply through a handler context that belongs to the closed connection returns an error. No such call reports success while its message is silently thrown away, and no later ping returns the closed connection.",
  ["histories", "schedules"],
  "all moments of closing a client (explicitly, by a handler error, by eviction) relative to following sends, requests, pings and replies, including immediately after",
  "No test sends anything after closing a client.",
  ["client.go", "node.go", "msg.go"],
  [("send refuses closed clients", "client.go send"), ("closed clients are not handed out", "node.go dialIfNotExists")],
  [("closed flag", "the writer has been told to stop", "Client.writerClosed")],
  ["return values against deliveries"])

p("C19", "Every registration made before listening counts, none made after does",
  "All handlers and protocols registered before the node listens take effect exactly once each, in order of registration, also when several goroutines register concurrently. Registrations made after a successful listen has returned have no effect. A protocol is told that it is bound exactly once, and if it refuses, listening fails with its error and the port is released.",
  ["schedules", "histories"],
  "all interleavings of concurrent registrations, and all orders of registering, binding failures, listening and using the node",
  "The suite registers one handler from one goroutine per node, always before listening.",
  ["node.go", "mod.go"],
  [("registration guarded by the listening flag", "node.go Handle/Bind/Listen")],
  [("handlers, protocols", "registered callbacks", "Node.handlers, Node.protocols")],
  ["Handler invocations", "Protocol.Bind invocations", "result of Listen"])

p("C20", "A node's address and identity are what its peers see and can dial",
  "After a successful listen the node's identity carries its public key and the address it advertises, and every peer that connects, in either direction, sees exactly that identity: same key, host, port and address. Unless a public address was configured, that address leads back to the node, for IPv4 and IPv6 and unspecified bind hosts alike; a configured public address is advertised as given. A listen that fails returns an error and holds no port.",
  ["inputs", "configurations"],
  "all bind hosts (IPv4, IPv6, loopback, unspecified, none), ports and configured public addresses, valid or not, and connections in both directions",
  "Every networked test binds the default unspecified host and never compares the identity seen by the peer; node options are only checked as stored fields.",
  ["node.go", "id.go", "addr.go", "node_options.go", "client.go"],
  [("identity derived from the listener address", "node.go Listen"), ("identity sent in the handshake", "client.go handshake, id.go Marshal/UnmarshalID")],
  [("identity", "key, host, port, address", "Node.id")],
  ["Node.ID", "Node.Addr", "Client.ID", "HandlerContext.ID"])

p("C21", "Peer identities survive encoding",
  "Every identity with an IPv4, IPv6 or absent host encodes to its stated fixed size and decodes to an identity with the same key, host address, port and textual address, and equal identities encode equally. Any byte string is either rejected as truncated or decodes to an identity that encodes back to the bytes consumed, whatever follows them. The textual form is well-formed JSON carrying the hexadecimal key and the address.",
  ["inputs"],
  "all public keys, hosts in 4-byte and 16-byte form (loopback, unspecified, mapped), ports, and all byte strings of all lengths with any trailing bytes",
  "TestUnmarshalID feeds four zero-filled slices and no test decodes what was encoded; TestID_String only looks at the text.",
  ["id.go", "addr.go", "keys.go"],
  [("fixed layout: key, 16-byte host, big-endian port", "id.go Marshal/UnmarshalID")],
  [], ["noise.NewID, ID.Marshal, UnmarshalID, ID.Size, ID.String"])

p("C22", "Registered message types survive the wire",
  "Registering a type yields a number unique to it, assigned in registration order so that nodes registering the same types alike understand each other; encoding gives that number as two big-endian bytes followed by the value's own bytes, and decoding gives back an equal value of the registered type, for types registered as values or as pointers and for pointers to value types. Unregistered types, unknown numbers, short inputs and decoder errors yield errors; registering a type twice or with an unsuitable decoder panics and leaves earlier registrations intact.",
  ["inputs", "histories", "schedules"],
  "all sequences of (possibly concurrent) registrations of value and pointer types, all values, and all byte strings given to decoding",
  "codec_test.go registers a value type once and decodes one string; pointer types, several types, arbitrary inputs and state after a panic are not tried.",
  ["codec.go", "node.go", "msg.go"],
  [("type and opcode tables", "codec.go")],
  [("tables", "type to opcode, opcode to decoder", "codec.ser, codec.de")],
  ["Node.RegisterMessage/EncodeMessage/DecodeMessage, SendMessage/RequestMessage"])

p("C23", "Keys, signatures and shared secrets follow Ed25519 and X25519",
  "Generated and loaded keys sign and verify interchangeably with any other Ed25519 implementation; a signature is accepted only for exactly the data, key and signature bytes it was made with. Hexadecimal and JSON forms of keys and signatures are exact, loading a private key round-trips and rejects text that is not hexadecimal or of the wrong length. The shared secret of two key pairs is the same from both sides and equals standard X25519 on the corresponding keys, and a peer key that would force a predictable secret is rejected with an error.",
  ["inputs"],
  "all seeds, key pairs, messages and signatures with any bit altered, all hexadecimal strings, and all low-order peer keys",
  "TestMarshalJSON covers two JSON forms for one key; signing, verifying, loading and key agreement have no tests of their own.",
  ["keys.go", "ecdh.go"],
  [("thin wrappers over ed25519", "keys.go"), ("birational map to Curve25519", "ecdh.go")],
  [], ["noise.GenerateKeys, LoadKeysFromHex, Sign, Verify, ECDH"])

p("C24", "The routing table is a correct set of recency-ordered buckets",
  "Under any history of updates, deletions and lookups the routing table behaves as buckets indexed by shared key prefix with the owner, holding each key at most once and at most sixteen entries each: a new peer enters at the head of a bucket with room and is refused with the bucket-full error otherwise, a known one moves to the head, deletions by key or address remove exactly one matching entry and return it. Entry count, listing, per-bucket order, membership and tail always agree with that, and the owner itself is listed.",
  ["histories", "inputs"],
  "all operation sequences over all keys, in particular keys sharing long prefixes with the owner, duplicate addresses and full buckets",
  "table_test.go only fills tables and collects neighbours; no sequence of updates and deletions is compared with anything.",
  ["kademlia/table.go", "kademlia/binary.go"],
  [("one list per prefix length", "kademlia/table.go")],
  [("buckets", "lists of identities", "Table.entries"), ("count", "number of entries", "Table.size")],
  ["all methods of kademlia.Table"])

p("C25", "A closest-peers query returns exactly the closest, nearest first",
  "For every table content, every target key and every number k, the closest-peers query returns the k entries whose keys are nearest to the target by XOR distance (all of them if there are fewer), nearest first, without the target itself and without duplicates, and does not change the table. The table's own list of peers is that query for the owner and sixteen.",
  ["inputs", "histories"],
  "all table contents and targets, in particular targets far from the owner with few entries in their own bucket and entries spread over many buckets",
  "TestDistanceMetric only asserts that the union of all peer lists covers a random network; distances and order are never checked.",
  ["kademlia/table.go", "kademlia/binary.go"],
  [("collection of buckets around the target, then sort and cut", "kademlia/table.go FindClosest")],
  [], ["Table.FindClosest", "Table.Peers"])

p("C26", "Routing requests are answered correctly and their encodings are exact",
  "A node answers a ping request with a pong and a find-node request with the up to sixteen entries of its table closest to the target; it drops a peer that sends either as a plain message. The encodings of these requests and responses round-trip for up to 255 results, and malformed bytes are rejected with an error rather than misread. A ping call succeeds exactly if the peer answers with a pong in time.",
  ["inputs", "histories"],
  "all targets and table contents, all result lists, all byte strings given to the decoders, and peers that answer, answer wrongly, stay silent or drop",
  "The routing messages are only exercised between three honest nodes; decoders, limits and non-request forms have no tests.",
  ["kademlia/msg.go", "kademlia/protocol.go"],
  [("message handler", "kademlia/protocol.go Handle"), ("marshalling", "kademlia/msg.go")],
  [], ["responses on the wire", "decoder results", "Protocol.Ping"])

p("C27", "Peers are admitted and evicted by the Kademlia rule, with matching events",
  "A peer the node interacts with enters the head of its bucket if there is room or moves to the head if known. If its bucket is full the entry at the tail is pinged: if that answers, it stays and the newcomer is refused; if not, it is evicted and the newcomer enters. A peer that cannot be dialled is removed. Admission is reported once for each entry added, eviction once for each entry removed and for nothing else, activity for each interaction with a known peer.",
  ["histories", "fault_sequences"],
  "all orders of interactions with live, dead, silent and restarted peers over bucket contents below, at and around capacity",
  "TestTableEviction plays one history with a dead tail; a live tail, the events and failed dials are not looked at.",
  ["kademlia/protocol.go", "kademlia/table.go", "kademlia/events.go"],
  [("admission loop", "kademlia/protocol.go Ack"), ("removal on failed dial", "kademlia/protocol.go OnPingFailed")],
  [("table", "routing table", "Protocol.table")],
  ["Table contents", "Events callbacks"])

p("C28", "Discovery finds exactly the live peers that can be reached",
  "A search always ends and returns distinct identities of peers that answered, nearest to the target first and at most the configured number, never the searching node itself, and never has more requests under way at once than configured. In a network of honest peers, where each knows at most sixteen others, it returns the closest of all live peers reachable by following known peers, including the target if it is one of them, whatever unreachable or silent entries the tables contain and whatever the parallelism options.",
  ["inputs", "configurations", "fault_sequences"],
  "all small network topologies with live, dead and silent nodes, all targets, all result limits, lookup counts, parallelism and timeouts",
  "TestDiscoveryAcrossThreeNodes runs one healthy three-node chain and counts the results.",
  ["kademlia/iterator.go", "kademlia/protocol.go", "kademlia/iterator_options.go"],
  [("breadth-first lookups over disjoint buckets", "kademlia/iterator.go")],
  [("visited set", "keys already queued", "Iterator.visited")],
  ["Protocol.Find", "Protocol.Discover"])

p("C29", "Gossip reaches every node, and each hears it only once",
  "In a connected overlay of running nodes a pushed message, of any size the nodes accept, reaches every other node, and each node reports it to the application exactly once with the bytes pushed and the identity of the neighbour it came from, however many neighbours deliver it and however concurrently; the node that pushed it never reports it. A node whose application rejects the message disconnects the neighbour it came from and does not pass it on.",
  ["schedules", "inputs", "histories"],
  "all connected topologies, payload sizes from empty to the receive limit, numbers of workers, timings of arrival, and several messages and origins at once including equal payloads",
  "TestGossip pushes one short string once through a full mesh and stops when every node has heard it at least once; repeats, contents, larger messages and rejections are not looked at.",
  ["gossip/protocol.go", "gossip/msg.go", "gossip/events.go"],
  [("seen-cache keyed by peer and message", "gossip/protocol.go Handle/Push")],
  [("seen", "which peer has which message", "Protocol.seen")],
  ["Events.OnGossipReceived"])

p("C30", "Gossip is not sent to those who already have it",
  "A node never sends a given gossip message twice to the same neighbour by successive pushes or receipts, never sends it to a neighbour it received it from before, and never to itself, whatever its size; so gossip in any network dies out by itself. A push ends once every neighbour has been tried, or its context is done, and unreachable neighbours do not keep the others from receiving it.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "all topologies, payload sizes, repeated pushes of new and known messages, and dead or silent neighbours",
  "TestGossip does not look at the number or direction of transmissions at all.",
  ["gossip/protocol.go"],
  [("marking of sender, receivers and self in the seen-cache", "gossip/protocol.go")],
  [("seen", "which peer has which message", "Protocol.seen")],
  ["gossip messages crossing each link", "return of Push"])

p("C31", "What is documented as safe for concurrent use is free of data races",
  "All methods of nodes, clients, handler contexts and routing tables that are documented as callable concurrently, and those a running node calls itself, can be used from any goroutines in any interleaving without a data race, and identities, addresses and errors read meanwhile are never torn or mixed.",
  ["schedules"],
  "all interleavings of concurrent calls of the documented concurrent-safe operations with each other and with connections being opened, used and closed",
  "The suite calls few methods concurrently and is not run with race detection by the project's reliable test command; upstream's race run only sees the schedules of those tests.",
  ["client.go", "node.go", "msg.go", "map.go", "kademlia/table.go", "codec.go"],
  [("mutexes and atomics around shared state", "client.go, node.go, map.go, codec.go, kademlia/table.go")],
  [], ["race detector reports", "returned values"])

p("C32", "Handlers run on exactly the configured workers",
  "At most the configured number of handlers (at least one, by default the number of CPUs) runs at any moment on a node, over all its connections together, and that many do run at once when enough messages wait. Messages beyond that wait and are all handled once workers become free, and slow handlers delay neither the establishing of new connections nor the replies to the node's own requests on connections that have no unhandled messages waiting.",
  ["schedules", "configurations"],
  "all numbers of workers, peers and messages, all durations of handlers, and requests made by the node meanwhile, as long as the backlog fits the documented queue",
  "No test observes how many handlers run at once.",
  ["node.go", "client.go", "node_options.go"],
  [("worker pool", "node.go Listen")],
  [("work channel", "messages for the workers", "Node.work")],
  ["handler start and end times"])

p("C33", "Nodes speak one fixed wire protocol and understand all who speak it",
  "On the wire every frame is its length as four big-endian bytes and then its contents: first a hello (ephemeral public key and its signature of the fixed phrase), then, sealed like all that follows with AES-256-GCM under the shared secret and the nonce in front, the proof (the 50-byte identity and its signature of identity and secret), and from then on messages (an eight-byte big-endian number, then the payload). The number is zero for a message, non-zero and different from that of every other waiting request for a request, and the requester's number for its reply. A node sends exactly one such frame for each message, request and reply asked of it and nothing else unprompted, opens no connection unasked, and understands any peer that does likewise, whichever numbers it chooses and however its bytes are split or joined on the way.",
  ["inputs", "histories", "schedules"],
  "all peers written independently of this code in either role, all request numbers up to 2^64-1 and their repetition, all splittings and joinings of the byte stream including data that arrives in one piece with the handshake",
  "The suite only connects nodes of the same build, so that a change of the protocol on both sides at once, an extra frame, or an assumption about the other side's numbers or segments goes unnoticed.",
  ["client.go", "msg.go", "id.go", "aead.go", "ecdh.go", "map.go"],
  [("framing", "client.go read/write"), ("message encoding", "msg.go marshal/unmarshalMessage"), ("handshake", "client.go handshake"), ("request numbers", "map.go requestMap.nextNonce")],
  [("pending table", "request number to waiting channel", "requestMap.entries")],
  ["bytes on the wire", "Handler invocations", "Node.Request results"])

p("C34", "Typed messages and requests reach the other side as the same values",
  "A value of a registered type that is sent or requested through a node is decoded by the receiving handler into an equal value of the type registered there under the same number, however often and concurrently it is decoded, and a typed request returns the decoded reply; values that were decoded stay as they are, even if a decoder keeps the bytes it was given. A value of an unregistered type is refused at once, before anything is dialled or sent. Bytes that do not decode, sent or replied, give an error and no value, and disturb nothing else. Types may themselves encode and decode nested values through the same node, also while further types are being registered.",
  ["inputs", "histories", "schedules", "configurations"],
  "all registries, equal or different on the two sides, all values, sizes and replies (typed, raw, undecodable, none), nested types, concurrent typed traffic and registrations",
  "The examples send one small value of one type each; failures to decode, differing registries, retained and nested values and concurrent registration are not looked at.",
  ["node.go", "msg.go", "codec.go"],
  [("encode then send, request then decode", "node.go SendMessage/RequestMessage"), ("decoding for handlers", "msg.go DecodeMessage/SendMessage"), ("registry behind a lock", "codec.go")],
  [("registry", "types by number", "codec.ser/de")],
  ["HandlerContext.DecodeMessage", "Node.SendMessage", "Node.RequestMessage", "dials seen by the network"])

p("C35", "Connections that are gone leave nothing behind on a running node",
  "Once a connection is gone, however it ended and at whatever stage - refused, abandoned by its caller, failed in the handshake, dropped or reset by the peer, closed, evicted, timed out, or ended by a handler error - a node that goes on running keeps nothing of it: no goroutine, no open socket, no entry in its lists, no pending call, and nothing that keeps the client in memory once the application has let go of it. Its client is ready and closed for everyone who waits, carries an error, and was announced as disconnected if it had been announced as connected. New connections in both directions work as before.",
  ["histories", "fault_sequences", "schedules"],
  "all histories of arrivals and dials with peers that fail, fall silent, garble or vanish at every stage, with requests, bursts, replies and cancellations under way, full pools, idle timeouts and slow or failing handlers",
  "The suite checks for leaks only after closing whole nodes that exchanged healthy traffic; nothing looks at what stays behind while a node runs.",
  ["client.go", "map.go", "node.go"],
  [("teardown of a connection", "client.go inbound/outbound/close"), ("removal from pools", "map.go remove/drop/leave"), ("failing of waiting requests", "map.go requestMap.close")],
  [("pools", "clients by address", "clientMap.entries"), ("waiters", "callers waiting for a client", "Client.waiters")],
  ["goroutines", "open sockets", "Node.Inbound/Outbound", "Client.WaitUntilClosed/Error", "weak references to clients"])

p("C36", "Key distances, orders and resolved addresses are computed exactly",
  "For all inputs the exported helpers are exact: XOR of equally long byte strings is bitwise, symmetric, its own inverse and a fresh slice; PrefixLen is the number of leading zero bits; PrefixDiff is the number of differing bits among the first n; SortByDistance orders identities from the nearest to the farthest from a key and neither loses, repeats nor changes one. ResolveAddress gives the canonical form of a numeric address, leaving out hosts that are unspecified or loopback, is stable when applied again, and rejects malformed addresses and ports.",
  ["inputs"],
  "all byte strings, bit counts, sets of keys with shared prefixes and duplicates, and all notations of numeric hosts and ports",
  "No test calls these helpers with anything but what the few overlay tests happen to contain.",
  ["kademlia/binary.go", "addr.go"],
  [("bit arithmetic", "kademlia/binary.go"), ("address resolution", "addr.go ResolveAddress")],
  [], ["return values"])

p("C37", "A node can be used from within everything it calls",
  "Handlers, OnPeerConnected, OnPeerDisconnected, OnPingFailed, OnMessageSent, OnMessageRecv, the events of the overlay and of gossip, and the Marshal and decode functions of registered types may use the node that calls them, apart from closing it: whatever does not wait for the network (lists, identity, encoding and decoding, registering, routing table, acknowledging, closing a client) returns without delay, and whatever takes a context (Send, Request, Ping, Discover, Push) returns when the context has ended at the latest, and succeeds where nothing but the calling connection itself would have to go on meanwhile. Nothing deadlocks, no message is lost by it, and afterwards the node works as before.",
  ["histories", "schedules", "inputs"],
  "all places from which the node calls its user, all calls made from there in the same goroutine or another one, in any number and nesting, with one or many workers, and peers that answer, vanish or cannot be reached",
  "Handlers in the suite only reply or count; no callback calls back into the node, so a lock that is held while user code runs goes unnoticed.",
  ["client.go", "node.go", "codec.go", "kademlia/protocol.go", "gossip/protocol.go"],
  [("callbacks are called without locks held", "client.go handshake/recvLoop/writeLoop/outbound/inbound"), ("codec is not locked while types are encoded", "codec.go encode/decode"), ("gossip marks before it calls its user", "gossip/protocol.go Handle"), ("events outside of the table's lock", "kademlia/protocol.go Ack")],
  [("locks", "of pools, clients, codec, table and gossip", "map.go, client.go, codec.go, kademlia/table.go, gossip/protocol.go")],
  ["return of calls made by callbacks", "virtual time taken by them", "errors of calls", "messages that arrive"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
