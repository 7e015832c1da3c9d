"""Per property: specification, generator and bounds, oracle, why tests cannot settle it."""
P = {
"C01": ("every message handed to Send (or answered on a context) of a live connection is delivered once, unaltered, to all handlers of the addressed node, with the sender's identity",
        "2-4 nodes, 1-6 senders, bursts of up to 60 messages (some cases: 100 000 small ones), 0 B - 300 KB (4 MB thorough), replies and requests in between, peers that leave right after their last message, links with latency/fragmentation/windows",
        "ledger of what was sent; received slices are kept and compared at the end, so that later overwriting of a buffer shows",
        "loss, duplication and aliasing depend on how writer batches and reads interleave and on sizes"),
"C02": ("the reply returned by Request is the one given by the handler invocation for that very request; requests are marked as such, messages are not",
        "up to 80 (300) requests in all directions with replies at once, late, after expiry, never; up to 140 000 further requests while some wait",
        "ledger keyed by payload identity, per handler invocation",
        "needs request numbers in flight, late replies and reuse of numbers"),
"C03": ("a request ends with its context, or with its connection, whatever ends that",
        "11 ways of dropping, at any instant and byte, 1-3 times, with and without a reachable peer; slow callbacks; hammering callers",
        "virtual time: every request must have ended a bounded virtual time after the drop, and at its deadline to the millisecond",
        "an orphaned request hangs for ever, which no test can wait for"),
"C04": ("at most one attempt to answer a request succeeds, and exactly that frame leaves",
        "up to 16 concurrent attempts through copies of the context, with Send and SendMessage, with empty answers, with unencodable types",
        "successes are counted against frames read by an independent peer", "a race between copies of a context"),
"C05": ("handlers run in order until one fails; a failure closes that connection only and costs no worker",
        "chains of 1-5 handlers, more errors than workers, 2-12 peers in both roles, requests answered by any of the handlers", "model of the chain; probes afterwards",
        "dead workers show only after as many errors as there are workers"),
"C06": ("a peer is accepted (callbacks, handlers, pools) only if it proved possession of the claimed key within this session",
        "an active attacker with a grammar of attacks: alter, cut, extend, replay, reflect, relay, forge, weak keys, messages sent along, impostors of connected peers", "the attacker owns its keys only: nothing of it may be accepted otherwise; honest peers are served before, meanwhile and after",
        "the space of handshakes is adversarial"),
"C07": ("altered or forged bytes end the session and nothing of them is delivered",
        "a man in the middle with 11 operations on any frame and offset, in both directions; frames of other sessions; empty and short frames", "ledger of deliveries: what arrives is a prefix of what was sent; the connection ends",
        "adversarial; any offset of any frame"),
"C08": ("nothing but the key exchange can be read on the wire; fresh keys; nonces never repeat and say nothing of payloads",
        "1-5 sessions, up to 60 (rarely 70 000) messages, equal or different, concurrent, with math/rand re-seeded", "all recorded bytes: secrets, blocks, nonces, ephemeral keys, guessable session keys, pieces of payloads within nonces",
        "an invariant over whole histories of traffic"),
"C09": ("no bytes from peers crash the node, and others are served all the while",
        "1-20 hostile peers of ten steps each: arbitrary bytes, announcements, spoilt handshakes, every opcode with right, short and long contents, floods, hostile search answers", "an honest, a new and a gossip probe must be served in bounded virtual time; a crash ends the worker process",
        "adversarial input space"),
"C10": ("a frame of exactly the limit is accepted, one byte more ends the connection, at any stage",
        "limits from 1 B to none, frames of limit and limit+1, bare announcements, in either direction and in place of handshake frames", "the exact acceptance rule", "boundaries times stages times directions"),
"C11": ("the pools never exceed their limits and evict the least recently used connection",
        "limits 1-8 or default, up to twice as many peers, up to 60 operations with bursts", "recency-ordered reference model after each operation; limits at every dial and callback", "history-dependent"),
"C12": ("one live connection per address, shared by all uses, replaced transparently after any kind of loss",
        "up to 40 uses, concurrent and in sequence, six kinds of drops, restarts, refusals", "dials are compared with the life times of earlier connections; lists of both nodes after every phase", "concurrent first uses and drops"),
"C13": ("Close returns, after everything of the node has stopped: connections, port, handlers, callbacks, pending calls, goroutines",
        "up to 20 activities of 16 kinds around 1-3 instants of Close by up to 4 callers; listening never, failing, during or after Close; messages waiting behind slow callbacks", "inspection when each Close returns; goroutines an hour of virtual time later", "hangs, and panics of late senders, at generated instants"),
"C14": ("a silent connection is closed after the idle timeout; one in use never is",
        "timeouts from 20 ms to 100 h, gaps below and above, latency, back pressure, one-way traffic, stuck handshakes", "closing instants to the millisecond", "time; only virtual time makes it exact"),
"C15": ("a failing call makes exactly the configured attempts and reports its failure once; it returns at once when its context ends",
        "11 outcomes per attempt, 1-6 attempts, contexts that end between any two events, calls for one address at once with contexts of their own, pings with ended contexts over live connections", "model of attempts: number and instants of dials, results, callbacks, what is left open", "stage of failure times instant of expiry"),
"C16": ("the end of one caller's context harms no other call nor an established connection",
        "2-16 calls with contexts ending between all other events", "each call judged alone, to the instant", "concurrent callers with different contexts"),
"C17": ("connected, sent, received and disconnected callbacks are called when documented, in order, once; waiting for clients works; the first error is kept",
        "1-5 connections in both roles, nine spoilt handshakes, seven ends, slow callbacks and handlers, traffic up to the very end", "history checker per client and protocol; counts against what was sent", "orders of callbacks under concurrency"),
"C18": ("a success reported after a connection was closed was really received",
        "six ways of closing, also with the writer blocked, followed at once by up to six uses on kept contexts", "what peers received in the end", "windows between a close and its effect"),
"C19": ("all registrations made before listening count, none afterwards, however concurrent; a refusing protocol makes Listen fail and releases the port",
        "up to 6 goroutines with 200 registrations around Listen", "logs of handlers and callbacks against registrations", "races"),
"C20": ("identity and address are what peers see, and dialling the address reaches the node",
        "bind hosts x ports x public addresses x keys, dialled from all sides", "identities on both ends and raw bytes; dialling", "configuration space"),
"C21": ("identities survive encoding; malformed ones are refused; results alias nothing", "random and extreme identities, truncations, arbitrary bytes", "independent encoder", "input space"),
"C22": ("registered types survive the wire under equal registrations; numbers are consecutive; faults are reported",
        "registration sequences (also 600 types), values, pointers, foreign bytes, concurrent coding", "model of the table", "input space and more than 256 types"),
"C23": ("keys, signatures, hexadecimal and shared secrets follow Ed25519 and X25519", "seeds, messages, corruptions, malleated signatures, weak points, texts", "crypto/ed25519, crypto/ecdh, independent map", "input space; rare values such as short coordinates"),
"C24": ("the table is a set of recency-ordered buckets of at most 16", "up to 200 operations over keys crowding at chosen distances; concurrent ones", "reference model after every step", "history-dependent"),
"C25": ("a closest-peers query returns exactly the closest, nearest first", "tables of every shape, targets of every distance, k 0-300", "sorting all entries", "distance corner cases"),
"C26": ("routing requests are answered from the table; encodings are exact; malformed ones refused", "independent peers over the wire, generated tables, all truncations", "independent codec and exhaustive sorting", "input space"),
"C27": ("admission, eviction and events follow the Kademlia rule", "up to 26 peers, mostly in one bucket, live, silent, gone, restarted; exact and concurrent cases", "model of both buckets and events; no live peer is ever evicted", "needs full buckets and liveness at instants"),
"C28": ("discovery finds exactly the live, reachable peers", "up to 60 peers in five shapes, slow, silent, wrong and lying entries, options, concurrent searches", "breadth-first search; requests unanswered at once are counted", "topology times liveness"),
"C29": ("gossip reaches every node connected through accepting ones, and is reported once per node", "topologies of up to 30 nodes, hubs of more than sixteen, sizes up to the limit, rejecting applications", "reachability in the graph; counts", "topology times concurrency"),
"C30": ("gossip is not sent to those who have it; Push ends with its context", "the same, and one node among up to 40 independent neighbours that come and go", "counts of frames per link and content; times", "histories per link"),
"C31": ("what is documented as concurrently callable is free of data races", "generated programs of up to 8 goroutines over the whole API", "the Go race detector and runtime checks", "schedules"),
"C32": ("exactly the configured number of handlers run at once when there is work", "1-8 workers, 6 peers, handlers of up to 20 s that request and send", "running handlers at quiescent instants", "load histories"),
"C33": ("frames are exactly those of the protocol, one per message, request and reply, nothing unprompted; any peer speaking it is understood",
        "1-4 independent peers in both roles, up to 40 operations, request numbers up to 2^64-1 and repeated, writes joined with each other and with the handshake, arrivals in batches", "all frames received by the peers, up to the end of the connection, against the plan", "a change made on both sides at once is invisible between equal nodes"),
"C34": ("typed values arrive as equal values; unregistered types are refused before dialling; undecodable bytes give errors only",
        "2-3 nodes with equal or different registries of seven kinds of types (retaining, refusing, nesting), up to 40 concurrent operations, late registrations", "model of both registries; kept values compared at the end; dials seen by the network", "combinations of registries, values and schedules"),
"C35": ("a running node keeps nothing of connections that are gone",
        "up to 40 events with fourteen kinds of peers, full pools, idle timeouts, cancellations, handler errors", "goroutines by origin against a baseline, sockets, lists, callbacks, weak pointers to clients after garbage collection, a probe in both directions", "leaks show only after failures, and only if the node goes on"),
"C36": ("distances, orders and resolved addresses are exact", "byte strings up to 70 bytes, up to 40 keys sharing prefixes, all notations of numeric addresses", "big integers, bit by bit; net/netip", "input space"),
"C37": ("calls made by callbacks return at once or by their deadline, succeed where they can, and lose nothing",
        "14 places x 19 calls, 1-8 rules on the n-th visit, inline or in a goroutine, 1-3 peers, 1-8 workers, with and without overlay and gossip; half of the plans close nothing and must succeed", "virtual time of each call, its error, arrivals, a final probe; halts of the virtual clock", "nesting of callbacks and calls; the quick check needs minutes to be sure of a halt, but only when there is one"),
}
