package main

import (
	"context"
	"crypto/sha256"
	"errors"
	"math/bits"
	"sync"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"
	"github.com/perlin-network/noise/kademlia"

	"verifharness/gen"
	"verifharness/vnet"
)

// C29: gossip reaches every node, and each hears it only once. Part of C30: no link carries it twice, it dies out.

type c29Content struct {
	Size   int // -1: the largest that is accepted
	Family int // contents of the same family differ in few bytes only
	Diff   int
}

type c29Push struct {
	Content int
	Node    int
	At      int // ms
	Copies  int // pushed or delivered so many times
	By      int // 0: the application of Node; n>0: n independent peers deliver it to Node
	Step    int
	Scribble,
	CtxMs int
}

type c29Plan struct {
	N        int
	Edges    [][2]int
	Dialled  bool // edges come about by pings rather than by entries alone
	Link     Link
	Workers  int
	Limit    int
	Contents []c29Content
	Pushes   []c29Push
	Rejects  [][2]int // node, content
	Slow     int      // ms that applications take
	Steps    int
}

const gossipRule = "Overlays of two to nine, at times thirty nodes over generated connected graphs, whose edges are known to one end or both, from the start or by interaction; up to five contents of 0 bytes to 300 kB (64 kB and the receive limit included), some differing in few bytes at their end or being prefixes of others, pushed by applications, also of several nodes and repeatedly, or delivered by up to five independent peers at the same instant; slow applications, one to four workers, latency."

func init() {
	gen29 := func(s *gen.S) c29Plan {
		p := c29Plan{N: gen.Pick(s, 2, s.Range(2, 4), s.Range(2, 9)), Link: genLinkBatch(s), Workers: gen.Pick(s, 1, 2, 4), Limit: gen.Pick(s, 0, 0, 70000, 5000), Dialled: s.Bool(30), Slow: gen.Pick(s, 0, 0, 0, 50, 3000)}
		hub := false
		if s.Bool(2) { // more neighbours than one bucket holds
			p.N, hub = s.Range(18, 30), s.Bool(70)
		}
		for i := 1; i < p.N; i++ {
			j := gen.Pick(s, i-1, s.Intn(i), 0)
			if hub {
				j = 0
			}
			e := [2]int{i, j}
			if s.Bool(50) || hub {
				e = [2]int{j, i}
			}
			p.Edges = append(p.Edges, e)
			if s.Bool(60) {
				p.Edges = append(p.Edges, [2]int{e[1], e[0]})
			}
		}
		for k := gen.Pick(s, 0, s.Intn(p.N), s.Intn(min(p.N*p.N, 100))); k > 0; k-- {
			e := [2]int{s.Intn(p.N), s.Intn(p.N)}
			if e[0] != e[1] {
				p.Edges = append(p.Edges, e)
			}
		}
		big := 2
		for k := s.Range(1, 5); k > 0; k-- {
			c := c29Content{Size: gen.Pick(s, s.Intn(64), s.Intn(2000), 1, 0, 4000, -1, s.Range(65000, 66000), 65536-38+s.Intn(80), s.Range(60000, 300000)), Family: s.Intn(2), Diff: s.Intn(3)}
			if c.Size > 10000 || c.Size < 0 {
				if big--; big < 0 {
					c.Size = s.Intn(3000)
				}
			}
			if c.Size < 0 && p.Limit == 0 {
				c.Size = 100000
			}
			if p.Limit > 0 {
				c.Size = min(c.Size, p.Limit-38)
			}
			p.Contents = append(p.Contents, c)
		}
		p.Steps = gen.Pick(s, 1, 1, 2, 3)
		for k := s.Range(1, 6); k > 0; k-- {
			q := c29Push{Content: s.Intn(len(p.Contents)), Node: s.Intn(p.N), At: gen.Pick(s, 0, 0, s.Intn(300)), Copies: gen.Pick(s, 1, 1, 1, 2, 3), Step: s.Intn(p.Steps), Scribble: s.Intn(2), CtxMs: gen.Pick(s, 0, 0, 60000)}
			if s.Bool(25) {
				q.By = s.Range(1, 5)
			}
			p.Pushes = append(p.Pushes, q)
		}
		if s.Bool(25) {
			p.Steps = len(p.Pushes)
			for i := range p.Pushes {
				p.Pushes[i].Step = i
				if s.Bool(60) {
					p.Rejects = append(p.Rejects, [2]int{s.Intn(p.N), p.Pushes[i].Content})
				}
			}
		}
		return p
	}
	register(&Prop{ID: "C29", Quick: 4000, Thorough: 80000, Restart: 100, Rule: gossipRule + " Some applications reject some contents. Receipts are compared with reachability in the graph, their bytes and senders with what was pushed and who had it. Non-trivial: a message was relayed over at least two hops or delivered by several neighbours, or rejected.",
		Assume: []string{"No bucket overflows, and no connection is dropped for lack of room or idleness.", "A rejected message is the only one under way on its connection."}}, gen29, func(c *C, p c29Plan) { runC29(c, p, false) })

	register(&Prop{ID: "C30", Quick: 5000, Thorough: 120000, Restart: 120, Rule: "Two parts. " + gossipRule + " Every node counts what arrives over each link. And one node with up to ten, at times forty neighbours of an independent implementation that take gossip, are gone, or accept connections without speaking, and may come and go; its application pushes up to three contents (again and again, with and without contexts that end), the neighbours deliver them, one after the other or at generated instants. Every gossip frame is counted by neighbour and content, arrivals and the ends of pushes are timed. Non-trivial: gossip was pushed or received again after it had been sent, or some neighbour could not be reached."},
		func(s *gen.S) c30Plan {
			var p c30Plan
			if s.Bool(35) {
				q := gen29(s)
				p.Net = &q
				return p
			}
			p = c30Plan{Link: Link{LatMs: gen.Pick(s, 0, 1, 20, 150)}, Idle: gen.Pick(s, 1, 2, 5), Workers: gen.Pick(s, 1, 2), Exact: s.Bool(60), Slow: gen.Pick(s, 0, 0, 200)}
			p.Idle = max(p.Idle, p.Link.LatMs/30)
			n := s.Range(1, 10)
			if s.Bool(3) {
				n = s.Range(17, 40)
			}
			fail := gen.Pick(s, 0, 20, 50)
			for i := 0; i < n; i++ {
				q := c30Peer{Absent: s.Bool(30)}
				if s.Bool(fail) {
					q.State = gen.Pick(s, mDead, mHang, mHang)
				}
				p.Peers = append(p.Peers, q)
			}
			for k := s.Range(1, 3); k > 0; k-- {
				p.Contents = append(p.Contents, c29Content{Size: gen.Pick(s, s.Intn(300), s.Intn(300), 0, s.Range(65000, 66000), s.Range(1000, 200000)), Family: s.Intn(2), Diff: s.Intn(3)})
			}
			for k := s.Range(1, 14*s.Size); k > 0; k-- {
				o := c30Op{Kind: s.Weighted(6, 5, 2, 2, 1), Peer: s.Intn(n), Content: s.Intn(len(p.Contents)), CtxMs: gen.Pick(s, 0, 0, 0, -1, 500, 3000), At: gen.Pick(s, 0, s.Intn(2000)), Copies: gen.Pick(s, 1, 1, 2, 3), Over: s.Intn(2)}
				if o.Kind == 3 {
					o.State = gen.Pick(s, mLive, mLive, mDead, mHang)
				}
				p.Ops = append(p.Ops, o)
			}
			if s.Bool(25) {
				p.Reject = 1 + s.Intn(len(p.Contents))
			}
			return p
		}, runC30)
}

type c30Peer struct {
	State  int
	Absent bool // from the routing table at first
}

type c30Op struct {
	Kind    int // 0: push, 1: deliver, 2: connect to the node, 3: change of state, 4: drop connections
	Peer    int
	Content int
	CtxMs   int // -1: ended already
	At      int
	Copies  int
	Over    int
	State   int
}

type c30Plan struct {
	Net      *c29Plan
	Link     Link
	Idle     int // s
	Workers  int
	Exact    bool
	Slow     int // ms
	Reject   int // content, from 1
	Peers    []c30Peer
	Contents []c29Content
	Ops      []c30Op
}

func gossipContent(c c29Content, limit int) []byte {
	n := c.Size
	if n < 0 {
		n = limit - 38
	}
	b := gen.Expand(uint64(c.Family)+99, n)
	switch {
	case n == 0:
	case c.Diff == 1:
		b[n-1] ^= 1
	case c.Diff == 2:
		b[n/2] ^= 0x80
	}
	return b
}

type c29receipt struct {
	sender noise.ID
	data   []byte
	sum    [32]byte
	at     time.Duration
}

type c29node struct {
	n       *noise.Node
	kad     *kademlia.Protocol
	g       *gossip.Protocol
	mu      sync.Mutex
	got     map[[32]byte][]c29receipt
	link    map[[32]byte]map[noise.PublicKey]int // gossip that arrived, by sender
	rejects map[[32]byte]bool
	dropped map[noise.PublicKey]int // disconnects
	kept    []c29receipt
	had     map[[32]byte][]c29receipt
}

func runC29(c *C, p c29Plan, links bool) {
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		var nodes []*c29node
		for i := 0; i < p.N; i++ {
			x := &c29node{got: map[[32]byte][]c29receipt{}, link: map[[32]byte]map[noise.PublicKey]int{}, rejects: map[[32]byte]bool{}, dropped: map[noise.PublicKey]int{}}
			id := peerIdent(i+100, 1)
			var priv noise.PrivateKey
			copy(priv[:], id.Priv)
			opts := []noise.NodeOption{noise.WithNodePrivateKey(priv), noise.WithNodeNumWorkers(uint(p.Workers)), noise.WithNodeIdleTimeout(time.Hour)}
			if p.Limit > 0 {
				opts = append(opts, noise.WithNodeMaxRecvMessageSize(uint32(p.Limit)))
			}
			x.n = e.Node(opts...)
			x.kad = kademlia.New()
			x.g = gossip.New(x.kad, gossip.WithEvents(gossip.Events{OnGossipReceived: func(sender noise.ID, data []byte) error {
				r := c29receipt{sender, data, sha256.Sum256(data), e.Net.Now()}
				x.mu.Lock()
				x.got[r.sum] = append(x.got[r.sum], r)
				x.kept = append(x.kept, r)
				bad := x.rejects[r.sum]
				x.mu.Unlock()
				if p.Slow > 0 {
					time.Sleep(time.Duration(p.Slow) * time.Millisecond)
				}
				if bad {
					return errors.New("the application does not like this")
				}
				return nil
			}}))
			x.n.Bind(x.kad.Protocol(), x.g.Protocol(), noise.Protocol{OnPeerDisconnected: func(c *noise.Client) {
				x.mu.Lock()
				x.dropped[c.ID().ID]++
				x.mu.Unlock()
			}})
			x.n.Handle(func(ctx noise.HandlerContext) error {
				if d := ctx.Data(); !ctx.IsRequest() && len(d) >= 2 && d[0] == 0 && d[1] == 4 {
					sum := sha256.Sum256(d[2:])
					x.mu.Lock()
					if x.link[sum] == nil {
						x.link[sum] = map[noise.PublicKey]int{}
					}
					x.link[sum][ctx.ID().ID]++
					x.mu.Unlock()
				}
				return nil
			})
			if !e.Listen(x.n) {
				return
			}
			nodes = append(nodes, x)
		}
		for _, g := range p.Edges {
			a, b := nodes[g[0]], nodes[g[1]]
			if p.Dialled {
				ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
				if _, err := a.n.Ping(ctx, b.n.Addr()); err != nil {
					e.Fail("a node cannot reach another: %v", err)
				}
				cancel()
			} else {
				a.kad.Table().Update(b.n.ID())
			}
		}
		time.Sleep(time.Second)
		e.Settle()
		contents := make([][]byte, len(p.Contents))
		sums := make([][32]byte, len(p.Contents))
		for i, q := range p.Contents {
			contents[i] = gossipContent(q, p.Limit)
			sums[i] = sha256.Sum256(contents[i])
		}
		for _, r := range p.Rejects {
			nodes[r[0]].rejects[sums[r[1]]] = true
		}
		who := map[noise.PublicKey]int{} // index of node; peers: -1
		for i, x := range nodes {
			who[x.n.ID().ID] = i
		}
		type state struct {
			pushed map[int]bool                     // nodes that pushed it
			given  map[int]map[noise.PublicKey]bool // by independent peers
			reach  map[int]bool
			sent   map[noise.PublicKey]bool
		}
		all := map[[32]byte]*state{}
		serial := 0
		hops, fan, rejected := false, false, false
		for step := 0; step < p.Steps; step++ {
			known := make([]map[int]bool, p.N) // who knows whom
			for i, x := range nodes {
				known[i] = map[int]bool{}
				for _, id := range x.kad.Table().Entries() {
					if j, ok := who[id.ID]; ok && j >= 0 && j != i {
						known[i][j] = true
					}
				}
			}
			var fs []func()
			had := func(i int, sum [32]byte) bool { // before this step
				return len(nodes[i].had[sum]) > 0
			}
			for _, x := range nodes {
				x.mu.Lock()
				x.had = map[[32]byte][]c29receipt{}
				for sum, l := range x.got {
					x.had[sum] = l
				}
				x.mu.Unlock()
			}
			pushers := map[[32]byte][]int{}
			was := make([]map[[32]byte]int, p.N) // receipts of what was pushed in earlier steps
			for i := range was {
				was[i] = map[[32]byte]int{}
			}
			for sum, st := range all {
				for i := range st.pushed {
					was[i][sum] = len(nodes[i].had[sum])
					nodes[i].had[sum] = append(nodes[i].had[sum], c29receipt{})
				}
			}
			drops := make([]map[noise.PublicKey]int, p.N)
			for i, x := range nodes {
				drops[i] = map[noise.PublicKey]int{}
				x.mu.Lock()
				for k, v := range x.dropped {
					drops[i][k] = v
				}
				x.mu.Unlock()
			}
			for _, q := range p.Pushes {
				if q.Step%p.Steps != step {
					continue
				}
				data, sum, x := contents[q.Content], sums[q.Content], nodes[q.Node]
				st := all[sum]
				if st == nil {
					st = &state{pushed: map[int]bool{}, given: map[int]map[noise.PublicKey]bool{}, reach: map[int]bool{}, sent: map[noise.PublicKey]bool{}}
					all[sum] = st
				}
				if q.By == 0 {
					st.pushed[q.Node] = true
					pushers[sum] = append(pushers[sum], q.Node)
					for k := 0; k < q.Copies; k++ {
						fs = append(fs, func() {
							time.Sleep(time.Duration(q.At) * time.Millisecond)
							ctx, cancel := ctxFor(q.CtxMs)
							defer cancel()
							mine := cp(data)
							x.g.Push(ctx, mine)
							if q.Scribble == 1 {
								for i := range mine {
									mine[i] = 0x55
								}
							}
						})
					}
					continue
				}
				pushers[sum] = append(pushers[sum], -1-q.Node)
				if st.given[q.Node] == nil {
					st.given[q.Node] = map[noise.PublicKey]bool{}
				}
				for k := 0; k < q.By; k++ {
					serial++
					me := peerIdent(serial+1000, 7000+serial)
					s, _, err := e.Dial(x.n.Addr(), me, vnet.Policy{Latency: time.Duration(p.Link.LatMs) * time.Millisecond})
					if err != nil {
						e.Fail("a peer cannot connect: %v", err)
						return
					}
					go func() {
						for {
							if _, _, err := s.Recv(); err != nil {
								return
							}
						}
					}()
					who[noiseID(me).ID] = -1
					st.given[q.Node][noiseID(me).ID] = true
					fs = append(fs, func() {
						time.Sleep(time.Duration(q.At) * time.Millisecond)
						for c := 0; c < q.Copies; c++ {
							if s.Send(0, append([]byte{0, 4}, data...)) != nil {
								return
							}
						}
					})
				}
				fan = fan || q.By > 1
			}
			if !e.Within(5*time.Minute, func() { All(fs...) }) {
				e.Hang("pushing gossip does not end")
				return
			}
			time.Sleep(time.Minute)
			e.Settle()
			// What each content reaches, as far as it must.
			for sum, st := range all {
				var queue []int
				expanded := map[int]bool{}
				expand := func(i int) {
					if !expanded[i] {
						expanded[i] = true
						queue = append(queue, i)
					}
				}
				add := func(i int) {
					st.reach[i] = true
					if !had(i, sum) && (!nodes[i].rejects[sum] || st.pushed[i]) {
						expand(i)
					}
				}
				for _, i := range pushers[sum] {
					if i >= 0 {
						st.reach[i] = true
						expand(i)
					} else {
						add(-1 - i)
					}
				}
				for len(queue) > 0 {
					i := queue[0]
					queue = queue[1:]
					for j := range known[i] {
						if !st.reach[j] {
							hops = hops || !st.pushed[i]
						}
						add(j)
					}
				}
			}
			for sum, st := range all {
				for i, x := range nodes {
					x.mu.Lock()
					got := append([]c29receipt{}, x.got[sum]...)
					drop := map[noise.PublicKey]int{}
					for k, v := range x.dropped {
						drop[k] = v
					}
					x.mu.Unlock()
					if len(got) > 1 {
						e.Fail("node %d reports the same gossip of %d bytes %d times", i, len(got[0].data), len(got))
						return
					}
					if k, ok := was[i][sum]; ok && len(got) > k {
						e.Fail("node %d reports the gossip it had pushed itself before", i)
						return
					}
					if st.pushed[i] {
						// It may have been received before it was pushed here.
						if len(got) == 1 && !c29others(p, sums, sum, i) {
							e.Fail("node %d reports the gossip it pushed itself", i)
							return
						}
					} else if st.reach[i] && len(got) == 0 {
						e.Fail("node %d never reports gossip that was pushed to a node it is connected to", i)
						return
					}
					for _, r := range got {
						j, ok := who[r.sender.ID]
						switch {
						case !ok:
							e.Fail("node %d reports gossip from %s, whom nobody knows", i, idStr(r.sender))
						case j < 0:
							if !st.given[i][r.sender.ID] {
								e.Fail("node %d reports gossip from %s, who did not send it", i, idStr(r.sender))
							}
						default:
							if !sameID(r.sender, nodes[j].n.ID()) {
								e.Fail("node %d reports gossip from %s instead of %s", i, idStr(r.sender), idStr(nodes[j].n.ID()))
							}
							nodes[j].mu.Lock()
							have := len(nodes[j].got[sum]) > 0 || st.pushed[j]
							nodes[j].mu.Unlock()
							if !have || i == j || nodes[j].rejects[sum] && !st.pushed[j] {
								e.Fail("node %d reports gossip from node %d, who cannot have passed it on", i, j)
							}
						}
						if x.rejects[sum] && !had(i, sum) {
							rejected = true
							if drop[r.sender.ID] <= drops[i][r.sender.ID] {
								e.Fail("node %d rejected gossip from %s, but did not disconnect it", i, idStr(r.sender))
							}
						}
					}
				}
			}
			if e.Failed() {
				return
			}
		}
		for i, x := range nodes {
			for _, r := range x.kept {
				st := all[r.sum]
				if st == nil {
					e.Fail("node %d reports gossip of %d bytes that nobody pushed", i, len(r.data))
					return
				}
				if sha256.Sum256(r.data) != r.sum {
					e.Fail("gossip reported by node %d changed afterwards", i)
				}
			}
			for sum, by := range x.link {
				for from, n := range by {
					j, ok := who[from]
					if !ok || j < 0 {
						continue
					}
					if links && n > 1 {
						e.Fail("node %d sent the same gossip %d times to node %d", j, n, i)
					}
					if links && i == j {
						e.Fail("node %d sent gossip to itself", i)
					}
					if g := nodes[j].got[sum]; links && len(g) == 1 && g[0].sender.ID == x.n.ID().ID && !all[sum].pushed[j] {
						e.Fail("node %d sent gossip back to node %d, whom it received it from first", j, i)
					}
				}
			}
		}
		e.Label("network")
		if hops {
			e.Label("relayed")
		}
		if fan {
			e.Label("several deliverers")
		}
		if rejected {
			e.Label("rejected")
		}
		if hops || fan || rejected {
			e.NonTrivial()
		}
	})
}

// c29others tells whether content sum is introduced anywhere else than by the application of node i.
func c29others(p c29Plan, sums [][32]byte, sum [32]byte, i int) bool {
	for _, q := range p.Pushes {
		if sums[q.Content] == sum && (q.Node != i || q.By > 0) {
			return true
		}
	}
	return false
}

func runC30(c *C, p c30Plan) {
	if p.Net != nil {
		runC29(c, *p.Net, true)
		return
	}
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		lat := time.Duration(p.Link.LatMs) * time.Millisecond
		idle := time.Duration(p.Idle) * time.Second
		quick := 12*lat + 100*time.Millisecond // by then, a neighbour that speaks has got its message
		contents := map[[32]byte]int{}
		var data [][]byte
		for i, q := range p.Contents {
			d := gossipContent(q, 0)
			data = append(data, d)
			if _, ok := contents[sha256.Sum256(d)]; !ok {
				contents[sha256.Sum256(d)] = i
			}
		}
		num := func(i int) int { return contents[sha256.Sum256(data[i])] }
		var mu sync.Mutex
		first := map[int]noise.ID{}
		reject := -1
		if p.Reject > 0 {
			reject = num(p.Reject - 1)
		}
		x := e.Node(noise.WithNodeNumWorkers(uint(p.Workers)), noise.WithNodeIdleTimeout(idle))
		kad := kademlia.New()
		g := gossip.New(kad, gossip.WithEvents(gossip.Events{OnGossipReceived: func(sender noise.ID, d []byte) error {
			k, ok := contents[sha256.Sum256(d)]
			if !ok {
				e.Fail("gossip of %d bytes is reported that nobody sent", len(d))
				return nil
			}
			mu.Lock()
			_, twice := first[k]
			first[k] = sender
			mu.Unlock()
			if twice {
				e.Fail("the same gossip is reported twice")
			}
			time.Sleep(time.Duration(p.Slow) * time.Millisecond)
			if k == reject {
				return errors.New("the application does not like this")
			}
			return nil
		}}))
		x.Bind(kad.Protocol(), g.Protocol())
		if !e.Listen(x) {
			return
		}
		type arrival struct {
			at time.Duration
		}
		got := make([]map[int][]arrival, len(p.Peers))
		sent := make([]map[int]bool, len(p.Peers)) // by the peer to the node
		told := make([]map[int]bool, len(p.Peers)) // likewise, before the node sent it to the peer
		var ms []*member
		serial, full := 0, map[int]int{}
		for i, q := range p.Peers {
			got[i], sent[i], told[i] = map[int][]arrival{}, map[int]bool{}, map[int]bool{}
			m := &member{e: e, port: 9000 + i, state: mDead}
			for { // no bucket overflows
				m.me = peerIdent(serial+300, m.port)
				serial++
				k := bits.LeadingZeros8(x.ID().ID[0] ^ noiseID(m.me).ID[0])
				if full[k]++; full[k] < 14 {
					break
				}
			}
			m.plain = func(d []byte) {
				if len(d) < 2 || d[0] != 0 || d[1] != 4 {
					return
				}
				k, ok := contents[sha256.Sum256(d[2:])]
				if !ok {
					e.Fail("neighbour %d receives gossip of %d bytes that nobody pushed", i, len(d)-2)
					return
				}
				mu.Lock()
				got[i][k] = append(got[i][k], arrival{e.Net.Now()})
				back := told[i][k]
				mu.Unlock()
				if back {
					e.Fail("neighbour %d receives gossip that it delivered before", i)
				}
			}
			m.set(q.State)
			ms = append(ms, m)
			if !q.Absent {
				kad.Table().Update(noiseID(m.me))
			}
		}
		has := func(i, k int) int {
			mu.Lock()
			defer mu.Unlock()
			return len(got[i][k])
		}
		again, unreached := false, false
		pushed := map[int]bool{}
		// spread checks, in exact cases, that content k now is with all neighbours in before that can be reached.
		spread := func(k int, before map[int]bool, from time.Duration, except noise.PublicKey, what string) {
			for i := range ms {
				st, me := ms[i].now()
				if !before[i] || st != mLive || sent[i][k] || noiseID(me).ID == except {
					continue
				}
				if has(i, k) == 0 {
					e.Fail("%s gossip, but neighbour %d does not receive it", what, i)
					return
				}
				if at := got[i][k][0].at; at > from+quick {
					e.Fail("%s gossip, but neighbour %d receives it only after %v", what, i, at-from)
					return
				}
			}
		}
		do := func(o c30Op) {
			m := ms[o.Peer%len(ms)]
			k := num(o.Content)
			switch o.Kind {
			case 0:
				before := map[int]bool{}
				hang, away := false, false
				for i, w := range ms {
					st, me := w.now()
					before[i] = kad.Table().Recorded(noiseID(me).ID)
					if before[i] && st != mLive {
						away = true
						hang = hang || st == mHang && !sent[i][k] && has(i, k) == 0
					}
				}
				mu.Lock()
				again = again || pushed[k]
				pushed[k] = true
				unreached = unreached || away
				mu.Unlock()
				ctx, cancel := context.WithCancel(context.Background())
				if o.CtxMs > 0 {
					ctx, cancel = context.WithTimeout(context.Background(), time.Duration(o.CtxMs)*time.Millisecond)
				}
				defer cancel()
				if o.CtxMs < 0 {
					cancel()
				}
				start := e.Net.Now()
				if !e.Within(10*time.Minute, func() { g.Push(ctx, cp(data[o.Content])) }) {
					e.Hang("a push does not end")
					return
				}
				took := e.Net.Now() - start
				most := 9*idle + 10*time.Second
				if o.CtxMs > 0 {
					most = min(most, time.Duration(o.CtxMs)*time.Millisecond+20*time.Millisecond)
				}
				if o.CtxMs < 0 {
					most = 20 * time.Millisecond
				}
				if p.Exact && !hang {
					most = min(most, quick)
				}
				if took > most {
					e.Fail("a push takes %v instead of at most %v (context of %d ms)", took, most, o.CtxMs)
				}
				if !p.Exact {
					return
				}
				if hang && o.CtxMs == 0 && took < idle {
					e.Fail("a push ends after %v already, though a neighbour is still being tried", took)
				}
				time.Sleep(quick)
				e.Settle()
				if o.CtxMs == 0 || o.CtxMs > 0 && time.Duration(o.CtxMs)*time.Millisecond > quick {
					spread(k, before, start, noise.PublicKey{}, "the application pushes")
				}
			case 1:
				mc := m.conn(o.Over == 0)
				if mc == nil {
					mc = m.conn(o.Over != 0)
				}
				if st, _ := m.now(); mc == nil && st == mLive {
					if m.dial(x.Addr(), p.Link.policy()) == nil {
						mc = m.conn(false)
						time.Sleep(lat)
						e.Settle()
					}
				}
				if mc == nil {
					return
				}
				if p.Exact {
					mu.Lock()
					_, old := first[k]
					old = old || pushed[k]
					mu.Unlock()
					again = again || old
					before := map[int]bool{}
					for i, w := range ms {
						_, me := w.now()
						before[i] = kad.Table().Recorded(noiseID(me).ID)
					}
					mu.Lock()
					sent[o.Peer%len(ms)][k] = true
					mu.Unlock()
					start := e.Net.Now()
					for c := 0; c < o.Copies; c++ {
						mc.s.Send(0, append([]byte{0, 4}, data[o.Content]...))
					}
					time.Sleep(quick + time.Duration(p.Slow)*time.Millisecond)
					e.Settle()
					mu.Lock()
					f, heard := first[k]
					if mc.alive() && len(got[o.Peer%len(ms)][k]) == 0 {
						told[o.Peer%len(ms)][k] = true
					}
					mu.Unlock()
					if !heard && !mc.alive() {
						return // it was idle for too long
					}
					if old {
						return
					}
					if !heard || f.ID != noiseID(mc.id).ID {
						e.Fail("gossip from neighbour %d is not reported as such", o.Peer%len(ms))
						return
					}
					if k == reject {
						for i := range ms {
							if has(i, k) > 0 {
								e.Fail("gossip that was rejected is passed on to neighbour %d", i)
							}
						}
						return
					}
					spread(k, before, start+lat+time.Duration(p.Slow)*time.Millisecond, f.ID, "a neighbour delivers")
					return
				}
				mu.Lock()
				sent[o.Peer%len(ms)][k] = true
				mu.Unlock()
				for c := 0; c < o.Copies; c++ {
					mc.s.Send(0, append([]byte{0, 4}, data[o.Content]...))
				}
			case 2:
				if st, _ := m.now(); st != mLive {
					return
				}
				m.dial(x.Addr(), p.Link.policy())
			case 3:
				m.set(o.State)
			case 4:
				m.kill()
			}
		}
		if p.Exact {
			for _, o := range p.Ops {
				do(o)
				// What is sent in response, and attempts at neighbours that do not speak, end.
				if o.At%2 == 0 {
					time.Sleep(9*idle + 10*time.Second)
				} else {
					time.Sleep(quick)
				}
				e.Settle()
				if o.At%2 != 0 {
					for _, m := range ms {
						if st, _ := m.now(); st == mHang {
							time.Sleep(9*idle + 10*time.Second)
							e.Settle()
							break
						}
					}
				}
				if e.Failed() {
					return
				}
			}
		} else {
			var fs []func()
			for _, o := range p.Ops {
				fs = append(fs, func() {
					time.Sleep(time.Duration(o.At) * time.Millisecond)
					do(o)
				})
			}
			All(fs...)
			if e.Failed() {
				return
			}
		}
		time.Sleep(10*idle + 10*time.Second)
		e.Settle()
		mu.Lock()
		defer mu.Unlock()
		for i := range ms {
			for k, l := range got[i] {
				if len(l) > 1 {
					e.Fail("neighbour %d receives the same gossip (%d bytes) %d times", i, len(data[k]), len(l))
					return
				}
				if f, ok := first[k]; ok && len(l) > 0 && f.ID == noiseID(ms[i].me).ID {
					e.Fail("neighbour %d, whom gossip (%d bytes) was received from first, is sent it back", i, len(data[k]))
					return
				}
				if _, ok := first[k]; !ok && !pushed[k] {
					e.Fail("neighbour %d receives gossip that was neither pushed nor reported", i)
				}
			}
		}
		for _, d := range e.Net.Dials() {
			if d.Addr == x.Addr() {
				e.Fail("the node dials itself")
			}
		}
		e.Label("neighbours")
		if again {
			e.Label("again")
		}
		if unreached {
			e.Label("unreachable")
		}
		if again || unreached {
			e.NonTrivial()
		}
	})
}
