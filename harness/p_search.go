package main

import (
	"net"
	"sort"
	"sync"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"

	"verifharness/gen"
	"verifharness/vnet"
	"verifharness/wire"
)

// C28: discovery finds exactly the live peers that can be reached.

const (
	snLive   = iota
	snSlow   // answers late, but in time
	snLate   // answers after the lookup timed out
	snSilent // reads, but does not answer
	snHang   // does not speak at all
	snDead   // nobody listens
	snStale  // the address belongs to somebody else: another peer, or the searching node
	snWrong  // answers with something else
	snKinds
)

type c28Peer struct {
	Seed   int
	Bucket int
	State  int
	Known  []int // indices of peers; len(Peers): the searching node; +1: a fabricated one
	Liar   int   // that many fabricated identities on top
	Of     int   // for snStale
	Wrong  int
}

type c28Search struct {
	Kind     int // 0: random target, 1: a peer, 2: itself
	Target   int
	Max      int // -1: default
	Parallel int
	Requests int
	Together bool // together with the next one
}

type c28Plan struct {
	Owner    int
	Link     Link
	Timeout  int // ms
	Real     bool
	Overflow bool
	Peers    []c28Peer
	Start    []int
	Searches []c28Search
}

func init() {
	register(&Prop{ID: "C28", Quick: 6000, Thorough: 150000, Rule: "Overlays of up to 60 peers of an independent implementation (or of up to 9 further nodes), shaped at random, as chains, stars or trees, with at most sixteen known to each; part of the entries are peers that answer slowly, too late, wrongly, or not at all, that do not complete handshakes, that are gone, whose address has become somebody else's (even the searching node's), or that list hundreds of fabricated identities; answers list the searching node, the answering peer and duplicates too. Searches with generated targets, numbers of results and parallelism, one after the other or together, are compared with a breadth-first search. Non-trivial: a live peer that is at least three steps away is expected, and an entry that does not answer is reached.",
		Assume: []string{"Every key is listed under one address only.", "Each node interacts with so few peers that none of its buckets overflows (but for the cases behind the known finding, if any)."}},
		func(s *gen.S) c28Plan {
			p := c28Plan{Owner: s.Seed(), Link: Link{LatMs: gen.Pick(s, 0, 0, 1, 20, 100)}, Timeout: gen.Pick(s, 3000, 3000, 1500, 8000), Real: s.Bool(25)}
			if s.Bool(20) {
				p.Link.Frag = 1 + s.Intn(40)
				p.Link.LatMs = min(p.Link.LatMs, 1)
			}
			n := gen.Pick(s, s.Range(1, 6), s.Range(3, 20), s.Range(10, 60))
			if p.Real {
				n = s.Range(1, 9)
			}
			p.Overflow = !p.Real && n > 20 && s.Bool(5)
			n = min(n, 3+60*s.Size)
			fail := gen.Pick(s, 0, 10, 30, 60)
			var per [4]int
			for i := 0; i < n; i++ {
				q := c28Peer{Seed: s.Seed(), Bucket: s.Intn(4), Of: s.Intn(n + 1), Wrong: s.Intn(6)}
				if p.Overflow {
					q.Bucket = s.Weighted(8, 1)
				} else if per[q.Bucket] >= 16 {
					for b := range per {
						if per[b] < 16 {
							q.Bucket = b
						}
					}
				}
				per[q.Bucket]++
				if s.Bool(fail) {
					q.State = 1 + s.Intn(snKinds-1)
					if p.Real && (q.State == snSlow || q.State == snLate || q.State == snWrong) {
						q.State = snDead
					}
				}
				if !p.Real && s.Bool(4) {
					q.Liar = gen.Pick(s, 1, 20, 200, 255)
				}
				p.Peers = append(p.Peers, q)
			}
			know := func(i, j int) {
				if i == n+1 {
					if len(p.Start) < 16 {
						p.Start = append(p.Start, j)
					}
				} else if len(p.Peers[i].Known) < 16 {
					p.Peers[i].Known = append(p.Peers[i].Known, j)
				}
			}
			switch s.Intn(5) {
			case 4: // each tells as many as it can
				k := 1
				for i := -1; i < n && k < n; i++ {
					for j := s.Range(10, 16); j > 0 && k < n; j-- {
						if i < 0 {
							know(n+1, k-1)
						} else {
							know(i, k)
						}
						k++
					}
				}
			case 0: // chain
				know(n+1, 0)
				for i := 1; i < n; i++ {
					know(i-1, i)
				}
			case 1: // tree
				know(n+1, 0)
				for i := 1; i < n; i++ {
					know(s.Range(max(0, i/4-1), i-1), i)
				}
			case 2: // star
				for i := 0; i < n; i++ {
					know(gen.Pick(s, n+1, s.Intn(n)), i)
				}
			case 3:
				know(n+1, s.Intn(n))
			}
			for k := gen.Pick(s, 0, s.Intn(n+1), s.Intn(4*n)); k > 0; k-- {
				i := s.Intn(n)
				if s.Bool(5) {
					i = n + 1
				}
				j := s.Intn(n)
				if i <= n {
					j = s.Intn(n + 2)
				}
				know(i, j)
			}
			if !p.Real && s.Bool(20) {
				for i := range p.Peers {
					if p.Peers[i].State == snLive {
						p.Peers[i].State = snSlow
					}
				}
			}
			for k := s.Range(1, 4); k > 0; k-- {
				p.Searches = append(p.Searches, c28Search{Kind: s.Weighted(3, 4, 3), Target: s.Seed(), Max: gen.Pick(s, -1, -1, 0, 1, 2, 5, 16, 100), Parallel: gen.Pick(s, 0, 0, 1, 2, s.Range(1, 20)), Requests: gen.Pick(s, 0, 0, 1, 2, s.Range(1, 20)), Together: s.Bool(30)})
			}
			return p
		}, runC28)
}

// searched is a wire peer that answers find-node requests.
type searched struct {
	e       *Env
	me      wire.Identity
	state   int
	wrong   int
	answer  []byte
	timeout time.Duration
	load    *c28Load
}

// c28Load counts the requests that peers have yet to answer.
type c28Load struct {
	mu         sync.Mutex
	now, worst int
}

func (l *c28Load) add(d int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.now += d; l.now > l.worst {
		l.worst = l.now
	}
}

func (p *searched) serve(cn *vnet.Conn) {
	if p.state == snHang {
		return
	}
	s, err := wire.Handshake(cn, p.me)
	if err != nil {
		return
	}
	for {
		nc, d, err := s.Recv()
		if err != nil {
			return
		}
		if nc == 0 || len(d) < 2 || p.state == snSilent {
			continue
		}
		if d[1] == 0 {
			s.Send(nc, []byte{0, 1})
			continue
		}
		if len(d) != 34 || d[0] != 0 || d[1] != 2 {
			continue
		}
		answers := p.state == snLive || p.state == snSlow
		if answers {
			p.load.add(1)
		}
		go func() {
			a := p.answer
			switch p.state {
			case snSlow:
				time.Sleep(p.timeout / 3)
			case snLate:
				time.Sleep(p.timeout + time.Second)
			case snWrong:
				switch p.wrong {
				case 0:
					a = []byte{0, 1}
				case 1:
					a = nil
				case 2:
					if a[2] == 255 {
						a = a[:len(a)-1]
					} else {
						a = append([]byte{0, 3, a[2] + 1}, a[3:]...)
					}
				case 3:
					a = append([]byte{7, 7}, a[2:]...)
				case 4:
					a = []byte{0, 2}
				case 5:
					cn.Close()
					return
				}
			}
			if answers {
				p.load.add(-1)
			}
			s.Send(nc, a)
		}()
	}
}

func c28sort(ids []noise.ID, target noise.PublicKey) {
	sort.Slice(ids, func(i, j int) bool {
		for k := range target {
			a, b := ids[i].ID[k]^target[k], ids[j].ID[k]^target[k]
			if a != b {
				return a < b
			}
		}
		return false
	})
}

func runC28(c *C, p c28Plan) {
	e := Bubble(c, func(e *Env) {
		e.link(p.Link)
		key := wire.NewIdentity(gen.Expand(uint64(p.Owner), 32), net.IPv4(127, 0, 0, 1), 8000)
		mk := func(id wire.Identity, opts ...noise.NodeOption) (*noise.Node, *kademlia.Protocol) {
			var priv noise.PrivateKey
			copy(priv[:], id.Priv)
			n := e.Node(append(opts, noise.WithNodePrivateKey(priv), noise.WithNodeNumWorkers(3), noise.WithNodeBindPort(id.Port))...)
			kad := kademlia.New()
			n.Bind(kad.Protocol())
			return n, kad
		}
		x, kad := mk(key)
		if !e.Listen(x) {
			return
		}
		n := len(p.Peers)
		timeout := time.Duration(p.Timeout) * time.Millisecond
		idents := make([]wire.Identity, n)
		ids := make([]noise.ID, n+2)
		for i, q := range p.Peers {
			port := 9000 + i
			if q.State == snStale {
				switch {
				case q.Of >= n:
					port = 8000
				case p.Peers[q.Of].State != snStale:
					port = 9000 + q.Of
				}
			}
			idents[i] = bucketIdent(key.Pub, q.Bucket, q.Seed*64+i, port)
			ids[i] = noiseID(idents[i])
		}
		ids[n] = x.ID()
		ids[n+1] = noiseID(wire.NewIdentity(gen.Expand(uint64(p.Owner)+5, 32), net.IPv4(127, 0, 0, 1), 7999))
		tables := map[int]*kademlia.Protocol{}
		for i, q := range p.Peers {
			if p.Real && q.State == snLive {
				nd, k := mk(idents[i])
				if !e.Listen(nd) {
					return
				}
				tables[i], ids[i] = k, nd.ID()
			}
		}
		load := &c28Load{}
		listed := make([][]noise.ID, n)
		for i, q := range p.Peers {
			for _, j := range q.Known {
				if p.Real && (j == i || j > n) {
					continue
				}
				listed[i] = append(listed[i], ids[j])
			}
			r := gen.NewRand(uint64(q.Seed))
			for k := 0; k < q.Liar && len(listed[i]) < 255; k++ {
				var key noise.PublicKey
				copy(key[:], gen.Expand(r.Uint64(), 32))
				port := 6000 + r.Intn(30)
				if r.Intn(4) == 0 {
					port = 9000 + r.Intn(n)
				}
				listed[i] = append(listed[i], noise.NewID(key, net.IPv4(127, 0, 0, 1), uint16(port)))
			}
			switch {
			case q.State == snDead || q.State == snStale:
			case tables[i] != nil:
				for _, id := range listed[i] {
					tables[i].Table().Update(id)
				}
			default:
				a := append([]byte{0, 3, byte(len(listed[i]))}, c26encode(listed[i])[1:]...)
				w := &searched{e: e, me: idents[i], state: q.State, wrong: q.Wrong, answer: a, timeout: timeout, load: load}
				l, err := e.Net.Listen("tcp", "127.0.0.1"+ids[i].Address)
				if err != nil {
					panic(err)
				}
				e.Defer(func() { l.Close() })
				go func() {
					for {
						cn, err := l.Accept()
						if err != nil {
							return
						}
						go w.serve(cn.(*vnet.Conn))
					}
				}()
			}
		}
		for _, i := range p.Start {
			kad.Table().Update(ids[i])
		}
		index := map[noise.PublicKey]int{}
		for i := 0; i < n; i++ {
			index[ids[i].ID] = i
		}
		answers := func(i int) bool { return p.Peers[i].State == snLive || p.Peers[i].State == snSlow }
		// reach returns the peers that answer and can be reached from the given entries.
		deepest, failing, failed := 0, false, false
		for _, q := range p.Peers {
			failed = failed || q.Bucket == 0 && q.State != snLive
		}
		reach := func(from []noise.ID) []noise.ID {
			var out []noise.ID
			depth := map[int]int{}
			var queue []int
			visit := func(id noise.ID, d int) {
				i, ok := index[id.ID]
				if !ok {
					return
				}
				if _, seen := depth[i]; !seen {
					depth[i] = d
					queue = append(queue, i)
				}
			}
			for _, id := range from {
				visit(id, 1)
			}
			for len(queue) > 0 {
				i := queue[0]
				queue = queue[1:]
				if !answers(i) {
					failing = true
					continue
				}
				deepest = max(deepest, depth[i])
				out = append(out, ids[i])
				for _, id := range listed[i] {
					visit(id, depth[i]+1)
				}
			}
			return out
		}
		search := func(q c28Search, exact, alone bool, everything []noise.ID) {
			target := x.ID().ID
			switch q.Kind {
			case 0:
				copy(target[:], gen.Expand(uint64(q.Target), 32))
			case 1:
				target = ids[q.Target%n].ID
			}
			opts := []kademlia.IteratorOption{kademlia.WithIteratorLookupTimeout(timeout)}
			most := 16
			if q.Max >= 0 {
				most = q.Max
				opts = append(opts, kademlia.WithIteratorMaxNumResults(q.Max))
			}
			if q.Parallel > 0 {
				opts = append(opts, kademlia.WithIteratorNumParallelLookups(q.Parallel))
			}
			if q.Requests > 0 {
				opts = append(opts, kademlia.WithIteratorNumParallelRequestsPerLookup(q.Requests))
			}
			var got []noise.ID
			if !e.Within(time.Duration(n*260+20)*(timeout+3*time.Second), func() {
				if q.Kind == 2 {
					got = kad.Discover(opts...)
				} else {
					got = kad.Find(target, opts...)
				}
			}) {
				e.Hang("a search does not end")
				return
			}
			if len(got) > most {
				e.Fail("a search for at most %d results gives %d", most, len(got))
			}
			seen := map[noise.PublicKey]bool{}
			for _, id := range got {
				if seen[id.ID] {
					e.Fail("a search returns %s twice", idStr(id))
				}
				seen[id.ID] = true
				if id.ID == x.ID().ID {
					e.Fail("a search returns the searching node")
					return
				}
				i, ok := index[id.ID]
				if !ok {
					e.Fail("a search returns %s, which does not exist", idStr(id))
					return
				}
				if !answers(i) {
					e.Fail("a search returns %s, which did not answer (state %d)", idStr(id), p.Peers[i].State)
				}
				if !sameID(id, ids[i]) {
					e.Fail("a search returns %s instead of %s", idStr(id), idStr(ids[i]))
				}
			}
			sorted := append([]noise.ID{}, got...)
			c28sort(sorted, target)
			if !sameIDs(got, sorted) {
				e.Fail("a search returns %d results that are not ordered by their distance to the target", len(got))
			}
			e.Label("search")
			if !exact {
				return
			}
			e.Label("search with everything known")
			want := append([]noise.ID{}, everything...)
			c28sort(want, target)
			if len(want) > most {
				want = want[:most]
			}
			if !alone && len(got) > 0 {
				// Another search may have led to further peers that were not known at the beginning.
				nearer := want[:0]
				for _, w := range want {
					if l := append([]noise.ID{}, w, got[len(got)-1]); len(got) < most || seen[w.ID] {
						nearer = append(nearer, w)
					} else if c28sort(l, target); l[0].ID == w.ID {
						nearer = append(nearer, w)
					}
				}
				want = nearer
				for _, id := range got {
					if i := index[id.ID]; !c28has(want, ids[i]) {
						want = append(want, ids[i])
					}
				}
				c28sort(want, target)
			}
			if !sameIDs(got, want) {
				for _, w := range want {
					if !seen[w.ID] {
						if p.Overflow && failed {
							e.Known("full-bucket-delays-search", "a search misses the live peer %s, as handshakes are held up by a full bucket with silent peers", idStr(w))
							return
						}
						e.Fail("a search returns %d of %d live peers; %s is missing", len(got), len(want), idStr(w))
						return
					}
				}
				e.Fail("a search returns %d results instead of %d", len(got), len(want))
			}
		}
		for i := 0; i < len(p.Searches) && !e.Failed(); i++ {
			time.Sleep(time.Minute)
			e.Settle()
			start := kad.Table().Peers()
			few := kad.Table().NumEntries() <= 17
			all := reach(start)
			batch := []c28Search{p.Searches[i]}
			for p.Searches[i].Together && i+1 < len(p.Searches) {
				i++
				batch = append(batch, p.Searches[i])
			}
			// Meanwhile, the table grows by all peers that answer at all.
			exact := few && (len(batch) == 1 || n <= 16)
			var fs []func()
			for _, q := range batch {
				fs = append(fs, func() { search(q, exact, len(batch) == 1, all) })
			}
			bound := 0
			for _, q := range batch {
				l, r := 3, 8
				if q.Parallel > 0 {
					l = q.Parallel
				}
				if q.Requests > 0 {
					r = q.Requests
				}
				bound += l * r
			}
			load.worst = 0
			All(fs...)
			if load.worst > bound {
				e.Fail("%d requests were under way at once although the searches may make %d", load.worst, bound)
			}
			if load.worst > 1 && load.worst == bound {
				e.Label("searches that make as many requests at once as they may")
			}
		}
		if p.Real {
			e.Label("nodes")
		}
		if deepest >= 3 && failing {
			e.NonTrivial()
		}
	})
	if !c.Failed() && e.Leak != "" {
		c.Fail("goroutines remain after all searches ended and all nodes were closed: %s", head(e.Leak, 300))
	}
}

func c28has(l []noise.ID, id noise.ID) bool {
	for _, x := range l {
		if x.ID == id.ID {
			return true
		}
	}
	return false
}
