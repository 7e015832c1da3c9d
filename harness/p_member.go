package main

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"

	"verifharness/gen"
	"verifharness/vnet"
	"verifharness/wire"
)

// C27: peers are admitted to and evicted from the routing table by the Kademlia rule, with matching events.

const (
	mLive    = iota
	mSilent  // completes handshakes and reads, but answers nothing
	mHang    // accepts connections, but does not speak
	mDead    // nobody listens
	mGarbage // answers requests with something else than a pong (not in exact cases)
	mLate    // answers too late (not in exact cases)
	mStates
)

const (
	moAck = iota
	moConnect
	moMsg
	moPing
	moSend
	moPong
	moState
	moKill
	moRestart
	moSelf
	moKinds
)

type c27Peer struct {
	Seed   int
	Bucket int
	State  int
}

type c27Op struct {
	Kind  int
	Peer  int
	State int
	Seed  int
	At    int // in concurrent cases: when, in ms
}

type c27Plan struct {
	Owner   int
	Link    Link
	Ping    int // ms
	Idle    int // s
	MaxOut  int
	Peers   []c27Peer
	Filled  int // so many of them are acknowledged at the beginning
	Batches [][]c27Op
	Exact   bool
	NoLive  bool // no peer ever answers rightly
}

func init() {
	register(&Prop{ID: "C27", Quick: 8000, Thorough: 250000, Rule: "A node with up to 26 peers, most of them in one bucket, the others in a second one; each peer is an independent implementation that is live, silent after the handshake, mute before it or gone, and may change or restart under another identity at the same address. Exact cases run generated interactions one after the other (peers connecting, messages either way, pings, dials, direct acknowledgements, dying and reviving peers) and compare both buckets, in order, and the events of each step with a model; a further protocol bound to the node counts the interactions. Concurrent cases run them at generated times, with peers that answer late or wrongly too, and check that entries and events add up, buckets stay within sixteen, and that peers that always answer are never evicted. Non-trivial: a tail that answered kept its place, and an entry was evicted.",
		Assume: []string{"When several entries have the address that cannot be dialled, which of them is removed is left open."}},
		func(s *gen.S) c27Plan {
			p := c27Plan{Owner: s.Seed(), Link: genLink(s), Ping: gen.Pick(s, 3000, 1000, 2500), Idle: gen.Pick(s, 10, 3600), MaxOut: gen.Pick(s, 128, 128, 128, s.Range(1, 6)), Exact: s.Bool(65)}
			if p.Link.LatMs > 20 || p.Link.Frag > 0 || p.Link.Window > 0 {
				p.Link.Window = 0
				p.Link.Frag = gen.Pick(s, 0, 17)
				p.Ping = max(p.Ping, 2500)
			}
			n := gen.Pick(s, s.Range(1, 10), s.Range(17, 26), s.Range(17, 26), s.Range(18, 24))
			style := s.Intn(3) // many live, mixed, many failing
			p.NoLive = !p.Exact && s.Bool(30)
			late, garbage := 0, 0
			state := func(most int) int {
				st := mLive
				switch style {
				case 0:
					st = s.Weighted(8, 1, 1, 1, 1, 1)
				case 1:
					st = s.Weighted(3, 1, 1, 2, 1, 1)
				case 2:
					st = s.Weighted(1, 2, 1, 2, 1, 1)
				}
				if st >= most {
					st = s.Intn(2)
				}
				if p.NoLive && (st == mLive || st == mLate) {
					st = gen.Pick(s, mSilent, mGarbage, mDead)
				}
				if st == mGarbage && p.NoLive {
					if garbage++; garbage > 4 {
						st = mSilent
					}
				}
				if st == mLate {
					if late++; late > 3 {
						st = mSilent
					}
				}
				return st
			}
			most := mStates
			if p.Exact {
				most = mGarbage
			} else {
				p.MaxOut = 128
			}
			for i := 0; i < n; i++ {
				q := c27Peer{Seed: s.Seed(), State: state(most)}
				if s.Bool(8) {
					q.Bucket = 1
				}
				p.Peers = append(p.Peers, q)
			}
			p.Filled = gen.Pick(s, 0, min(n, 16), min(n, 16), min(n, 18), s.Intn(n+1))
			op := func(restarts *int) c27Op {
				o := c27Op{Kind: s.Weighted(4, 7, 5, 5, 3, 3, 4, 2, 1, 1), Peer: s.Intn(n), Seed: s.Seed(), At: s.Intn(4000)}
				if p.Filled >= 16 && s.Bool(40) {
					o.Peer = s.Range(min(p.Filled, n-1), n-1)
				}
				if o.Kind == moState {
					o.State = state(most)
				}
				if o.Kind == moRestart {
					if *restarts++; *restarts > 8 {
						o.Kind = moAck
					}
				}
				return o
			}
			restarts := 0
			if p.Exact {
				for k := s.Range(1, 25*s.Size); k > 0; k-- {
					p.Batches = append(p.Batches, []c27Op{op(&restarts)})
				}
			} else {
				for k := s.Range(1, 5); k > 0; k-- {
					var b []c27Op
					for j := s.Range(1, 14*s.Size); j > 0; j-- {
						b = append(b, op(&restarts))
					}
					p.Batches = append(p.Batches, b)
				}
			}
			return p
		}, runC27)
}

// bucketIdent finds an identity whose key has the given number of leading bits in common with owner.
func bucketIdent(owner []byte, bucket, seed, port int) wire.Identity {
	for k := 0; ; k++ {
		i := wire.NewIdentity(gen.Expand(uint64(seed)*1000003+uint64(k), 32), net.IPv4(127, 0, 0, 1), uint16(port))
		if prefixLen(i.Pub, owner) == bucket {
			return i
		}
	}
}

// member is a peer of the node under test.
type member struct {
	e     *Env
	mu    sync.Mutex
	me    wire.Identity
	port  int
	state int
	touch bool // it was not live all the time
	late  time.Duration
	plain func([]byte) // gets messages
	l     net.Listener
	in    []*memberConn // accepted, handshake complete
	out   []*memberConn // dialled
	raw   []*vnet.Conn
}

type memberConn struct {
	s  *wire.Session
	c  *vnet.Conn
	id wire.Identity
}

func (m *memberConn) alive() bool { return !m.c.Closed() && !m.c.Peer().Closed() && !m.c.Broken() }

func (m *member) addr() string { return fmt.Sprintf(":%d", m.port) }

func (m *member) now() (int, wire.Identity) {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.state, m.me
}

func (m *member) open() {
	l, err := m.e.Net.Listen("tcp", "127.0.0.1"+m.addr())
	if err != nil {
		panic(err)
	}
	m.l = l
	m.e.Defer(func() { l.Close() })
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go m.accept(c.(*vnet.Conn))
		}
	}()
}

func (m *member) accept(c *vnet.Conn) {
	st, me := m.now()
	m.mu.Lock()
	m.raw = append(m.raw, c)
	m.mu.Unlock()
	if st == mHang {
		return
	}
	s, err := wire.Handshake(c, me)
	if err != nil {
		c.Close()
		return
	}
	mc := &memberConn{s, c, me}
	m.mu.Lock()
	m.in = append(m.in, mc)
	m.mu.Unlock()
	m.serve(mc)
}

func (m *member) serve(mc *memberConn) {
	for {
		nc, d, err := mc.s.Recv()
		if err != nil {
			return
		}
		if nc == 0 {
			if m.plain != nil {
				m.plain(d)
			}
			continue
		}
		st, _ := m.now()
		switch st {
		case mLive:
			mc.s.Send(nc, []byte{0, 1})
		case mGarbage:
			switch (len(d) + m.port) % 4 {
			case 0:
				mc.s.Send(nc, []byte{0, 0})
			case 1:
				mc.s.Send(nc, []byte{0, 3, 0})
			case 2:
				mc.s.Send(nc, []byte{9, 9, 9})
			case 3:
				mc.s.Send(nc, nil)
			}
		case mLate:
			go func() {
				time.Sleep(m.late)
				mc.s.Send(nc, []byte{0, 1})
			}()
		}
	}
}

// set changes the state of the peer.
func (m *member) set(st int) {
	m.mu.Lock()
	was := m.state
	m.state = st
	if st != mLive {
		m.touch = true
	}
	m.mu.Unlock()
	if st == mDead || st == mHang {
		m.kill()
	}
	if was == mHang && st != mHang {
		m.kill()
	}
	if st == mDead && was != mDead {
		m.l.Close()
	}
	if was == mDead && st != mDead {
		m.open()
	}
}

// kill closes all connections of the peer.
func (m *member) kill() {
	m.mu.Lock()
	raw := m.raw
	m.raw = nil
	for _, o := range m.out {
		raw = append(raw, o.c)
	}
	m.in, m.out = nil, nil
	m.mu.Unlock()
	for _, c := range raw {
		c.Close()
	}
}

func (m *member) restart(me wire.Identity) {
	m.mu.Lock()
	m.me = me
	m.touch = true
	m.mu.Unlock()
	m.kill()
}

// conn returns a live connection the peer has accepted (in) or made (out).
func (m *member) conn(in bool) *memberConn {
	m.mu.Lock()
	defer m.mu.Unlock()
	l := m.out
	if in {
		l = m.in
	}
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].alive() {
			return l[i]
		}
	}
	return nil
}

func (m *member) dial(addr string, p vnet.Policy) error {
	_, me := m.now()
	s, c, err := m.e.Dial(addr, me, p)
	if err != nil {
		return err
	}
	mc := &memberConn{s, c, me}
	m.mu.Lock()
	m.out = append(m.out, mc)
	m.mu.Unlock()
	go m.serve(mc)
	return nil
}

// c27log collects events or interactions.
type c27log struct {
	mu       sync.Mutex
	admitted []noise.ID
	evicted  []noise.ID
	activity map[noise.PublicKey]int
	touched  map[noise.PublicKey]int // interactions
}

func newC27log() *c27log {
	return &c27log{activity: map[noise.PublicKey]int{}, touched: map[noise.PublicKey]int{}}
}

func (l *c27log) touch(id noise.ID) {
	l.mu.Lock()
	l.touched[id.ID]++
	l.mu.Unlock()
}

// c27model is the reference for sequential histories: buckets with their most recently seen entry first.
type c27model struct {
	e        *Env
	owner    []byte
	b        map[int][]noise.ID
	members  map[string]*member // by address
	admitted []noise.ID
	evicted  []noise.ID
	maybe    map[noise.PublicKey]bool // entries that may have been evicted or not
	kept     int
}

func (m *c27model) known(id noise.PublicKey) (int, int) {
	b := prefixLen(id[:], m.owner)
	for i, x := range m.b[b] {
		if x.ID == id {
			return b, i
		}
	}
	return b, -1
}

func (m *c27model) remove(id noise.PublicKey) {
	b, i := m.known(id)
	if i < 0 {
		return
	}
	m.evicted = append(m.evicted, m.b[b][i])
	m.b[b] = append(append([]noise.ID{}, m.b[b][:i]...), m.b[b][i+1:]...)
}

func (m *c27model) ack(id noise.ID) {
	for {
		b, i := m.known(id.ID)
		if i >= 0 {
			x := m.b[b][i]
			l := append([]noise.ID{x}, m.b[b][:i]...)
			m.b[b] = append(l, m.b[b][i+1:]...)
			return
		}
		if len(m.b[b]) < 16 {
			m.b[b] = append([]noise.ID{id}, m.b[b]...)
			m.admitted = append(m.admitted, id)
			return
		}
		tail := m.b[b][15]
		w := m.members[tail.Address]
		st, me := w.now()
		if c := w.conn(true); c != nil {
			me = c.id
		} else {
			switch st {
			case mHang, mDead:
				m.undialable(tail.Address, tail.ID)
				m.remove(tail.ID)
				continue
			}
			m.ack(noiseID(me)) // it is dialled
		}
		if !bytes.Equal(me.Pub, tail.ID[:]) {
			m.remove(tail.ID)
			continue
		}
		m.ack(tail) // the ping is sent
		if st == mLive {
			m.kept++
			return
		}
		m.remove(tail.ID)
	}
}

// undialable removes the entry with addr. If there are several, it is open which one, besides the one that is removed
// in any case.
func (m *c27model) undialable(addr string, anyway noise.PublicKey) {
	var with []noise.ID
	for _, l := range m.b {
		for _, x := range l {
			if x.Address == addr {
				with = append(with, x)
			}
		}
	}
	switch len(with) {
	case 0:
	case 1:
		m.remove(with[0].ID)
	default:
		for _, x := range with {
			if x.ID != anyway {
				m.maybe[x.ID] = true
			}
		}
	}
}

func runC27(c *C, p c27Plan) {
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		key := wire.NewIdentity(gen.Expand(uint64(p.Owner), 32), net.IPv4(127, 0, 0, 1), 1)
		var priv noise.PrivateKey
		copy(priv[:], key.Priv)
		x := e.Node(noise.WithNodePrivateKey(priv), noise.WithNodeNumWorkers(4), noise.WithNodeIdleTimeout(time.Duration(p.Idle)*time.Second), noise.WithNodeMaxOutboundConnections(uint(p.MaxOut)))
		log := newC27log()
		kad := kademlia.New(kademlia.WithProtocolPingTimeout(time.Duration(p.Ping)*time.Millisecond), kademlia.WithProtocolEvents(kademlia.Events{
			OnPeerAdmitted: func(id noise.ID) {
				log.mu.Lock()
				log.admitted = append(log.admitted, id)
				log.mu.Unlock()
			},
			OnPeerEvicted: func(id noise.ID) {
				log.mu.Lock()
				log.evicted = append(log.evicted, id)
				log.mu.Unlock()
			},
			OnPeerActivity: func(id noise.ID) {
				log.mu.Lock()
				log.activity[id.ID]++
				log.mu.Unlock()
			},
		}))
		x.Bind(noise.Protocol{
			OnPeerConnected: func(c *noise.Client) { log.touch(c.ID()) },
			OnMessageSent:   func(c *noise.Client) { log.touch(c.ID()) },
			OnMessageRecv:   func(c *noise.Client) { log.touch(c.ID()) },
		}, kad.Protocol())
		if !e.Listen(x) {
			return
		}
		model := &c27model{e: e, owner: key.Pub, b: map[int][]noise.ID{}, members: map[string]*member{}, maybe: map[noise.PublicKey]bool{}}
		var ms []*member
		for i, q := range p.Peers {
			m := &member{e: e, port: 9000 + i, state: mDead, late: time.Duration(p.Ping+300+37*i) * time.Millisecond}
			m.me = bucketIdent(key.Pub, q.Bucket, q.Seed*64+i, m.port)
			m.set(q.State)
			m.touch = q.State != mLive
			ms = append(ms, m)
			model.members[m.addr()] = m
		}
		ack := func(id noise.ID) {
			log.touch(id)
			if !e.Within(2*time.Minute, func() { kad.Ack(id) }) {
				e.Hang("acknowledging a peer does not end")
			}
		}
		for i := 0; i < p.Filled; i++ {
			id := noiseID(ms[i].me)
			if p.Exact {
				model.ack(id)
			}
			ack(id)
			e.Settle()
		}
		do := func(o c27Op) {
			m := ms[o.Peer%len(ms)]
			st, me := m.now()
			id := noiseID(me)
			ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
			defer cancel()
			switch o.Kind {
			case moAck:
				if p.Exact {
					model.ack(id)
				}
				ack(id)
			case moConnect:
				if st == mDead || st == mHang {
					return
				}
				if p.Exact {
					model.ack(id)
				}
				if err := m.dial(x.Addr(), p.Link.policy()); err != nil && p.Exact {
					e.Fail("a peer cannot connect: %v", err)
				}
			case moMsg:
				mc := m.conn(o.Seed%2 == 0)
				if mc == nil {
					mc = m.conn(o.Seed%2 != 0)
				}
				if mc == nil {
					return
				}
				if p.Exact {
					model.ack(noiseID(mc.id))
				}
				mc.s.Send(0, gen.Expand(uint64(o.Seed), 3+o.Seed%50))
			case moPing:
				if p.Exact && m.conn(true) == nil {
					if st == mDead || st == mHang {
						model.undialable(m.addr(), noise.PublicKey{})
					} else {
						model.ack(id)
					}
				}
				if p.Exact && st == mHang {
					cancel()
					ctx, cancel = context.WithTimeout(context.Background(), time.Duration(1+o.Seed%5000)*time.Millisecond)
					defer cancel()
				}
				if !e.Within(95*time.Second, func() { x.Ping(ctx, m.addr()) }) {
					e.Hang("a dial does not end")
				}
			case moSend:
				if p.Exact {
					mc := m.conn(true)
					if mc == nil {
						return
					}
					model.ack(noiseID(mc.id))
				}
				if !e.Within(95*time.Second, func() { x.Send(ctx, m.addr(), gen.Expand(uint64(o.Seed), 3+o.Seed%50)) }) {
					e.Hang("a send does not end")
				}
			case moPong:
				if p.Exact {
					_, at := model.known(id.ID)
					mc := m.conn(true)
					if at < 0 || st != mLive || (mc != nil && !bytes.Equal(mc.id.Pub, id.ID[:])) {
						return
					}
					model.ack(id)
				}
				if !e.Within(95*time.Second, func() { kad.Ping(ctx, m.addr()) }) {
					e.Hang("a ping does not end")
				}
			case moState:
				m.set(o.State)
			case moKill:
				m.mu.Lock()
				m.touch = true
				m.mu.Unlock()
				m.kill()
			case moRestart:
				m.restart(bucketIdent(key.Pub, 1+o.Seed%2, o.Seed, m.port))
			case moSelf:
				if p.Exact {
					return
				}
				x.Ping(ctx, x.Addr())
			}
		}
		rest := 100 * time.Second
		evictions, refused := 0, false
		perm := map[noise.PublicKey]int{} // additions less removals
		totals := newC27log()
		for bi, batch := range p.Batches {
			if bi == 0 || !p.Exact {
				time.Sleep(rest / 2)
				e.Settle()
			}
			before := kad.Table().Entries()
			if p.Exact {
				if bi == 0 && !c27state(e, kad, model, "at the beginning") {
					return
				}
				model.admitted, model.evicted, model.kept, model.maybe = nil, nil, 0, map[noise.PublicKey]bool{}
				if bi > 0 {
					log.mu.Lock()
					log.admitted, log.evicted, log.activity, log.touched = nil, nil, map[noise.PublicKey]int{}, map[noise.PublicKey]int{}
					log.mu.Unlock()
				} else {
					c27reset(log)
				}
				do(batch[0])
				time.Sleep(rest)
				e.Settle()
				what := fmt.Sprintf("in step %d (kind %d)", bi, batch[0].Kind)
				if !c27state(e, kad, model, what) || !c27events(e, log, model, before, what) {
					return
				}
				evictions += len(model.evicted)
				refused = refused || model.kept > 0
				continue
			}
			var fs []func()
			for _, o := range batch {
				fs = append(fs, func() {
					time.Sleep(time.Duration(o.At) * time.Millisecond)
					do(o)
				})
			}
			All(fs...)
			if e.Failed() {
				return
			}
		}
		if p.Exact {
			e.Label("exact")
			if evictions > 0 {
				e.Label("evicted")
			}
			if refused {
				e.Label("tail answered")
			}
			if evictions > 0 && refused {
				e.NonTrivial()
			}
			return
		}
		// Late answers end, and with them everything they cause.
		for _, m := range ms {
			if st, _ := m.now(); st == mLate {
				m.mu.Lock()
				m.state = mLive
				m.mu.Unlock()
			}
		}
		time.Sleep(10 * rest)
		e.Settle()
		log.mu.Lock()
		defer log.mu.Unlock()
		for _, id := range log.admitted {
			perm[id.ID]++
			totals.activity[id.ID]++
		}
		for _, id := range log.evicted {
			perm[id.ID]--
		}
		entries := map[noise.PublicKey]noise.ID{}
		bucket := map[int]int{}
		for _, id := range kad.Table().Entries() {
			if _, dup := entries[id.ID]; dup {
				e.Fail("the routing table has an entry twice")
			}
			entries[id.ID] = id
			if id.ID != x.ID().ID {
				bucket[prefixLen(id.ID[:], key.Pub)]++
				if perm[id.ID] != 1 {
					e.Fail("%s is in the routing table, but was reported as admitted once more than as evicted not once but %d times", idStr(id), perm[id.ID])
				}
			}
		}
		for b, n := range bucket {
			if n > 16 {
				e.Fail("bucket %d has %d entries", b, n)
			}
		}
		in := map[int]int{}
		for _, id := range log.admitted {
			in[prefixLen(id.ID[:], key.Pub)]++
		}
		for id, n := range perm {
			if _, ok := entries[id]; !ok && n != 0 {
				e.Fail("%x is not in the routing table, but was reported as admitted %d times more than as evicted", id[:4], n)
			}
		}
		for id, n := range log.activity {
			if got := n + totals.activity[id]; got > log.touched[id] {
				e.Fail("%d interactions with %x led to %d events of admission and activity", log.touched[id], id[:4], got)
			}
		}
		evicted := map[noise.PublicKey]bool{}
		for _, id := range log.evicted {
			evicted[id.ID] = true
		}
		for i, m := range ms {
			id := noiseID(m.me)
			if !m.touch && evicted[id.ID] {
				e.Fail("peer %d, which always answered, was evicted", i)
			}
			b := prefixLen(id.ID[:], key.Pub)
			if _, ok := entries[id.ID]; !ok && !evicted[id.ID] && log.touched[id.ID] > 0 && in[b] < 16 {
				e.Fail("peer %d is not in the routing table, though its bucket never was full", i)
			}
			if !evicted[id.ID] && in[b] < 16 {
				if n, k := log.touched[id.ID], log.activity[id.ID]+totals.activity[id.ID]; n != k {
					e.Fail("%d interactions with peer %d, which always had room, led to %d events of admission and activity", n, i, k)
				}
			}
		}
		if p.NoLive {
			for id := range log.touched {
				if id != x.ID().ID && totals.activity[id] == 0 {
					e.Fail("%x was not admitted, though no peer ever answered a ping", id[:4])
				}
			}
			e.Label("no peer answers")
		}
		e.Label("concurrent")
		full := false
		for _, n := range in {
			full = full || n >= 16
		}
		if len(log.evicted) > 0 && full {
			e.NonTrivial()
		}
	})
}

func c27reset(l *c27log) {
	l.mu.Lock()
	l.admitted, l.evicted, l.activity, l.touched = nil, nil, map[noise.PublicKey]int{}, map[noise.PublicKey]int{}
	l.mu.Unlock()
}

// c27state compares the routing table with the model.
func c27state(e *Env, kad *kademlia.Protocol, m *c27model, what string) bool {
	total := 1
	for id := range m.maybe {
		if !kad.Table().Recorded(id) {
			m.remove(id)
		}
	}
	for b, want := range m.b {
		total += len(want)
		if len(want) == 0 {
			continue
		}
		got := kad.Table().Bucket(want[0].ID)
		if len(got) != len(want) {
			e.Fail("%s: bucket %d has %d entries instead of %d", what, b, len(got), len(want))
			return false
		}
		for i := range got {
			if !sameID(got[i], want[i]) {
				e.Fail("%s: entry %d of bucket %d is %s instead of %s", what, i, b, idStr(got[i]), idStr(want[i]))
				return false
			}
		}
	}
	if n := len(kad.Table().Entries()); n != total {
		e.Fail("%s: the routing table has %d entries instead of %d", what, n, total)
		return false
	}
	return true
}

// c27events compares the events of a step with the model and the interactions that took place.
func c27events(e *Env, l *c27log, m *c27model, before []noise.ID, what string) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	list := func(ids []noise.ID) string {
		s := ""
		for _, i := range ids {
			s += " " + idStr(i)
		}
		return s
	}
	if !sameSet(l.admitted, m.admitted) {
		e.Fail("%s: reported as admitted:%s; entered:%s", what, list(l.admitted), list(m.admitted))
		return false
	}
	if !sameSet(l.evicted, m.evicted) {
		e.Fail("%s: reported as evicted:%s; removed:%s", what, list(l.evicted), list(m.evicted))
		return false
	}
	known := map[noise.PublicKey]int{}
	for _, id := range before {
		known[id.ID] = 0
	}
	for _, id := range m.admitted {
		if _, ok := known[id.ID]; !ok {
			known[id.ID] = 1
		}
	}
	ids := map[noise.PublicKey]bool{}
	for id := range l.touched {
		ids[id] = true
	}
	for id := range l.activity {
		ids[id] = true
	}
	for id := range ids {
		want := 0
		if less, ok := known[id]; ok {
			want = l.touched[id] - less
		}
		if l.activity[id] != want {
			e.Fail("%s: activity of %x is reported %d times instead of %d", what, id[:4], l.activity[id], want)
			return false
		}
	}
	return true
}
