package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
	"verifharness/wire"
)

// C11: the connection pools never exceed their limits.

type c11Op struct {
	Kind int // 0 use an address, 1 a new inbound connection, 2 drop an outbound one, 3 drop an inbound one, 4 traffic on an inbound one, 5 use an address that cannot be reached
	Peer int
	How  int
	N    int // concurrently, so many uses of addresses from Peer on, or so many new connections
}

type c11Plan struct {
	Link    Link
	In, Out int // 0: default
	Peers   int
	Ops     []c11Op
}

func init() {
	register(&Prop{ID: "C11", Quick: 2500, Thorough: 60000, Rule: "A node with pool limits from 1 to 8 (or the default of 128) and up to twice as many wire-level peers; up to sixty operations: use of an address by ping, send or request, new inbound connections, drops by either side, traffic, use of unreachable addresses, and bursts of up to ten of these at once. After each operation the listed connections, and which connections are open, are compared with a model of least-recently-used pools; the limits are checked at every dial and callback. Non-trivial: a limit was exceeded.",
		Assume: []string{"An inbound connection is used when it is accepted, an outbound one whenever a ping, send or request looks it up.", "The outbound limit is a listed finding: noise applies the inbound limit to both pools; a case counts as the finding only if that explains everything seen."}},
		func(s *gen.S) c11Plan {
			p := c11Plan{Link: genLinkFast(s), In: gen.Pick(s, 1, 2, 3, s.Range(1, 8)), Peers: 1}
			if s.Bool(60) {
				p.Out = p.In
			} else {
				p.Out = s.Range(1, 8)
			}
			if s.Bool(2) {
				p.In, p.Out = 0, 0
			}
			p.Peers = s.Range(1, 2*max(p.In, p.Out)+1)
			if p.In == 0 {
				p.Peers = 131
				p.Ops = append(p.Ops, c11Op{Kind: gen.Pick(s, 0, 1), N: gen.Pick(s, 1, 131)})
				for k := 0; k < 131; k++ {
					p.Ops = append(p.Ops, c11Op{Kind: p.Ops[0].Kind, Peer: k, N: 1})
				}
				p.Ops = p.Ops[1:]
				p.Link = Link{}
			}
			for k := s.Range(1, gen.Pick(s, 10, 60)); k > 0; k-- {
				o := c11Op{Kind: s.Weighted(10, 8, 2, 2, 2, 2), Peer: s.Intn(p.Peers), How: s.Intn(12), N: 1}
				if o.Kind <= 1 && s.Bool(12) {
					o.N = s.Range(2, 10)
				}
				p.Ops = append(p.Ops, o)
			}
			return p
		}, runC11)
}

// lru is a model of a pool: most recently used first.
type lru struct {
	cap   int
	items []int
	ok    bool
}

func (l *lru) has(x int) bool {
	for _, y := range l.items {
		if x == y {
			return true
		}
	}
	return false
}

func (l *lru) drop(x int) {
	for i, y := range l.items {
		if x == y {
			l.items = append(append([]int{}, l.items[:i]...), l.items[i+1:]...)
			return
		}
	}
}

// use touches x and returns what is evicted (-1: nothing).
func (l *lru) use(x int) int {
	out := -1
	if l.has(x) {
		l.drop(x)
	} else if len(l.items) >= l.cap {
		out = l.items[len(l.items)-1]
		l.drop(out)
	}
	l.items = append([]int{x}, l.items...)
	return out
}

func (l *lru) set() string {
	x := append([]int{}, l.items...)
	sort.Ints(x)
	return fmt.Sprint(x)
}

func setOf(m map[int]bool) string {
	var x []int
	for k := range m {
		x = append(x, k)
	}
	sort.Ints(x)
	return fmt.Sprint(x)
}

func runC11(c *C, p c11Plan) {
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		var opts []noise.NodeOption
		in, out := p.In, p.Out
		if in > 0 {
			opts = append(opts, noise.WithNodeMaxInboundConnections(uint(in)), noise.WithNodeMaxOutboundConnections(uint(out)))
		} else {
			if len(p.Ops)%2 == 0 { // which stands for the default
				opts = append(opts, noise.WithNodeMaxInboundConnections(0), noise.WithNodeMaxOutboundConnections(0))
			}
			in, out = 128, 128
		}
		n := e.Node(append(opts, noise.WithNodeNumWorkers(2), noise.WithNodeMaxDialAttempts(2))...)
		over := false // the outbound limit was exceeded
		look := func() {
			if k := len(n.Inbound()); k > in {
				e.Fail("%d inbound connections are listed with a limit of %d", k, in)
			}
			if k := len(n.Outbound()); k > out {
				over = true
				if k > max(in, out) {
					e.Fail("%d outbound connections are listed with limits of %d (outbound) and %d (inbound)", k, out, in)
				}
			}
		}
		n.Bind(noise.Protocol{OnPeerConnected: func(*noise.Client) { look() }, OnPeerDisconnected: func(*noise.Client) { look() }, OnMessageRecv: func(*noise.Client) { look() }})
		e.Net.OnDial = func(*dialRec) outcome2 { look(); return outcome2{} }
		n.Handle(func(ctx noise.HandlerContext) error {
			if ctx.IsRequest() {
				return ctx.Send(ctx.Data())
			}
			return nil
		})
		if !e.Listen(n) {
			return
		}
		// Peers to be dialled.
		type peer struct {
			addr  string
			key   noise.PublicKey
			mu    sync.Mutex
			conns []*vconn
			got   int
		}
		peers := make([]*peer, p.Peers)
		byKey := map[noise.PublicKey]int{}
		for i := range peers {
			x := &peer{}
			peers[i] = x
			var me wire.Identity
			_, addr := e.Serve(func(_ int, cn *vconn) {
				s, err := wire.Handshake(cn, me)
				if err != nil {
					return
				}
				x.mu.Lock()
				x.conns = append(x.conns, cn)
				x.mu.Unlock()
				for {
					nc, d, err := s.Recv()
					if err != nil {
						cn.Close()
						return
					}
					x.mu.Lock()
					x.got++
					x.mu.Unlock()
					if nc > 0 {
						s.Send(nc, d)
					}
				}
			})
			x.addr = addr
			_, port, _ := net.SplitHostPort(addr)
			me = peerIdent(i, 0)
			fmt.Sscan(port, &me.Port)
			copy(x.key[:], me.Pub)
			byKey[x.key] = i
		}
		// Peers that dial.
		type inConn struct {
			s    *wire.Session
			cn   *vconn
			key  noise.PublicKey
			mu   sync.Mutex
			re   map[uint64]bool
			gone bool
		}
		var ins []*inConn
		inKey := map[noise.PublicKey]int{}
		dialIn := func(k int) *inConn {
			me := peerIdent(10000+k, 6000)
			s, cn, err := e.Dial(n.Addr(), me, p.Link.policy())
			if err != nil {
				return nil
			}
			x := &inConn{s: s, cn: cn, re: map[uint64]bool{}}
			copy(x.key[:], me.Pub)
			go func() {
				for {
					nc, _, err := s.Recv()
					x.mu.Lock()
					if err != nil {
						x.gone = true
						x.mu.Unlock()
						cn.Close()
						return
					}
					x.re[nc] = true
					x.mu.Unlock()
				}
			}()
			return x
		}
		serial := 0
		served := func(x *inConn) bool {
			serial++
			nc := uint64(serial)
			x.s.Send(nc, payload(nc, 10))
			return e.Wait(time.Minute, 100*time.Millisecond, func() bool { x.mu.Lock(); defer x.mu.Unlock(); return x.re[nc] })
		}
		use := func(i, how int, ms int) error {
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Second)
			defer cancel()
			switch how % 3 {
			case 0:
				_, err := n.Ping(ctx, peers[i].addr)
				return err
			case 1:
				return n.Send(ctx, peers[i].addr, payload(7, 9))
			}
			d, err := n.Request(ctx, peers[i].addr, payload(8, 9))
			if err == nil && diff(d, payload(8, 9)) != "" {
				e.Fail("a request returned something else")
			}
			return err
		}
		mi := &lru{cap: in, ok: true}
		mo := []*lru{{cap: out, ok: true}, {cap: in, ok: true}} // as documented, and as the finding has it
		clients := map[int]*noise.Client{}
		// state returns what is listed.
		state := func() (is, os map[int]bool) {
			is, os = map[int]bool{}, map[int]bool{}
			for _, x := range n.Inbound() {
				if k, ok := inKey[x.ID().ID]; ok {
					is[k] = true
				} else {
					e.Fail("an unknown inbound connection is listed")
				}
			}
			for _, x := range n.Outbound() {
				k, ok := byKey[x.ID().ID]
				if !ok || os[k] {
					e.Fail("an unknown outbound connection is listed, or one is listed twice")
				}
				os[k] = true
				if err := x.Error(); err != nil {
					e.Fail("a dead connection is listed: %v", err)
				}
				clients[k] = x
			}
			return
		}
		for oi, o := range p.Ops {
			if e.Failed() {
				return
			}
			switch o.Kind {
			case 0, 5:
				if o.N > 1 {
					var fs []func()
					for k := 0; k < o.N; k++ {
						fs = append(fs, func() { use((o.Peer+k)%p.Peers, o.How+k, 60) })
					}
					All(fs...)
					e.NonTrivial()
					time.Sleep(time.Minute)
					e.Settle()
					_, os := state()
					// Adopt the outcome: only limits are judged, not which connection went.
					for _, m := range mo {
						m.items = nil
						for k := range os {
							m.items = append(m.items, k)
						}
						if len(os) > m.cap {
							m.ok = false
						}
					}
					// Establish a known order again.
					var ks []int
					for k := range os {
						ks = append(ks, k)
					}
					sort.Ints(ks)
					for _, k := range ks {
						use(k, 0, 60)
						for _, m := range mo {
							m.use(k)
						}
					}
				} else if o.Kind == 5 {
					_, err := n.Ping(context.Background(), "127.0.0.1:1")
					if err == nil {
						e.Fail("an unreachable address answered")
					}
					time.Sleep(10 * time.Second)
					e.Settle()
					_, os := state()
					for _, m := range mo {
						if m.set() != setOf(os) && len(m.items) == m.cap && m.cap > 0 {
							m.drop(m.items[len(m.items)-1])
						}
					}
				} else {
					for _, m := range mo {
						if m.use(o.Peer) >= 0 {
							e.NonTrivial()
						}
					}
					if err := use(o.Peer, o.How, 60); err != nil {
						e.Fail("operation %d: a peer could not be used: %v", oi, err)
						return
					}
				}
			case 1:
				if o.N > 1 {
					xs := make([]*inConn, o.N)
					var fs []func()
					for k := range xs {
						inKey[pubOf(peerIdent(10000+len(ins)+k, 0))] = len(ins) + k
						fs = append(fs, func() { xs[k] = dialIn(len(ins) + k) })
					}
					All(fs...)
					time.Sleep(time.Minute)
					e.Settle()
					base := len(ins)
					ins = append(ins, xs...)
					is, _ := state()
					if want := min(in, len(mi.items)+o.N); len(is) != want {
						e.Fail("operation %d: %d inbound connections are listed after %d new ones, %d before and a limit of %d", oi, len(is), o.N, len(mi.items), in)
					}
					// The older ones go first.
					keep := max(0, in-o.N)
					for i, k := range mi.items {
						if (i < keep) != is[k] {
							e.Fail("operation %d: of %d older inbound connections not the oldest were closed for %d new ones", oi, len(mi.items), o.N)
						}
					}
					if o.N > 1 && in > 1 {
						e.NonTrivial()
					}
					// Their order among each other is unknown: keep at most one of them.
					mi.items = mi.items[:min(keep, len(mi.items))]
					kept := -1
					for k := base; k < base+o.N; k++ {
						if is[k] {
							if kept < 0 {
								kept = k
								continue
							}
							ins[k].cn.Close()
						}
					}
					if kept >= 0 {
						mi.items = append([]int{kept}, mi.items...)
					}
				} else {
					k := len(ins)
					inKey[pubOf(peerIdent(10000+k, 0))] = k
					x := dialIn(k)
					ins = append(ins, x)
					if x == nil {
						e.Fail("operation %d: a new connection is not established", oi)
						return
					}
					if mi.use(k) >= 0 {
						e.NonTrivial()
					}
					if !served(x) {
						e.Fail("operation %d: a new inbound connection is not served", oi)
						return
					}
				}
			case 2:
				x := peers[o.Peer]
				x.mu.Lock()
				var cs []*vconn
				for _, cn := range x.conns {
					if !cn.Closed() && !cn.Peer().Closed() && !cn.Broken() {
						cs = append(cs, cn)
					}
				}
				x.mu.Unlock()
				if len(cs) > 0 {
					switch o.How % 3 {
					case 0:
						cs[len(cs)-1].Close()
					case 1:
						cs[len(cs)-1].Reset()
					case 2:
						if clients[o.Peer] != nil {
							clients[o.Peer].Close()
						}
					}
					for _, m := range mo {
						m.drop(o.Peer)
					}
				}
			case 3:
				if len(mi.items) > 0 {
					k := mi.items[o.How%len(mi.items)]
					if o.How%2 == 0 {
						ins[k].cn.Close()
					} else {
						ins[k].cn.Reset()
					}
					mi.drop(k)
				}
			case 4:
				if len(mi.items) > 0 {
					if k := mi.items[o.How%len(mi.items)]; !served(ins[k]) {
						e.Fail("operation %d: an inbound connection within the limit is not served", oi)
					}
				}
			}
			time.Sleep(10 * time.Second)
			e.Settle()
			if e.Failed() {
				return
			}
			look()
			is, os := state()
			if mi.set() != setOf(is) {
				e.Fail("operation %d: with an inbound limit of %d connections %s are listed, expected %s", oi, in, setOf(is), mi.set())
				return
			}
			for k, x := range ins {
				if x == nil {
					continue
				}
				x.mu.Lock()
				if x.gone == is[k] {
					e.Fail("operation %d: an inbound connection is %s", oi, map[bool]string{true: "listed, but closed", false: "neither listed nor closed"}[is[k]])
				}
				x.mu.Unlock()
			}
			for _, m := range mo {
				if m.set() != setOf(os) {
					m.ok = false
				}
			}
			if !mo[0].ok && !mo[1].ok {
				e.Fail("operation %d: with an outbound limit of %d connections %s are listed, expected %s", oi, out, setOf(os), mo[0].set())
				return
			}
			for k, x := range peers {
				x.mu.Lock()
				live := 0
				for _, cn := range x.conns {
					if !cn.Closed() && !cn.Peer().Closed() {
						live++
					}
				}
				x.mu.Unlock()
				if live != map[bool]int{true: 1}[os[k]] && !(o.Kind == 2 && k == o.Peer) {
					e.Fail("operation %d: %d connections to an address are open, listed: %v", oi, live, os[k])
				}
			}
		}
		if !mo[0].ok || over {
			e.Known("outbound-limit", "the outbound pool is held to the inbound limit")
		}
	})
}

func pubOf(i wire.Identity) (k noise.PublicKey) {
	copy(k[:], i.Pub)
	return
}

// C12: one live connection per address.

type c12Call struct {
	AtMs int
	Kind int // 0 ping, 1 send, 2 request
	N    int // so many at once
}

type c12Drop struct {
	AtMs  int
	How   int // 0 the peer closes its client, 1 reset, 2 this node closes its client, 3 a handler here fails, 4 a handler there fails, 5 end of stream only, 6 the peer restarts, 7 corrupted
	Calls int // calls at that very instant
}

type c12Plan struct {
	Link    Link
	DialMs  int
	Workers int
	Idle    int
	Alias   bool // the address is spelled in two ways; each has a connection of its own
	Calls   []c12Call
	Drops   []c12Drop
	Fails   []int // dials that are refused
	HsMs    int
	Max     int // attempts
	DownMs  int // how long the disconnected callback takes
	Again   []int
}

func init() {
	register(&Prop{ID: "C12", Quick: 3000, Thorough: 80000, Rule: "Up to forty pings, sends and requests to one address, concurrent and in sequence, while the connection is dropped up to six times by either side, by handler errors, resets, ends of stream, corruption, idle time-outs and restarts of the peer, and some dials are refused; finally the address is used at the very instant the node knows that the connection is gone, with disconnected callbacks that take up to 0.8 seconds; every dial is checked against the life of the connections before it, the lists of both nodes after every phase. Non-trivial: at least two calls at once while no connection was up, or a drop followed by a call.",
		Assume: []string{"A connection is gone for the node once it was closed or reset by either side and that arrived."}},
		func(s *gen.S) c12Plan {
			p := c12Plan{Link: genLinkBatch(s), DialMs: gen.Pick(s, 0, 0, 5, 200), Workers: gen.Pick(s, 1, 3), Idle: gen.Pick(s, 0, 0, 0, 3000), Max: gen.Pick(s, 1, 6)}
			for k := s.Range(1, 20); k > 0; k-- {
				p.Calls = append(p.Calls, c12Call{AtMs: gen.Pick(s, 0, s.Intn(100), s.Intn(20000)), Kind: s.Intn(3), N: gen.Pick(s, 1, 1, 2, 8)})
			}
			for k := s.Intn(7); k > 0; k-- {
				p.Drops = append(p.Drops, c12Drop{AtMs: gen.Pick(s, s.Intn(300), s.Intn(20000)), How: s.Intn(8), Calls: gen.Pick(s, 0, 1, 4)})
			}
			for k := s.Intn(3); k > 0; k-- {
				p.Fails = append(p.Fails, s.Intn(6))
			}
			p.DownMs = gen.Pick(s, 0, 0, 50, 800)
			for k := s.Intn(4); k > 0; k-- {
				p.Again = append(p.Again, s.Intn(5))
			}
			return p
		}, runC12)
}

func runC12(c *C, p c12Plan) {
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		opts := []noise.NodeOption{noise.WithNodeNumWorkers(uint(p.Workers)), noise.WithNodeIdleTimeout(time.Duration(p.Idle) * time.Millisecond), noise.WithNodeMaxDialAttempts(uint(max(p.Max, len(p.Fails)+1)))}
		a := e.Node(opts...)
		var mu sync.Mutex
		var dials []*dialRec
		var bclients []*noise.Client
		e.Net.OnDial = func(d *dialRec) outcome2 {
			mu.Lock()
			defer mu.Unlock()
			i := len(dials)
			dials = append(dials, d)
			for _, x := range p.Fails {
				if x == i {
					return outcome2{Delay: time.Duration(p.DialMs) * time.Millisecond, Refuse: true}
				}
			}
			return outcome2{Delay: time.Duration(p.DialMs) * time.Millisecond}
		}
		var fail = errors.New("handler error")
		if p.DownMs > 0 {
			a.Bind(noise.Protocol{OnPeerDisconnected: func(*noise.Client) { time.Sleep(time.Duration(p.DownMs) * time.Millisecond) }})
		}
		a.Handle(func(ctx noise.HandlerContext) error {
			if strings.HasPrefix(string(ctx.Data()), "fail") {
				return fail
			}
			return nil
		})
		var port uint16
		var b *noise.Node
		var bctx noise.HandlerContext
		hasCtx := false
		mkB := func() bool {
			b = e.Node(append(opts, noise.WithNodeBindPort(port))...)
			b.Bind(noise.Protocol{OnPeerConnected: func(x *noise.Client) { mu.Lock(); bclients = append(bclients, x); mu.Unlock() }})
			b.Handle(func(ctx noise.HandlerContext) error {
				if strings.HasPrefix(string(ctx.Data()), "fail") {
					return fail
				}
				mu.Lock()
				bctx, hasCtx = ctx, true
				mu.Unlock()
				if ctx.IsRequest() {
					ctx.Send(ctx.Data())
				}
				return nil
			})
			if !e.Listen(b) {
				return false
			}
			port = b.ID().Port
			return true
		}
		if !mkB() || !e.Listen(a) {
			return
		}
		addr := b.Addr()
		dropped := 0
		restarting := false
		call := func(kind int) error {
			ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
			defer cancel()
			switch kind {
			case 0:
				_, err := a.Ping(ctx, addr)
				return err
			case 1:
				return a.Send(ctx, addr, []byte("hello"))
			}
			d, err := a.Request(ctx, addr, []byte("request"))
			if err == nil && string(d) != "request" {
				e.Fail("a request returned something else")
			}
			return err
		}
		var fs []func()
		for _, x := range p.Calls {
			for k := 0; k < x.N; k++ {
				fs = append(fs, func() {
					time.Sleep(time.Duration(x.AtMs) * time.Millisecond)
					start := e.Net.Now()
					err := call(x.Kind)
					end := e.Net.Now()
					mu.Lock()
					defer mu.Unlock()
					if err != nil && (len(p.Drops) == 0 && p.Idle == 0) {
						e.Fail("a call failed though nothing was dropped: %v", err)
					}
					_, _ = start, end
				})
			}
			if x.N > 1 {
				e.NonTrivial()
			}
		}
		for _, x := range p.Drops {
			fs = append(fs, func() {
				time.Sleep(time.Duration(x.AtMs) * time.Millisecond)
				mu.Lock()
				var live *dialRec
				for _, d := range dials {
					if d.OK && d.Conn != nil && !d.Conn.Closed() && !d.Peer.Closed() {
						live = d
					}
				}
				var bc *noise.Client
				if len(bclients) > 0 {
					bc = bclients[len(bclients)-1]
				}
				cx, ok := bctx, hasCtx
				dropped++
				mu.Unlock()
				var with []func()
				for k := 0; k < x.Calls; k++ {
					with = append(with, func() { call(k % 3) })
				}
				with = append(with, func() {
					switch x.How {
					case 0:
						if bc != nil {
							bc.Close()
						}
					case 1:
						if live != nil {
							live.Conn.Reset()
						}
					case 2:
						for _, cl := range a.Outbound() {
							cl.Close()
						}
					case 3:
						if ok {
							cx.Send([]byte("fail"))
						}
					case 4:
						a.Send(context.Background(), addr, []byte("fail"))
					case 5:
						if live != nil {
							live.Conn.In().EOF()
						}
					case 6:
						mu.Lock()
						busy := restarting
						restarting = true
						mu.Unlock()
						if busy {
							return
						}
						if !e.Within(time.Minute, func() { b.Close() }) {
							e.Hang("Close does not return")
							return
						}
						time.Sleep(time.Duration(x.Calls*100) * time.Millisecond)
						mkB()
						mu.Lock()
						restarting = false
						mu.Unlock()
					case 7:
						if live != nil {
							live.Peer.Out().Inject([]byte{0, 0, 0, 1, 7})
						}
					}
				})
				All(with...)
			})
		}
		if !e.Within(time.Hour, func() { All(fs...) }) {
			e.Hang("a call never returns")
			return
		}
		if e.Failed() {
			return
		}
		lists := func(what string) {
			mu.Lock()
			defer mu.Unlock()
			live := 0
			for _, d := range dials {
				if d.OK && d.Conn != nil && !d.Conn.Closed() {
					live++
				}
			}
			os, is := a.Outbound(), b.Inbound()
			if len(os) != live || len(is) != live || live > 1 {
				e.Fail("%s: %d connections to the address are open, the one node lists %d, the other %d", what, live, len(os), len(is))
			}
			for _, x := range append(os, is...) {
				if err := x.Error(); err != nil {
					e.Fail("%s: a dead connection stays listed: %v", what, err)
				}
			}
		}
		time.Sleep(1500 * time.Millisecond)
		e.Settle()
		if p.Idle == 0 {
			lists("afterwards")
		}
		time.Sleep(20 * time.Second)
		e.Settle()
		lists("later")
		// Now the peer is reachable.
		p.Fails = nil
		for k := 0; k < 3; k++ {
			nd := len(e.Net.Dials())
			up := len(a.Outbound())
			if err := call((k + 2) % 3); err != nil {
				e.Fail("the address does not work any more: %v", err)
				return
			}
			if d := len(e.Net.Dials()) - nd; d != 1-up {
				e.Fail("a call made %d dials with %d connections up", d, up)
			}
			if dropped > 0 || p.Idle > 0 {
				e.NonTrivial()
			}
			time.Sleep(time.Second)
			e.Settle()
			lists("at last")
		}
		for k := 0; k < 3; k++ { // at once after closing
			for _, cl := range a.Outbound() {
				cl.Close()
			}
			if err := call((k + 1) % 3); err != nil {
				e.Fail("the address does not work right after its connection was closed: %v", err)
				return
			}
			time.Sleep(time.Duration(k) * time.Second)
			e.Settle()
		}
		for i, how := range p.Again { // as soon as the node knows that the connection is gone
			for _, cl := range a.Outbound() {
				cl.Close()
			}
			if err := call(2); err != nil {
				e.Fail("the address does not work: %v", err)
				return
			}
			time.Sleep(time.Second)
			e.Settle()
			os := a.Outbound()
			if len(os) != 1 {
				e.Fail("%d connections are listed although one is up", len(os))
				return
			}
			mu.Lock()
			live, bc := dials[len(dials)-1], bclients[len(bclients)-1]
			mu.Unlock()
			switch how {
			case 0:
				bc.Close()
			case 1:
				live.Conn.Reset()
			case 2: // a handler fails here
				if err := a.Send(context.Background(), addr, []byte("hello")); err != nil {
					e.Fail("a send over a live connection fails: %v", err)
					return
				}
				time.Sleep(time.Second)
				e.Settle()
				mu.Lock()
				cx := bctx
				mu.Unlock()
				cx.Send([]byte("fail"))
			case 3:
				live.Conn.In().EOF()
			case 4:
				live.Peer.Out().Inject([]byte{0, 0, 0, 1, 7})
			}
			if !e.Wait(time.Minute, time.Millisecond, func() bool { return os[0].Error() != nil }) {
				e.Fail("a dropped connection (%d) has no error", how)
				return
			}
			nd := len(e.Net.Dials())
			if err := call((i + how) % 3); err != nil {
				e.Fail("the address does not work right after its connection has gone (%d): %v", how, err)
				return
			}
			if d := len(e.Net.Dials()) - nd; d != 1 {
				e.Fail("a call after the connection has gone made %d dials", d)
			}
			e.Label("used at once")
			time.Sleep(time.Second)
			e.Settle()
			lists("after use at once")
		}
		for _, cl := range a.Outbound() {
			cl.Close()
		}
		time.Sleep(5 * time.Second)
		e.Settle()
		lists("after closing")
		mu.Lock()
		defer mu.Unlock()
		// No dial during another or while a connection is up.
		ends := func(x *vconn) time.Duration {
			t := time.Duration(1 << 62)
			for _, y := range []*vconn{x, x.Peer()} {
				if at, ok := y.ClosedAt(); ok && at < t {
					t = at
				}
			}
			return t
		}
		for i, d := range dials {
			for _, x := range dials[:i] {
				if !x.Done || x.End > d.At {
					e.Fail("a dial begins at %v while another one is under way (until %v)", d.At, x.End)
				} else if x.OK && x.Conn != nil && ends(x.Conn) > d.At && !x.Conn.Broken() {
					e.Fail("a second connection is opened at %v while one is up (until %v)", d.At, ends(x.Conn))
				}
			}
		}
	})
}
