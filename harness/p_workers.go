package main

import (
	"context"
	"encoding/binary"
	"errors"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
	"verifharness/vnet"
	"verifharness/wire"
)

// C32: handlers run on exactly the configured workers.

type c32Msg struct {
	Ms      int
	Kind    int // 0: takes its time, 1: replies at the end if it can, 2: makes a request meanwhile, 3: sends a message meanwhile
	Request bool
}

type c32Op struct {
	Kind    int // 0: messages, 1: request of the node, 2: a new peer connects, 3: the node dials a new peer, 4: a new peer connects and sends one message, which the handler rejects
	Node    int
	Conn    int
	At      int // ms
	Msgs    []c32Msg
	DelayMs int
}

type c32Plan struct {
	LatMs    int
	Workers  []int // per node; -1: default
	Conns    int   // per node
	Outgoing bool  // half of the connections are made by the node
	Handlers int
	Ops      []c32Op
	Looks    []int // ms
	DownMs   int   // how long the disconnected callback of rejected peers takes
}

func init() {
	register(&Prop{ID: "C32", Quick: 3000, Thorough: 100000, Rule: "One or two nodes with one to 120 (mostly up to eight, or zero, or the default number of) workers, to which up to six independent peers each send bursts of messages and requests whose handlers take generated times of zero to twenty seconds, some making requests or sending messages themselves; meanwhile the nodes make requests to quiet peers, dial new ones, and new peers connect, some of which send a message that the handler rejects and whose disconnected callback takes up to thirty seconds. At generated instants, at which nothing is in flight, the handlers running are compared with the lesser of the number of workers and of unhandled messages. Non-trivial: more messages were waiting than there are workers, and a request, dial or connection was made at such a time."},
		func(s *gen.S) c32Plan {
			p := c32Plan{LatMs: gen.Pick(s, 0, 1, 10, 80), Conns: gen.Pick(s, 1, s.Range(1, 6)), Outgoing: s.Bool(50), Handlers: gen.Pick(s, 1, 1, 2)}
			for k := gen.Pick(s, 1, 1, 2); k > 0; k-- {
				p.Workers = append(p.Workers, gen.Pick(s, 1, 1, 2, 3, s.Range(1, 8), 0, -1, s.Range(1, 120)))
			}
			p.DownMs = gen.Pick(s, 0, 100, 5000, 30000)
			span := gen.Pick(s, 100, 3000, 20000)
			for k := s.Range(1, 12*s.Size); k > 0; k-- {
				o := c32Op{Kind: s.Weighted(6, 3, 1, 1, 1), Node: s.Intn(len(p.Workers)), Conn: s.Intn(p.Conns), At: s.Intn(span), DelayMs: gen.Pick(s, 0, 0, s.Intn(500))}
				if o.Kind == 4 {
					o.Msgs = []c32Msg{{Ms: gen.Pick(s, 0, s.Intn(50), s.Intn(3000)), Kind: 4, Request: s.Bool(40)}}
				}
				if o.Kind == 0 {
					slow := gen.Pick(s, 0, 10, 3000, 20000)
					for j := gen.Pick(s, 1, s.Range(1, 4), s.Range(1, 40), s.Range(1, gen.Pick(s, 40, 150))); j > 0; j-- {
						m := c32Msg{Ms: s.Intn(slow + 1), Kind: s.Weighted(6, 3, 2, 1), Request: s.Bool(40)}
						o.Msgs = append(o.Msgs, m)
					}
				}
				p.Ops = append(p.Ops, o)
			}
			for k := s.Range(4, 20); k > 0; k-- {
				p.Looks = append(p.Looks, s.Intn(gen.Pick(s, span+200, span*3, 100000)))
			}
			return p
		}, runC32)
}

type c32node struct {
	n       *noise.Node
	workers int
	mu      sync.Mutex
	running int
	most    int
	started map[uint64]int
	done    map[uint64]time.Duration
	arrive  []time.Duration
	conns   []*wire.Session
	quiet   string
	joined  map[noise.PublicKey]bool

	rejected map[noise.PublicKey]bool
}

func runC32(c *C, p c32Plan) {
	Bubble(c, func(e *Env) {
		e.link(Link{LatMs: p.LatMs})
		lat := time.Duration(p.LatMs) * time.Millisecond
		pol := vnet.Policy{Latency: lat}
		quick := 12*lat + 50*time.Millisecond
		msgs := map[uint64]c32Msg{}
		serial := 0
		// quietPeer is a peer that answers requests after the time told in them, and sends nothing else.
		quietPeer := func(port int) string {
			serial++
			me := peerIdent(serial+5000, port)
			_, addr := e.Serve(func(_ int, cn *vnet.Conn) {
				s, err := wire.Handshake(cn, me)
				if err != nil {
					return
				}
				for {
					nc, d, err := s.Recv()
					if err != nil {
						return
					}
					if nc == 0 || len(d) < 4 {
						continue
					}
					go func() {
						time.Sleep(time.Duration(binary.BigEndian.Uint32(d)) * time.Millisecond)
						s.Send(nc, d)
					}()
				}
			})
			return addr
		}
		ask := func(x *c32node, addr string, ms int) {
			ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
			defer cancel()
			start := e.Net.Now()
			_, err := x.n.Request(ctx, addr, binary.BigEndian.AppendUint32(nil, uint32(ms)))
			if took := e.Net.Now() - start; err != nil {
				e.Fail("a request to a quiet peer fails: %v", err)
			} else if took > quick+time.Duration(ms)*time.Millisecond {
				e.Fail("a request to a quiet peer, who answers after %d ms, takes %v", ms, took)
			}
		}
		var nodes []*c32node
		for i, w := range p.Workers {
			x := &c32node{workers: w, started: map[uint64]int{}, done: map[uint64]time.Duration{}, joined: map[noise.PublicKey]bool{}, rejected: map[noise.PublicKey]bool{}}
			var opts []noise.NodeOption
			switch {
			case w < 0:
				x.workers = runtime.NumCPU()
			case w == 0:
				x.workers = 1
			}
			if w >= 0 {
				opts = append(opts, noise.WithNodeNumWorkers(uint(w)))
			}
			x.n = e.Node(opts...)
			for h := 0; h < p.Handlers; h++ {
				x.n.Handle(func(ctx noise.HandlerContext) error {
					id, ok := payloadID(ctx.Data())
					if !ok {
						return nil
					}
					m := msgs[id]
					if h == 0 {
						x.mu.Lock()
						x.running++
						x.most = max(x.most, x.running)
						x.started[id]++
						x.mu.Unlock()
						switch m.Kind {
						case 2:
							ask(x, x.quiet, m.Ms/2)
						case 3:
							ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
							if err := x.n.Send(ctx, x.quiet, []byte{1, 2, 3}); err != nil {
								e.Fail("a message to a quiet peer fails: %v", err)
							}
							cancel()
						}
					}
					time.Sleep(time.Duration(m.Ms) * time.Millisecond)
					if h == p.Handlers-1 {
						if m.Kind == 1 && ctx.IsRequest() {
							ctx.Send([]byte("done"))
						}
						x.mu.Lock()
						x.running--
						x.done[id] = e.Net.Now()
						x.mu.Unlock()
						if m.Kind == 4 {
							return errors.New("rejected")
						}
					}
					return nil
				})
			}
			x.n.Bind(noise.Protocol{OnPeerConnected: func(c *noise.Client) {
				x.mu.Lock()
				x.joined[c.ID().ID] = true
				x.mu.Unlock()
			}, OnPeerDisconnected: func(c *noise.Client) {
				x.mu.Lock()
				bad := x.rejected[c.ID().ID]
				x.mu.Unlock()
				if bad {
					time.Sleep(time.Duration(p.DownMs) * time.Millisecond)
				}
			}})
			if !e.Listen(x.n) {
				return
			}
			x.quiet = quietPeer(6000 + i)
			for k := 0; k < p.Conns; k++ {
				serial++
				me := peerIdent(serial+5000, 6100+serial)
				read := func(s *wire.Session) {
					for {
						if _, _, err := s.Recv(); err != nil {
							return
						}
					}
				}
				if p.Outgoing && k%2 == 1 {
					ready := make(chan *wire.Session, 1)
					_, addr := e.Serve(func(_ int, cn *vnet.Conn) {
						s, err := wire.Handshake(cn, me)
						if err == nil {
							ready <- s
							read(s)
						}
					})
					ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
					_, err := x.n.Ping(ctx, addr)
					cancel()
					if err != nil {
						e.Fail("a peer cannot be reached: %v", err)
						return
					}
					x.conns = append(x.conns, <-ready)
					continue
				}
				s, _, err := e.Dial(x.n.Addr(), me, pol)
				if err != nil {
					e.Fail("a peer cannot connect: %v", err)
					return
				}
				go read(s)
				x.conns = append(x.conns, s)
			}
			nodes = append(nodes, x)
		}
		time.Sleep(time.Second)
		e.Settle()
		start := e.Net.Now()
		// Everything happens at whole milliseconds, and is looked at in between.
		ops := append([]c32Op{}, p.Ops...)
		sort.SliceStable(ops, func(i, j int) bool { return ops[i].At < ops[j].At })
		next := uint64(0)
		busy := false // more messages than workers were waiting when something else was done
		crowded := func(x *c32node) bool {
			x.mu.Lock()
			defer x.mu.Unlock()
			n := -len(x.done)
			for _, a := range x.arrive {
				if a <= e.Net.Now() {
					n++
				}
			}
			return n > x.workers
		}
		var nonce uint64 = 1 << 40
		total := make([]time.Duration, len(nodes))
		var fs []func()
		for _, o := range ops {
			x := nodes[o.Node]
			switch o.Kind {
			case 0:
				type out struct {
					nonce uint64
					data  []byte
				}
				var outs []out
				for _, m := range o.Msgs {
					next++
					msgs[next] = m
					nonce++
					q := out{0, payload(next, 8+int(next%50))}
					if m.Request {
						q.nonce = nonce
					}
					outs = append(outs, q)
					total[o.Node] += time.Duration(p.Handlers)*time.Duration(m.Ms)*time.Millisecond + time.Duration(m.Ms)*time.Millisecond + quick
				}
				fs = append(fs, func() {
					time.Sleep(time.Duration(o.At) * time.Millisecond)
					for _, q := range outs {
						x.mu.Lock()
						x.arrive = append(x.arrive, e.Net.Now()+lat)
						x.mu.Unlock()
						x.conns[o.Conn].Send(q.nonce, q.data)
					}
				})
			case 1:
				fs = append(fs, func() {
					time.Sleep(time.Duration(o.At)*time.Millisecond + 300*time.Microsecond)
					if crowded(x) {
						busy = true
					}
					ask(x, x.quiet, o.DelayMs)
				})
			case 2:
				serial++
				me := peerIdent(serial+5000, 6100+serial)
				fs = append(fs, func() {
					time.Sleep(time.Duration(o.At)*time.Millisecond + 300*time.Microsecond)
					if crowded(x) {
						busy = true
					}
					from := e.Net.Now()
					s, _, err := e.Dial(x.n.Addr(), me, pol)
					if err != nil {
						e.Fail("a new peer cannot connect: %v", err)
						return
					}
					go func() {
						for {
							if _, _, err := s.Recv(); err != nil {
								return
							}
						}
					}()
					time.Sleep(lat + 10*time.Millisecond)
					x.mu.Lock()
					joined := x.joined[noiseID(me).ID]
					x.mu.Unlock()
					if took := e.Net.Now() - from; took > quick+lat || !joined {
						e.Fail("a new peer is connected only after %v (reported as connected: %v)", took, joined)
					}
				})
			case 4:
				serial++
				me := peerIdent(serial+5000, 6100+serial)
				x.rejected[noiseID(me).ID] = true
				m := o.Msgs[0]
				next++
				id := next
				msgs[id] = m
				nonce++
				var nc uint64
				if m.Request {
					nc = nonce
				}
				total[o.Node] += time.Duration(p.Handlers+1)*time.Duration(m.Ms)*time.Millisecond + quick
				fs = append(fs, func() {
					// The handshake takes a multiple of the latency, which is whole milliseconds.
					time.Sleep(time.Duration(o.At) * time.Millisecond)
					s, _, err := e.Dial(x.n.Addr(), me, pol)
					if err != nil {
						e.Fail("a new peer cannot connect: %v", err)
						return
					}
					x.mu.Lock()
					x.arrive = append(x.arrive, e.Net.Now()+lat)
					x.mu.Unlock()
					s.Send(nc, payload(id, 8))
					go func() {
						for {
							if _, _, err := s.Recv(); err != nil {
								return
							}
						}
					}()
				})
			case 3:
				addr := quietPeer(6050)
				fs = append(fs, func() {
					time.Sleep(time.Duration(o.At)*time.Millisecond + 300*time.Microsecond)
					if crowded(x) {
						busy = true
					}
					ask(x, addr, o.DelayMs)
				})
			}
		}
		for _, at := range p.Looks {
			fs = append(fs, func() {
				time.Sleep(time.Duration(at)*time.Millisecond + 500*time.Microsecond)
				e.Settle()
				for i, x := range nodes {
					x.mu.Lock()
					waiting := 0
					for _, a := range x.arrive {
						if a <= e.Net.Now() {
							waiting++
						}
					}
					waiting -= len(x.done)
					if want := min(waiting, x.workers); x.running != want {
						e.Fail("%d handlers run on node %d with %d workers and %d unhandled messages", x.running, i, x.workers, waiting)
					}
					x.mu.Unlock()
				}
			})
		}
		if !e.Within(3*time.Hour, func() { All(fs...) }) {
			e.Hang("a request, dial or connection does not end")
			return
		}
		var rest time.Duration
		for _, d := range total {
			rest = max(rest, d)
		}
		time.Sleep(rest + time.Second + time.Duration(p.DownMs)*time.Millisecond)
		e.Settle()
		for i, x := range nodes {
			x.mu.Lock()
			if len(x.done) != len(x.arrive) {
				e.Fail("%d of %d messages are handled by node %d within %v", len(x.done), len(x.arrive), i, e.Net.Now()-start)
			}
			for id, n := range x.started {
				if n != 1 {
					e.Fail("message %d is handled %d times", id, n)
				}
			}
			if x.most > x.workers {
				e.Fail("%d handlers ran at once on node %d with %d workers", x.most, i, x.workers)
			}
			if len(x.arrive) > x.workers && x.most == x.workers {
				e.Label("all workers busy")
			}
			x.mu.Unlock()
		}
		if busy {
			e.Label("busy")
			e.NonTrivial()
		}
	})
}
