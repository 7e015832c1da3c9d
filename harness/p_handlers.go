package main

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
	"verifharness/wire"
)

// C04: at most one response per request.

type c04Try struct {
	Handler int
	Go      bool
	DelayMs int
	Kind    int // 0 Send, 1 SendMessage, 2 SendMessage of an unregistered type, 3 Send of nothing
	N       int // this many goroutines at the same time
	Copy    int // how the context is handed on
}

type c04Req struct {
	Peer  int
	AtMs  int
	Plain bool
	Big   bool // number of the request is huge
	Try   []c04Try
}

type c04Plan struct {
	Link     Link
	Workers  int
	Handlers int
	Peers    int
	Reqs     []c04Req
}

type c04Msg struct{ B []byte }

func (m c04Msg) Marshal() []byte { return m.B }

type c04Unreg struct{}

func (c04Unreg) Marshal() []byte { return []byte("unregistered") }

func init() {
	register(&Prop{ID: "C04", Quick: 12000, Thorough: 60000, Rule: "One to eight requests and plain messages from one or two wire-level peers to a node with one to four handlers; each is answered by one to six attempts (each up to sixteen concurrent goroutines), directly or from goroutines, at once or up to seconds later, through copies of the handler context made in four ways, with Send, SendMessage, SendMessage of a type that cannot be encoded, or Send of nothing. The peer counts the frames that come back. Non-trivial: two or more attempts that could succeed for one request."},
		func(s *gen.S) c04Plan {
			p := c04Plan{Link: genLinkBatch(s), Workers: gen.Pick(s, 1, 2, 8), Handlers: s.Range(1, 4), Peers: s.Range(1, 2)}
			for k := s.Range(1, 8); k > 0; k-- {
				r := c04Req{Peer: s.Intn(p.Peers), AtMs: gen.Pick(s, 0, 0, s.Intn(1000)), Plain: s.Bool(20), Big: s.Bool(20)}
				for j := s.Range(1, 6); j > 0; j-- {
					r.Try = append(r.Try, c04Try{Handler: s.Intn(p.Handlers), Go: s.Bool(60), DelayMs: gen.Pick(s, 0, 0, 0, s.Intn(3000)), Kind: s.Weighted(4, 4, 3, 2), N: gen.Pick(s, 1, 1, 2, 16), Copy: s.Intn(4)})
				}
				p.Reqs = append(p.Reqs, r)
			}
			return p
		}, runC04)
}

func runC04(c *C, p c04Plan) {
	Bubble(c, func(e *Env) {
		n := e.Node(noise.WithNodeNumWorkers(uint(p.Workers)))
		n.RegisterMessage(c04Msg{}, func(b []byte) (c04Msg, error) { return c04Msg{b}, nil })
		var mu sync.Mutex
		type res struct {
			key uint64
			err error
			bad bool
			seq int
		}
		results := make([][]res, len(p.Reqs))
		var wg sync.WaitGroup
		for h := 0; h < p.Handlers; h++ {
			h := h
			n.Handle(func(ctx noise.HandlerContext) error {
				id, ok := payloadID(ctx.Data())
				if !ok || int(id) >= len(p.Reqs) {
					return nil
				}
				k := int(id)
				r := p.Reqs[k]
				if ctx.IsRequest() == r.Plain {
					e.Fail("IsRequest is %v for a message of the other kind", ctx.IsRequest())
				}
				for ti, t := range r.Try {
					if t.Handler != h {
						continue
					}
					one := func(g int, x *noise.HandlerContext) {
						key := uint64(k)<<32 | uint64(ti)<<16 | uint64(g)
						var err error
						switch t.Kind {
						case 0:
							err = x.Send(append([]byte{0xff, 0xff}, payload(key, 20)...))
						case 1:
							err = x.SendMessage(c04Msg{payload(key, 20)})
						case 2:
							err = x.SendMessage(c04Unreg{})
						case 3:
							err = x.Send([][]byte{nil, {}}[g%2])
						}
						mu.Lock()
						results[k] = append(results[k], res{key, err, t.Kind == 2, len(results[k])})
						mu.Unlock()
					}
					run := func() {
						if t.DelayMs > 0 {
							time.Sleep(time.Duration(t.DelayMs) * time.Millisecond)
						}
						var fs []func()
						for g := 0; g < t.N; g++ {
							switch t.Copy {
							case 0:
								fs = append(fs, func() { one(g, &ctx) })
							case 1:
								cp := ctx
								fs = append(fs, func() { one(g, &cp) })
							case 2:
								fs = append(fs, func() { func(x noise.HandlerContext) { one(g, &x) }(ctx) })
							case 3:
								m := map[int]noise.HandlerContext{1: ctx}
								fs = append(fs, func() { x := m[1]; one(g, &x) })
							}
						}
						All(fs...)
					}
					wg.Add(1)
					if t.Go {
						go func() { defer wg.Done(); run() }()
					} else {
						run()
						wg.Done()
					}
				}
				return nil
			})
		}
		if !e.Listen(n) {
			return
		}
		type frame struct {
			nonce uint64
			data  []byte
		}
		got := make([][]frame, p.Peers)
		sess := make([]*wire.Session, p.Peers)
		for i := range sess {
			s, cn, err := e.Dial(n.Addr(), peerIdent(i, 1000+i), p.Link.policy())
			if err != nil {
				e.Fail("an honest peer could not connect: %v", err)
				return
			}
			sess[i] = s
			e.Defer(func() { cn.Close() })
			go func() {
				for {
					nc, d, err := s.Recv()
					if err != nil {
						return
					}
					mu.Lock()
					got[i] = append(got[i], frame{nc, d})
					mu.Unlock()
				}
			}()
		}
		nonce := func(k int) uint64 {
			if p.Reqs[k].Plain {
				return 0
			}
			if p.Reqs[k].Big {
				return 1<<63 + uint64(k)
			}
			return uint64(k + 1)
		}
		var fs []func()
		for k, r := range p.Reqs {
			fs = append(fs, func() {
				time.Sleep(time.Duration(r.AtMs) * time.Millisecond)
				if err := sess[r.Peer].Send(nonce(k), payload(uint64(k), 8)); err != nil {
					e.Fail("the node dropped its peer: %v", err)
				}
			})
		}
		// one writer per connection at a time
		for _, f := range fs {
			f()
		}
		time.Sleep(2 * time.Minute)
		if !e.Within(time.Minute, wg.Wait) {
			e.Hang("replying does not return")
			return
		}
		e.Settle()
		mu.Lock()
		defer mu.Unlock()
		sent := 0
		empties := make([]int, p.Peers) // to plain messages
		for k, r := range p.Reqs {
			var frames []frame
			for _, f := range got[r.Peer] {
				if r.Plain != (f.nonce == 0) {
					continue
				}
				if len(f.data) == 0 {
					if !r.Plain && f.nonce == nonce(k) {
						frames = append(frames, f)
					}
					continue
				}
				if len(f.data) < 10 {
					e.Fail("the peer got a frame of %d bytes", len(f.data))
					continue
				}
				key, _ := payloadID(f.data[2:])
				if int(key>>32) == k {
					frames = append(frames, f)
				}
			}
			able, ok, emptyOK := 0, 0, 0
			success := map[uint64]int{}
			for _, t := range r.Try {
				if t.Kind != 2 {
					able += t.N
				}
			}
			for _, x := range results[k] {
				if x.bad && x.err == nil {
					e.Fail("sending an unregistered type succeeded")
				}
				if x.err == nil && p.Reqs[k].Try[x.key>>16&0xffff].Kind == 3 {
					ok++
					emptyOK++
				} else if x.err == nil {
					ok++
					success[x.key]++
				}
			}
			if r.Plain {
				if ok != able {
					e.Fail("%d of %d answers to a plain message succeeded", ok, able)
				}
			} else {
				if able >= 2 {
					e.NonTrivial()
				}
				want := 0
				if able > 0 {
					want = 1
				}
				if ok != want {
					e.Fail("%d of %d attempts to respond to request %d succeeded", ok, able, k)
				}
			}
			if r.Plain {
				empties[r.Peer] += emptyOK
				ok -= emptyOK
			}
			if len(frames) != ok {
				e.Fail("the peer got %d frames for message %d, %d attempts succeeded", len(frames), k, ok)
			}
			sent += len(frames)
			for _, f := range frames {
				if len(f.data) == 0 {
					if emptyOK--; emptyOK < 0 {
						e.Fail("the peer got an empty answer whose attempt had failed")
					}
					continue
				}
				key, _ := payloadID(f.data[2:])
				if success[key]--; success[key] < 0 {
					e.Fail("the peer got an answer whose attempt had failed")
				}
				if f.nonce != nonce(k) {
					e.Fail("the answer to request number %d carries number %d", nonce(k), f.nonce)
				}
				if d := diff(f.data[2:], payload(key, 20)); d != "" {
					e.Fail("an answer is altered: %s", d)
				}
			}
		}
		all := 0
		for i := range got {
			all += len(got[i])
			n := 0
			for _, f := range got[i] {
				if f.nonce == 0 && len(f.data) == 0 {
					n++
				}
			}
			if n != empties[i] {
				e.Fail("%d empty answers to plain messages came back instead of %d", n, empties[i])
			}
			sent += n
		}
		if all != sent {
			e.Fail("%d frames came back, %d of them as answers", all, sent)
		}
	})
}

// C05: handlers in order; an error costs only its connection.

type c05Msg struct {
	Err  int // index of the handler that fails; -1: none
	Req  bool
	Size int
	By   int // from 1: the handler that answers the request
}

type c05Peer struct {
	AtMs int
	Out  bool // the node dials the peer
	Msgs []c05Msg
	Gap  int
}

type c05Plan struct {
	Link     Link
	Workers  int
	Handlers int
	SlowMs   int
	Peers    []c05Peer
	Probes   int
	Wrap     bool
}

func init() {
	register(&Prop{ID: "C05", Quick: 5000, Thorough: 60000, Rule: "A node with one to five handlers and one to four workers; two to twelve wire-level peers (inbound and outbound connections) each send up to eight messages (at times above 64 kB), any of which makes one of the handlers return an error or answer a request, often more errors than there are workers; afterwards new peers send probes. Non-trivial: at least one handler error with other peers served."},
		func(s *gen.S) c05Plan {
			p := c05Plan{Link: genLinkBatch(s), Workers: s.Range(1, 4), Handlers: s.Range(1, 5), SlowMs: gen.Pick(s, 0, 0, 1, 30), Probes: s.Range(1, 3), Wrap: s.Bool(50)}
			big := 0
			if p.Link.Frag == 0 && p.Link.Window == 0 {
				big = 2
			}
			for k := s.Range(2, 12); k > 0; k-- {
				x := c05Peer{AtMs: gen.Pick(s, 0, s.Intn(500)), Out: s.Bool(30), Gap: gen.Pick(s, 0, 0, 10)}
				bad := s.Bool(60)
				for j := s.Range(1, 8); j > 0; j-- {
					m := c05Msg{Err: -1, Req: s.Bool(30), Size: gen.Pick(s, s.Range(8, 300), s.Range(8, 300), s.Range(8, 5000))}
					if big > 0 && s.Bool(5) {
						big--
						m.Size = s.Range(60000, 140000)
					}
					if bad && s.Bool(40) {
						m.Err = s.Intn(p.Handlers)
					}
					if m.Req && s.Bool(60) {
						m.By = s.Range(1, p.Handlers)
					}
					x.Msgs = append(x.Msgs, m)
				}
				p.Peers = append(p.Peers, x)
			}
			return p
		}, runC05)
}

type c05Error struct{ peer, msg, h int }

func (x c05Error) Error() string { return fmt.Sprintf("refused %d/%d by %d", x.peer, x.msg, x.h) }

func runC05(c *C, p c05Plan) {
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		n := e.Node(noise.WithNodeNumWorkers(uint(p.Workers)), noise.WithNodeMaxDialAttempts(1))
		var mu sync.Mutex
		calls := map[[2]int][]int{}
		clients := map[noise.PublicKey]*noise.Client{}
		order := map[int][]int{}
		n.Bind(noise.Protocol{OnPeerConnected: func(x *noise.Client) {
			mu.Lock()
			clients[x.ID().ID] = x
			mu.Unlock()
		}})
		for h := 0; h < p.Handlers; h++ {
			h := h
			n.Handle(func(ctx noise.HandlerContext) error {
				id, ok := payloadID(ctx.Data())
				pi, mi := int(id>>16), int(id&0xffff)
				if !ok || pi > len(p.Peers)+p.Probes {
					e.Fail("a handler got unknown data")
					return nil
				}
				m := c05Msg{Err: -1, Size: 8}
				if pi < len(p.Peers) {
					m = p.Peers[pi].Msgs[mi]
				}
				if d := diff(ctx.Data(), payload(id, m.Size)); d != "" {
					e.Fail("handler %d got altered data: %s", h, d)
				}
				if ctx.IsRequest() != m.Req {
					e.Fail("handler %d: IsRequest is %v", h, ctx.IsRequest())
				}
				mu.Lock()
				if h == 0 {
					order[pi] = append(order[pi], mi)
				}
				calls[[2]int{pi, mi}] = append(calls[[2]int{pi, mi}], h)
				mu.Unlock()
				if p.SlowMs > 0 && h == 0 {
					time.Sleep(time.Duration(p.SlowMs) * time.Millisecond)
				}
				if m.By == h+1 {
					ctx.Send([]byte("answer"))
				}
				if m.Err == h {
					if p.Wrap {
						return fmt.Errorf("wrapped: %w", c05Error{pi, mi, h})
					}
					return c05Error{pi, mi, h}
				}
				return nil
			})
		}
		if !e.Listen(n) {
			return
		}
		closedEnd := make([]bool, len(p.Peers))
		peer := func(i int) {
			x := p.Peers[i]
			time.Sleep(time.Duration(x.AtMs) * time.Millisecond)
			me := peerIdent(i, 1000+i)
			talk := func(s *wire.Session, cn *vconn) {
				for mi, m := range x.Msgs {
					nonce := uint64(0)
					if m.Req {
						nonce = uint64(mi + 1)
					}
					if s.Send(nonce, payload(uint64(i)<<16|uint64(mi), m.Size)) != nil {
						break
					}
					if x.Gap > 0 {
						time.Sleep(time.Duration(x.Gap) * time.Millisecond)
					}
				}
				bad := false
				for _, m := range x.Msgs {
					bad = bad || m.Err >= 0
				}
				r := false
				if bad {
					r = ended(cn, 10*time.Minute)
				} else {
					r = ended(cn, time.Minute)
				}
				mu.Lock()
				closedEnd[i] = r
				mu.Unlock()
			}
			if !x.Out {
				s, cn, err := e.Dial(n.Addr(), me, p.Link.policy())
				if err != nil {
					e.Fail("an honest peer could not connect: %v", err)
					return
				}
				e.Defer(func() { cn.Close() })
				talk(s, cn)
				return
			}
			done := make(chan struct{})
			_, addr := e.Serve(func(k int, cn *vconn) {
				if k > 0 {
					e.Fail("the node dialled the peer again")
					return
				}
				defer close(done)
				s, err := wire.Handshake(cn, me)
				if err != nil {
					e.Fail("handshake with the node failed: %v", err)
					return
				}
				talk(s, cn)
			})
			var err error
			if !e.Within(time.Minute, func() { _, err = n.Ping(context.Background(), addr) }) || err != nil {
				// the connection may already be lost by a handler error
				mu.Lock()
				_, was := clients[noiseID(me).ID]
				mu.Unlock()
				if !was {
					e.Fail("Ping of an honest peer failed: %v", err)
					return
				}
			}
			<-done
		}
		var fs []func()
		for i := range p.Peers {
			fs = append(fs, func() { peer(i) })
		}
		if !e.Within(2*time.Hour, func() { All(fs...) }) {
			e.Hang("peers are not served")
			return
		}
		time.Sleep(time.Minute)
		e.Settle()
		check := func() {
			mu.Lock()
			defer mu.Unlock()
			errs, healthy := 0, 0
			for i, x := range p.Peers {
				first := -1
				for mi, m := range x.Msgs {
					if m.Err >= 0 && first < 0 {
						first = mi
					}
				}
				cl := clients[noiseID(peerIdent(i, 1000+i)).ID]
				if cl == nil {
					e.Fail("peer %d was never announced", i)
					continue
				}
				if first >= 0 {
					errs++
					if !closedEnd[i] {
						e.Fail("a handler refused message %d of peer %d, but its connection was not closed", first, i)
						continue
					}
					var he c05Error
					if err := cl.Error(); !errors.As(err, &he) || he.peer != i || (p.Workers == 1 && he.msg != first) || x.Msgs[he.msg].Err != he.h {
						e.Fail("the error of the connection of peer %d is %v instead of its handler's", i, err)
					}
				} else {
					healthy++
					if closedEnd[i] {
						e.Fail("the connection of peer %d was closed though no handler refused its messages", i)
					}
				}
				for mi, m := range x.Msgs {
					cs := calls[[2]int{i, mi}]
					lim := p.Handlers - 1
					if m.Err >= 0 {
						lim = m.Err
					}
					must := first < 0 || (p.Workers == 1 && mi <= first)
					if len(cs) == 0 && !must {
						continue
					}
					if len(cs) != lim+1 {
						e.Fail("message %d of peer %d was given to %d of %d handlers", mi, i, len(cs), lim+1)
						continue
					}
					for h, got := range cs {
						if h != got {
							e.Fail("message %d of peer %d was given to the handlers in order %v", mi, i, cs)
							break
						}
					}
				}
			}
			if errs > 0 && (healthy > 0 || p.Probes > 0) {
				e.NonTrivial()
			}
			if errs > p.Workers {
				e.Label("more-errors-than-workers")
			}
		}
		check()
		for k := 1; k <= p.Probes; k++ {
			s, cn, err := e.Dial(n.Addr(), peerIdent(500+k, 3000+k), p.Link.policy())
			if err != nil {
				e.Fail("after handler errors, a new peer could not connect: %v", err)
				return
			}
			s.Send(0, payload(uint64(len(p.Peers)+k)<<16, 8))
			ok := e.Wait(time.Minute, time.Second, func() bool {
				mu.Lock()
				defer mu.Unlock()
				return len(calls[[2]int{len(p.Peers) + k, 0}]) == p.Handlers
			})
			cn.Close()
			if !ok {
				e.Fail("after handler errors, the message of a new peer is not handled")
				return
			}
		}
	})
}
