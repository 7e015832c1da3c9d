package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"weak"

	"github.com/perlin-network/noise"

	"verifharness/gen"
	"verifharness/wire"
)

// C35: connections that are gone leave nothing behind.

const (
	gRefuse   = iota // dials only
	gHang            // dials only
	gDrop            // closed before the hello
	gHello           // closed after the hello
	gBadHello        // hello with a bad signature
	gBadProof        // proof with a bad signature
	gGarbage         // garbage instead of a hello
	gStall           // nothing at all
	gServe           // established; drops after D ms
	gReset           // established; resets after D ms
	gForge           // established; a forged frame after D ms
	gStay            // established; answers until the end
	gMute            // established; never answers anything
	gDeaf            // established; stops reading
	gKinds
)

type c35Peer struct {
	Kind int
	D    int
	Talk int // messages of its own
}

type c35Op struct {
	At   int
	Kind int // 0 arrival, 1 ping, 2 send, 3 request, 4 client closed, 5 typed request, 6 burst of requests
	To   int
	Peer c35Peer
	Ctx  int // ms, 0: none
	Can  bool
	N    int
	Size int
}

type c35Plan struct {
	Link  Link
	Max   int
	Idle  int
	Addrs int
	Out   []c35Peer // behaviour of dialled peers, by connection
	Ops   []c35Op
	Bad   int  // every so many messages the handler fails, 0: never
	Slow  int  // ms a handler takes
	Quiet bool // peers do not close at the end, the idle timeout has to do
	GC    bool
}

func init() {
	register(&Prop{ID: "C35", Quick: 8000, Thorough: 250000, Rule: "A node with generated pool sizes, idle timeout, failing and slow handlers, and up to forty events: arrivals and dials of peers of fourteen kinds (refusing, unanswering, dropping, resetting, garbling or stalling at each stage of the handshake, forging, mute, deaf, staying), sends, single requests and bursts with ending contexts, and closing of clients. When all peers are gone, or have fallen silent for longer than the idle timeout, the goroutines of the node, its open connections, its lists, its clients (WaitUntilReady, WaitUntilClosed, Error, and whether they can be freed from memory) and pending calls are inspected, and the node is used once more. Non-trivial: at least three connections, one of them unsuccessful.",
		Assume: []string{"Memory is inspected through weak pointers after forced garbage collections."}},
		func(s *gen.S) c35Plan {
			p := c35Plan{Link: genLinkBatch(s), Max: gen.Pick(s, 128, 128, s.Range(1, 3)), Idle: gen.Pick(s, 0, 0, s.Range(100, 3000)), Addrs: s.Range(1, 4), Bad: gen.Pick(s, 0, 0, s.Range(1, 6)), Slow: gen.Pick(s, 0, 0, s.Range(1, 300)), GC: s.Bool(25)}
			p.Quiet = p.Idle > 0 && s.Bool(60)
			peer := func(lo int) c35Peer {
				return c35Peer{Kind: s.Range(lo, gKinds-1), D: gen.Pick(s, 0, 1, s.Intn(300), s.Intn(3000)), Talk: gen.Pick(s, 0, 0, s.Intn(5))}
			}
			for k := s.Range(1, 8); k > 0; k-- {
				p.Out = append(p.Out, peer(gen.Pick(s, 0, gDrop, gServe)))
			}
			for k := s.Range(2, gen.Pick(s, 8, 40)); k > 0; k-- {
				o := c35Op{At: gen.Pick(s, 0, s.Intn(200), s.Intn(5000)), Kind: s.Weighted(5, 2, 3, 5, 2, 1, 1), To: s.Intn(p.Addrs), Peer: peer(gDrop), N: s.Range(1, 20), Size: gen.Pick(s, 20, s.Intn(5000), s.Intn(300000))}
				o.Ctx = gen.Pick(s, 0, s.Intn(50), s.Intn(3000))
				o.Can = s.Bool(40)
				p.Ops = append(p.Ops, o)
			}
			return p
		}, runC35)
}

// noiseShape counts the goroutines of noise by where they were started.
func noiseShape() map[string]int {
	m := map[string]int{}
	for _, st := range Stacks() {
		k := "?"
		for _, l := range strings.Split(st, "\n") {
			if strings.HasPrefix(l, "created by github.com/perlin-network/noise") {
				k, _, _ = strings.Cut(strings.TrimPrefix(l, "created by "), " in goroutine")
			}
		}
		m[k]++
	}
	return m
}

func shapeDiff(a, b map[string]int) string {
	var out []string
	for k, n := range b {
		if n > a[k] {
			out = append(out, fmt.Sprintf("%d more by %s", n-a[k], k))
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func runC35(c *C, p c35Plan) {
	Bubble(c, func(e *Env) {
		ms := time.Millisecond
		e.link(p.Link)
		opts := []noise.NodeOption{noise.WithNodeMaxInboundConnections(uint(p.Max)), noise.WithNodeMaxOutboundConnections(uint(p.Max)), noise.WithNodeMaxDialAttempts(2), noise.WithNodeNumWorkers(3)}
		if p.Idle > 0 {
			opts = append(opts, noise.WithNodeIdleTimeout(time.Duration(p.Idle)*ms))
		}
		a := e.Node(opts...)
		var mu sync.Mutex
		seen := map[*noise.Client]bool{}
		up, down := map[*noise.Client]int{}, map[*noise.Client]int{}
		note := func(cl *noise.Client) {
			mu.Lock()
			seen[cl] = true
			mu.Unlock()
		}
		a.Bind(noise.Protocol{OnPeerConnected: func(cl *noise.Client) { note(cl); mu.Lock(); up[cl]++; mu.Unlock() }, OnPeerDisconnected: func(cl *noise.Client) { mu.Lock(); down[cl]++; mu.Unlock() }})
		msgs := 0
		a.Handle(func(ctx noise.HandlerContext) error {
			mu.Lock()
			msgs++
			bad := p.Bad > 0 && msgs%p.Bad == 0
			mu.Unlock()
			if p.Slow > 0 {
				time.Sleep(time.Duration(p.Slow) * ms)
			}
			if bad {
				return errors.New("handler error")
			}
			if ctx.IsRequest() {
				return ctx.Send(ctx.Data())
			}
			return nil
		})
		tA := codecTypes[0]
		a.RegisterMessage(tA.proto, tA.de)
		if !e.Listen(a) {
			return
		}
		e.Settle()
		base := noiseShape()

		ending, probe := false, false
		over := make(chan struct{}) // peers end everything
		failed := 0
		total := 0
		serve := func(cn *vconn, b c35Peer, me wire.Identity) {
			defer func() {
				if p.Quiet {
					switch b.Kind { // these leave it to the idle timeout
					case gStall, gStay, gMute, gDeaf:
						return
					}
				}
				cn.Close()
			}()
			mu.Lock()
			if probe {
				mu.Unlock()
				s, err := wire.Handshake(cn, me)
				for err == nil {
					var n uint64
					var b []byte
					if n, b, err = s.Recv(); err == nil {
						s.Send(n, b)
					}
				}
				return
			}
			total++
			if b.Kind < gServe {
				failed++
			}
			if ending {
				mu.Unlock()
				return
			}
			mu.Unlock()
			read := make(chan struct{})
			go func() { // the end of the connection
				select {
				case <-over:
					if !p.Quiet {
						cn.Close()
					}
				case <-read:
				}
			}()
			defer close(read)
			d := time.Duration(b.D) * ms
			switch b.Kind {
			case gDrop:
				time.Sleep(d)
				return
			case gHello:
				cn.Write(wire.Frame(wire.Hello(wire.GenEph())))
				time.Sleep(d)
				return
			case gBadHello:
				h := wire.Hello(wire.GenEph())
				h[50] ^= 1
				cn.Write(wire.Frame(h))
				io.Copy(io.Discard, cn)
				return
			case gGarbage:
				cn.Write(gen.Expand(uint64(b.D), 200))
				io.Copy(io.Discard, cn)
				return
			case gStall:
				io.Copy(io.Discard, cn)
				return
			case gBadProof:
				s := &wire.Session{Conn: cn, Eph: wire.GenEph()}
				cn.Write(wire.Frame(wire.Hello(s.Eph)))
				h, err := wire.ReadFrame(cn)
				if err != nil || s.Derive(h) != nil {
					return
				}
				q := s.Proof(me)
				q[60] ^= 1
				cn.Write(wire.Frame(wire.Seal(s.A, q)))
				io.Copy(io.Discard, cn)
				return
			}
			s, err := wire.Handshake(cn, me)
			if err != nil {
				return
			}
			sem := make(chan struct{}, 1)
			send := func(n uint64, b []byte) {
				sem <- struct{}{}
				s.Send(n, b)
				<-sem
			}
			go func() {
				for k := 0; k < b.Talk; k++ {
					n := uint64(0)
					if k%2 == 1 {
						n = uint64(k) + 1<<40
					}
					send(n, payload(uint64(k), 100))
				}
				switch b.Kind {
				case gServe:
					time.Sleep(d)
					cn.Close()
				case gReset:
					time.Sleep(d)
					cn.Reset()
				case gForge:
					time.Sleep(d)
					sem <- struct{}{}
					cn.Write(wire.Frame(gen.Expand(1, 60)))
					<-sem
				}
			}()
			if b.Kind == gDeaf {
				select {
				case <-over:
				case <-time.After(time.Hour):
				}
				return
			}
			for {
				n, b2, err := s.Recv()
				if err != nil {
					return
				}
				if n != 0 && n < 1<<40 && b.Kind != gMute {
					send(n, b2)
				}
			}
		}
		nconn := 0
		e.Net.OnDial = func(d *dialRec) outcome2 {
			mu.Lock()
			defer mu.Unlock()
			if ending {
				return outcome2{}
			}
			k := p.Out[nconn%len(p.Out)]
			if k.Kind < gDrop {
				nconn++
				total++
				failed++
			}
			return outcome2{Delay: ms, Refuse: k.Kind == gRefuse, Hang: k.Kind == gHang}
		}
		for i := 0; i < p.Addrs; i++ {
			l, err := e.Net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", 7000+i))
			if err != nil {
				panic(err)
			}
			e.Defer(func() { l.Close() })
			go func() {
				for {
					x, err := l.Accept()
					if err != nil {
						return
					}
					mu.Lock()
					for p.Out[nconn%len(p.Out)].Kind < gDrop && hasServing(p.Out) {
						nconn++
					}
					b := p.Out[nconn%len(p.Out)]
					if b.Kind < gDrop {
						b.Kind = gStay
					}
					if ending {
						b.Kind = gStay
					}
					nconn++
					mu.Unlock()
					go serve(x.(*vconn), b, peerIdent(30+i, 7000+i))
				}
			}()
		}
		// The events.
		var fs []func()
		for i, o := range p.Ops {
			fs = append(fs, func() {
				time.Sleep(time.Duration(o.At) * ms)
				addr := fmt.Sprintf("127.0.0.1:%d", 7000+o.To)
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				lim := o.Ctx
				if lim == 0 { // a dial that is never answered ends by its context only
					lim = 600000
				}
				if o.Can {
					time.AfterFunc(time.Duration(lim)*ms, cancel)
				} else {
					var c2 context.CancelFunc
					ctx, c2 = context.WithTimeout(ctx, time.Duration(lim)*ms)
					defer c2()
				}
				switch o.Kind {
				case 0:
					x, err := e.Net.DialFrom(context.Background(), a.Addr(), p.Link.policy(), p.Link.policy())
					if err != nil {
						return
					}
					go serve(x, o.Peer, peerIdent(60+i, 9000+i))
				case 1:
					if cl, err := a.Ping(ctx, addr); err == nil {
						note(cl)
						for _, cl := range append(a.Inbound(), a.Outbound()...) {
							note(cl)
						}
					}
				case 2:
					a.Send(ctx, addr, payload(uint64(i), o.Size))
				case 3:
					a.Request(ctx, addr, payload(uint64(i), o.Size))
				case 4:
					for k, cl := range append(a.Inbound(), a.Outbound()...) {
						note(cl)
						if k == o.N%4 {
							cl.Close()
						}
					}
				case 5:
					a.RequestMessage(ctx, addr, tA.mk(payload(uint64(i), 30)))
				case 6:
					var gs []func()
					for k := 0; k < o.N; k++ {
						gs = append(gs, func() { a.Request(ctx, addr, payload(uint64(i), 50)) })
					}
					All(gs...)
				}
			})
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			All(fs...)
		}()
		time.Sleep(8 * time.Second)
		mu.Lock()
		ending = true
		mu.Unlock()
		close(over)
		if !e.Within(30*time.Minute, func() { <-done }) {
			e.Hang("a call is still pending although every peer is gone")
			return
		}
		time.Sleep(time.Minute)
		e.Settle()
		if l := len(a.Inbound()) + len(a.Outbound()); l > 0 {
			e.Fail("%d connections are listed although all peers are gone", l)
		}
		mu.Lock()
		all := make([]*noise.Client, 0, len(seen))
		for cl := range seen {
			all = append(all, cl)
		}
		mu.Unlock()
		for _, cl := range all {
			if !e.Within(time.Minute, func() { cl.WaitUntilReady(); cl.WaitUntilClosed() }) {
				e.Fail("waiting for a connection to be closed does not end although its peer is gone")
				break
			}
			if cl.Error() == nil {
				e.Fail("a connection that is gone has no error")
			}
			mu.Lock()
			if up[cl] != down[cl] {
				e.Fail("a connection that is gone was announced %d times and ended %d times", up[cl], down[cl])
			}
			mu.Unlock()
		}
		e.Settle()
		if d := shapeDiff(base, noiseShape()); d != "" {
			e.Fail("goroutines are left although all connections are gone: %s", d)
		}
		for _, x := range e.Net.Conns() {
			mine := x // the node's end
			if x.DialRec() == nil || portOf(x.RemoteAddr().String()) == portOf(a.Addr()) {
				mine = x.Peer()
			}
			if !mine.Closed() {
				e.Fail("the node has not closed its end of a connection that is gone")
			}
		}
		if p.GC && !e.Failed() {
			var weaks []weak.Pointer[noise.Client]
			for _, cl := range all {
				weaks = append(weaks, weak.Make(cl))
			}
			n := len(all)
			clear(all)
			mu.Lock()
			clear(seen)
			clear(up)
			clear(down)
			mu.Unlock()
			left := 0
			for try := 0; try < 5; try++ {
				runtime.GC()
				e.Settle()
				left = 0
				for _, w := range weaks {
					if w.Value() != nil {
						left++
					}
				}
				if left == 0 {
					break
				}
			}
			if left > 0 {
				e.Fail("%d of %d clients whose connections are gone are still kept in memory", left, n)
			}
			e.Label("memory inspected")
		}
		// And the node still works.
		mu.Lock()
		probe = true
		e.link(Link{}) // faster than any idle timeout
		mu.Unlock()
		if !e.Failed() {
			var err error
			var b []byte
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			defer cancel()
			if !e.Within(2*time.Minute, func() { b, err = a.Request(ctx, "127.0.0.1:7000", []byte("probe")) }) {
				e.Hang("Request does not return")
			} else if err != nil || string(b) != "probe" {
				e.Fail("after all connections were gone, a request to a good peer gives %q and %v", b, err)
			}
			s, _, err := e.Dial(a.Addr(), peerIdent(99, 9900), policy{})
			if err != nil {
				e.Fail("after all connections were gone, a peer cannot connect: %v", err)
			} else {
				s.Conn.SetDeadline(time.Now().Add(time.Minute))
				s.Send(5, []byte("probe"))
				if p.Bad == 0 && (p.Idle == 0 || p.Slow < p.Idle) {
					if n, b, err := s.Recv(); err != nil || n != 5 || string(b) != "probe" {
						e.Fail("after all connections were gone, the request of a peer gives %d, %q and %v", n, b, err)
					}
				}
			}
		}
		if total >= 3 && failed >= 1 {
			e.NonTrivial()
		}
		e.Label("idle:%v quiet:%v", p.Idle > 0, p.Quiet)
	})
}

func hasServing(ps []c35Peer) bool {
	for _, b := range ps {
		if b.Kind >= gDrop {
			return true
		}
	}
	return false
}
