package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
	"verifharness/wire"
)

// C17: connection callbacks tell the truth.

type c17Op struct {
	Kind int // 0 peer sends, 1 peer requests, 2 node sends, 3 node requests, 4 nothing
	N    int
	Size int
}

type c17Conn struct {
	In   bool
	At   int // ms
	Lat  int
	Bad  int // 0 honest; otherwise the handshake fails in some way
	Ops  []c17Op
	End  int  // peer closes, peer resets, client closes, handler error, garbage, plain junk message, node closes
	Last bool // the node sends something right before the end
	Burn bool // the peer keeps sending until the end, so that it comes in between
}

type c17Plan struct {
	Protos  int
	Workers int
	Slow    int // ms every handler takes
	ConnMs  int // ms the connected callback takes
	CallMs  int // ms the other callbacks take
	SentMs  int // likewise, the sent callback
	Conns   []c17Conn
}

func init() {
	register(&Prop{ID: "C17", Quick: 6000, Thorough: 200000, Rule: "A node with one to three protocols, whose callbacks and handlers may take time, and one to five connections in both roles with wire-level peers; each fails its handshake in one of nine ways or carries up to ten bursts of messages, requests and replies in both directions, and ends by a close, reset, handler error, garbage or shutdown, possibly in the middle of traffic. The recorded callbacks of every client are compared with what was sent and handled, and every client is waited for. Non-trivial: traffic on some connection and two ways of ending, or a failed handshake.",
		Assume: []string{"A message handed to the handlers counts as received, and so does a response given to a request.", "Messages sent at the same instant may share a flush."}},
		func(s *gen.S) c17Plan {
			p := c17Plan{Protos: s.Range(1, 3), Workers: gen.Pick(s, 1, 4), ConnMs: gen.Pick(s, 0, 0, 0, 5, 30), CallMs: gen.Pick(s, 0, 0, 0, 1), SentMs: gen.Pick(s, 0, 0, 0, 0, s.Range(2, 40))}
			if s.Bool(20) {
				p.Slow = s.Range(1, 40)
			}
			for k := s.Range(1, 5); k > 0; k-- {
				c := c17Conn{In: s.Bool(50), At: gen.Pick(s, 0, s.Intn(100)), Lat: gen.Pick(s, 0, 0, 1, 3), End: s.Intn(7), Burn: s.Bool(20), Last: s.Bool(30)}
				if s.Bool(20) {
					c.Bad = s.Range(1, 9)
				}
				for j := gen.Pick(s, 0, s.Range(1, 4), s.Range(1, 10)); j > 0; j-- {
					c.Ops = append(c.Ops, c17Op{Kind: s.Intn(5), N: gen.Pick(s, 1, 1, s.Range(1, 6)), Size: gen.Pick(s, 10, s.Intn(5000))})
				}
				p.Conns = append(p.Conns, c)
			}
			return p
		}, runC17)
}

type c17Client struct {
	conn, disc, recv, sent int
	log                    []string
}

func runC17(c *C, p c17Plan) {
	Bubble(c, func(e *Env) {
		ms := time.Millisecond
		var mu sync.Mutex
		seen := make([]map[*noise.Client]*c17Client, p.Protos)
		a := e.Node(noise.WithNodeNumWorkers(uint(p.Workers)), noise.WithNodeMaxDialAttempts(1))
		note := func(i int, cl *noise.Client, what string) {
			mu.Lock()
			m := seen[i]
			x := m[cl]
			if x == nil {
				x = &c17Client{}
				m[cl] = x
			}
			switch what {
			case "connected":
				x.conn++
				if x.disc+x.recv+x.sent > 0 || x.conn > 1 {
					e.Fail("connected reported after %v", x.log)
				}
			case "disconnected":
				x.disc++
				if x.conn != 1 || x.disc > 1 {
					e.Fail("disconnected reported after %v", x.log)
				}
			default:
				if what == "received" {
					x.recv++
				} else {
					x.sent++
				}
				if x.conn != 1 || x.disc != 0 {
					e.Fail("%s reported after %v", what, x.log)
				}
			}
			if len(x.log) < 30 {
				x.log = append(x.log, what)
			}
			mu.Unlock()
			if what == "connected" {
				time.Sleep(time.Duration(p.ConnMs) * ms)
				mu.Lock()
				if x.recv+x.sent+x.disc > 0 {
					e.Fail("%v while the connected callback runs", x.log)
				}
				mu.Unlock()
			} else {
				d := p.CallMs
				if what == "sent" {
					d = p.SentMs
				}
				if d == 0 {
					return
				}
				time.Sleep(time.Duration(d) * ms)
				mu.Lock()
				if what != "disconnected" && x.disc > 0 {
					e.Fail("disconnected reported while the %s callback runs", what)
				}
				mu.Unlock()
			}
		}
		for i := 0; i < p.Protos; i++ {
			seen[i] = map[*noise.Client]*c17Client{}
			a.Bind(noise.Protocol{
				OnPeerConnected:    func(cl *noise.Client) { note(i, cl, "connected") },
				OnPeerDisconnected: func(cl *noise.Client) { note(i, cl, "disconnected") },
				OnMessageRecv:      func(cl *noise.Client) { note(i, cl, "received") },
				OnMessageSent:      func(cl *noise.Client) { note(i, cl, "sent") },
			})
			a.Bind(noise.Protocol{})
		}
		handled := map[uint16]int{}
		errHandler := errors.New("handler error")
		wantErr := map[uint16]time.Duration{} // when the handler failed
		closing := time.Duration(-1)          // when the node was told to close
		ctxs := map[uint16]noise.HandlerContext{}
		a.Handle(func(ctx noise.HandlerContext) error {
			port := ctx.ID().Port
			mu.Lock()
			handled[port]++
			if !ctx.IsRequest() {
				ctxs[port] = ctx
			}
			mu.Unlock()
			time.Sleep(time.Duration(p.Slow) * ms)
			if strings.HasPrefix(string(ctx.Data()), "\xffdie") {
				mu.Lock()
				wantErr[port] = e.Net.Now()
				mu.Unlock()
				return errHandler
			}
			if ctx.IsRequest() {
				ctx.Send([]byte("reply"))
			}
			return nil
		})
		if !e.Listen(a) {
			return
		}
		// Every client that is ever listed is waited for.
		type waited struct {
			ready, closed bool
			err           error
		}
		clients := map[*noise.Client]*waited{}
		look := func() {
			for _, cl := range append(a.Inbound(), a.Outbound()...) {
				mu.Lock()
				_, ok := clients[cl]
				w := &waited{}
				if !ok {
					clients[cl] = w
				}
				mu.Unlock()
				if ok {
					continue
				}
				go func() {
					cl.WaitUntilReady()
					mu.Lock()
					w.ready = true
					mu.Unlock()
					if cl.ID().Port == 0 && cl.Error() == nil {
						e.Fail("a client is ready without an identity or an error")
					}
				}()
				go func() {
					cl.WaitUntilClosed()
					if cl.Error() == nil {
						e.Fail("a client is closed without an error")
					}
					mu.Lock()
					w.closed = true
					for i := range seen {
						if x := seen[i][cl]; x != nil && x.disc != x.conn {
							e.Fail("a client is closed before its disconnected callback ran")
						}
					}
					mu.Unlock()
				}()
			}
			mu.Lock()
			defer mu.Unlock()
			for cl, w := range clients {
				err := cl.Error()
				if w.err != nil && err != w.err {
					e.Fail("the error of a client changed from %v to %v", w.err, err)
				}
				w.err = err
			}
		}
		stopLook := make(chan struct{})
		lookDone := make(chan struct{})
		go func() {
			defer close(lookDone)
			for {
				look()
				select {
				case <-stopLook:
					return
				case <-time.After(ms):
				}
			}
		}()
		type truth struct {
			frames       int // messages, requests and responses the peer sent
			sentLo, sent int // flushes of the node
			got          int // responses received by the node
			okd          bool
			exact        bool
			cl           *noise.Client
		}
		tr := make([]truth, len(p.Conns))
		closeAll := false
		step := time.Duration(40+2*p.ConnMs+p.Slow*8+p.CallMs*20*p.Protos+p.SentMs*8*p.Protos) * ms
		var fs []func()
		for i, x := range p.Conns {
			t := &tr[i]
			ident := peerIdent(20+i, 5000+i)
			fs = append(fs, func() {
				time.Sleep(time.Duration(x.At) * ms)
				pol := policy{Latency: time.Duration(x.Lat) * ms}
				var cn *vconn
				var s *wire.Session
				var wmu sync.Mutex
				resp := 0
				stopSend := make(chan struct{})
				var once sync.Once
				halt := func() { once.Do(func() { close(stopSend) }) }
				defer halt()
				serve := func() {
					for {
						n, _, err := s.Recv()
						if err != nil {
							return
						}
						if n != 0 && n < 1<<40 { // a request of the node
							wmu.Lock()
							s.Send(n, []byte("answer"))
							resp++
							wmu.Unlock()
						}
					}
				}
				addr := fmt.Sprintf("127.0.0.1:%d", 7000+i)
				if x.In {
					var err error
					cn, err = e.Net.DialFrom(context.Background(), a.Addr(), pol, pol)
					if err != nil {
						e.Fail("the node cannot be dialled: %v", err)
						return
					}
					s, err = c17Shake(cn, ident, x.Bad)
					if x.Bad != 0 {
						time.Sleep(step)
						e.Settle()
						cn.Close()
						return
					}
					if err != nil {
						e.Fail("an honest handshake failed: %v", err)
						return
					}
					go serve()
				} else {
					l, err := e.Net.Listen("tcp", addr)
					if err != nil {
						panic(err)
					}
					e.Defer(func() { l.Close() })
					got := make(chan struct{})
					go func() {
						defer close(got)
						y, err := l.Accept()
						if err != nil {
							return
						}
						cn = y.(*vconn)
						s, err = c17Shake(cn, ident, x.Bad)
						if x.Bad != 0 {
							return
						}
						if err == nil {
							go serve()
						}
					}()
					var cl *noise.Client
					ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
					cl, err = a.Ping(ctx, addr)
					cancel()
					if x.Bad == 0 && err != nil {
						e.Fail("an honest ping failed: %v", err)
						return
					}
					if x.Bad != 0 {
						if err == nil {
							e.Fail("a bad handshake (%d) succeeded", x.Bad)
						}
						time.Sleep(ms * 10)
						if cn != nil {
							cn.Close()
						}
						return
					}
					mu.Lock()
					for k := range seen {
						if y := seen[k][cl]; y == nil || y.conn != 1 {
							e.Fail("a ping returned before the connected callback ran")
						}
					}
					mu.Unlock()
					t.cl = cl
					<-got
				}
				t.okd, t.exact = true, !x.Burn
				time.Sleep(step)
				peerSend := func(n uint64, b []byte) {
					wmu.Lock()
					if s.Send(n, b) == nil {
						t.frames++
					}
					wmu.Unlock()
				}
				// One message, so that the node has a context to reply to.
				peerSend(0, []byte("first"))
				var bg sync.WaitGroup
				if x.Burn {
					bg.Add(1)
					go func() {
						defer bg.Done()
						for {
							select {
							case <-stopSend:
								return
							case <-time.After(time.Duration(3+2*p.Slow+p.CallMs*p.Protos) * ms):
								peerSend(0, []byte("more"))
							}
						}
					}()
				}
				nonce := uint64(1 << 41)
				for _, o := range x.Ops {
					time.Sleep(step)
					switch o.Kind {
					case 0, 1:
						for k := 0; k < o.N; k++ {
							b := payload(uint64(k), o.Size)
							b[0] = 1
							if o.Kind == 1 {
								nonce++
								peerSend(nonce, b)
							} else {
								peerSend(0, b)
							}
						}
						if o.Kind == 1 {
							t.sentLo++
							t.sent += o.N
						}
					case 2:
						mu.Lock()
						ctx, ok := ctxs[ident.Port]
						mu.Unlock()
						for k := 0; k < o.N; k++ {
							b := make([]byte, o.Size)
							var err error
							if x.In {
								if !ok {
									continue
								}
								err = ctx.Send(b)
							} else {
								err = a.Send(context.Background(), addr, b)
							}
							if err != nil {
								e.Fail("a send on a live connection failed: %v", err)
								return
							}
							t.sent++
						}
						if t.sent > 0 && (ok || !x.In) {
							t.sentLo++
						}
					case 3:
						if x.In {
							continue
						}
						var fs []func()
						for k := 0; k < o.N; k++ {
							fs = append(fs, func() {
								b, err := a.Request(context.Background(), addr, make([]byte, o.Size))
								if err != nil || string(b) != "answer" {
									e.Fail("a request on a live connection failed: %q %v", b, err)
								}
							})
						}
						All(fs...)
						t.got += o.N
						t.sentLo++
						t.sent += o.N
					}
				}
				time.Sleep(step)
				if x.Burn {
					time.Sleep(time.Duration(i) * ms / 2)
				}
				if x.Last {
					mu.Lock()
					ctx, ok := ctxs[ident.Port]
					mu.Unlock()
					var err error
					if !x.In {
						err = a.Send(context.Background(), addr, []byte("last"))
					} else if ok {
						err = ctx.Send([]byte("last"))
					}
					if err != nil {
						e.Fail("a send on a live connection failed: %v", err)
						return
					}
					t.sent++
					if x.Lat == 0 {
						time.Sleep(time.Duration(i%2) * ms)
					}
				}
				switch x.End {
				case 0:
					wmu.Lock()
					cn.Close()
					wmu.Unlock()
				case 1:
					cn.Reset()
				case 2:
					mu.Lock()
					ctx, ok := ctxs[ident.Port]
					mu.Unlock()
					if t.cl != nil {
						t.cl.Close()
					} else if ok {
						ctx.ID()
						for _, cl := range a.Inbound() {
							if cl.ID().Port == ident.Port {
								cl.Close()
							}
						}
					}
				case 3:
					peerSend(0, []byte("\xffdie"))
				case 4:
					wmu.Lock()
					cn.Write(wire.Frame([]byte("this is no ciphertext at all, but it is long enough")))
					wmu.Unlock()
				case 5:
					wmu.Lock()
					s.SendPlain([]byte("abc")) // shorter than a message can be
					wmu.Unlock()
				case 6:
					mu.Lock()
					closeAll = true
					mu.Unlock()
				}
				if x.Burn {
					time.Sleep(10 * ms)
				}
				halt()
				bg.Wait()
				time.Sleep(step)
				wmu.Lock()
				t.frames += resp
				wmu.Unlock()
			})
		}
		if !e.Within(time.Hour, func() { All(fs...) }) {
			e.Hang("a connection's activities never end")
			return
		}
		if e.Failed() {
			close(stopLook)
			<-lookDone
			return
		}
		e.Settle()
		if closeAll {
			mu.Lock()
			closing = e.Net.Now()
			mu.Unlock()
			if !e.Within(time.Hour, func() { a.Close() }) {
				e.Hang("Close does not return")
				return
			}
		}
		close(stopLook)
		<-lookDone
		for _, t := range tr { // the rest of slow handlers and callbacks
			time.Sleep(time.Duration(t.frames*(p.Slow+p.CallMs*p.Protos))*ms + step)
		}
		look2 := func(final bool) {
			mu.Lock()
			defer mu.Unlock()
			byPort := map[uint16]*noise.Client{}
			for i := range seen {
				for cl, x := range seen[i] {
					port := cl.ID().Port
					k := int(port) - 5000
					if k < 0 || k >= len(p.Conns) || !tr[k].okd {
						e.Fail("callbacks (%v) of a connection whose handshake did not complete", x.log)
						return
					}
					if o := byPort[port]; o != nil && o != cl {
						e.Fail("two clients for one connection")
					}
					byPort[port] = cl
				}
			}
			for k, t := range tr {
				if !t.okd {
					continue
				}
				cl := byPort[uint16(5000+k)]
				x := p.Conns[k]
				if cl == nil {
					e.Fail("no callback for a connection that was established")
					continue
				}
				if t.cl != nil && t.cl != cl {
					e.Fail("the callbacks are given another client than the ping")
				}
				for i := range seen {
					v := seen[i][cl]
					if v == nil {
						e.Fail("protocol %d was told nothing", i)
						continue
					}
					if v.conn != 1 {
						e.Fail("connected reported %d times", v.conn)
					}
					over := x.End != 6 || final || closeAll
					if over && v.disc != 1 || !over && v.disc != 0 {
						e.Fail("disconnected reported %d times (end %d)", v.disc, x.End)
					}
					h := handled[uint16(5000+k)]
					if v.recv != h+t.got {
						e.Fail("%d received messages reported, but %d were handled and %d replies received", v.recv, h, t.got)
					}
					if t.exact && p.Slow == 0 && v.recv != t.frames {
						e.Fail("%d received messages reported, but the peer sent %d", v.recv, t.frames)
					}
					if v.recv > t.frames {
						e.Fail("%d received messages reported, but the peer sent only %d", v.recv, t.frames)
					}
					if p.Slow == 0 && (v.sent < t.sentLo || v.sent > t.sent) {
						e.Fail("%d flushes reported for %d messages sent in %d bursts", v.sent, t.sent, t.sentLo)
					}
				}
				// At the instant of the node's closing, either may come first.
				if w, ok := wantErr[uint16(5000+k)]; x.End == 3 && ok && (closing < 0 || w < closing) && cl.Error() != errHandler {
					e.Fail("the error of a client whose handler failed is %v", cl.Error())
				}
				// What closing by itself reports tells nothing of why the connection ended.
				if err := cl.Error(); !final && closing < 0 && (x.End <= 1 || x.End == 4 || x.End == 5) && (err == nil || err.Error() == "client is closed") {
					e.Fail("the error of a client whose connection was ended by the peer (%d) is %v", x.End, err)
				}
			}
		}
		look2(false)
		if e.Failed() {
			return
		}
		mu.Lock()
		if closing < 0 {
			closing = e.Net.Now()
		}
		mu.Unlock()
		if !e.Within(time.Hour, func() { a.Close() }) {
			e.Hang("Close does not return")
			return
		}
		time.Sleep(step)
		e.Settle()
		look2(true)
		mu.Lock()
		for _, w := range clients {
			if !w.ready || !w.closed {
				e.Fail("waiting for a closed client goes on (ready %v, closed %v)", w.ready, w.closed)
			}
		}
		mu.Unlock()
		ends := map[int]bool{}
		traffic, bad := false, false
		for _, x := range p.Conns {
			ends[x.End] = true
			traffic = traffic || len(x.Ops) > 0
			bad = bad || x.Bad != 0
		}
		if bad || traffic && len(ends) > 1 {
			e.NonTrivial()
		}
	})
}

// c17Shake performs a handshake, or one that is bad in some way.
func c17Shake(cn *vconn, me wire.Identity, bad int) (*wire.Session, error) {
	if bad == 0 {
		return wire.Handshake(cn, me)
	}
	s := &wire.Session{Conn: cn, Eph: wire.GenEph()}
	hello := wire.Hello(s.Eph)
	switch bad {
	case 1:
		cn.Close()
		return nil, nil
	case 2:
		cn.Write(wire.Frame([]byte("nonsense")))
		return nil, nil
	case 3:
		hello[40] ^= 4
		cn.Write(wire.Frame(hello))
		return nil, nil
	case 4:
		cn.Write(wire.Frame(hello))
		cn.Close()
		return nil, nil
	}
	cn.Write(wire.Frame(hello))
	cn.SetReadDeadline(time.Now().Add(time.Minute))
	h, err := wire.ReadFrame(cn)
	if err != nil || s.Derive(h) != nil {
		return nil, err
	}
	b := s.Proof(me)
	switch bad {
	case 5: // a signature that is not right
		b[len(b)-3] ^= 1
		cn.Write(wire.Frame(wire.Seal(s.A, b)))
	case 6: // too short
		cn.Write(wire.Frame(wire.Seal(s.A, b[:80])))
	case 7: // not encrypted
		cn.Write(wire.Frame(b))
	case 8: // a bad proof, with messages right behind
		b[len(b)-3] ^= 1
		cn.Write(wire.Frame(wire.Seal(s.A, b)))
		for k := 0; k < 3; k++ {
			s.Send(0, []byte("hello"))
		}
	case 9:
		cn.Reset()
	}
	return nil, nil
}
