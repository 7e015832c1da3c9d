package main

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
	"verifharness/wire"
)

// C18: nothing is reported as sent on a connection that is already closed.

type c18Op struct {
	Kind  int // 0 use, 1 close and use at once, 2 arrival, 3 message that makes the handler fail, 4 use of contexts, 5 wait
	To    int
	How   int // how it is closed
	N     int // calls afterwards
	Par   bool
	Fill  int // bytes waiting to be written when it is closed
	Calls []int
}

type c18Plan struct {
	Link   Link
	Addrs  int
	Limit  int
	Ops    []c18Op
	Refuse []int // dials that are refused, by number
	End    bool  // the node is closed at the end, and used again
}

func init() {
	register(&Prop{ID: "C18", Quick: 6000, Thorough: 200000, Rule: "A node and up to four wire-level peers in each role; up to fifteen operations: use of an address, and closing of a connection by the client returned by a ping, by the listed client, from a callback, by a handler error, by eviction or by shutdown, also while its writer is blocked with megabytes waiting, each followed at once by up to six sends, requests, pings and replies on kept contexts, in sequence or concurrently. Successful calls are compared with what peers received in the end. Non-trivial: a call was made right after a close.",
		Assume: []string{"Calls made before a connection is closed may lose their message.", "Peers read everything that arrives."}},
		func(s *gen.S) c18Plan {
			p := c18Plan{Link: genLinkFast(s), Addrs: s.Range(1, 4), Limit: gen.Pick(s, 128, 128, s.Range(1, 4)), End: s.Bool(20)}
			for k := s.Range(1, gen.Pick(s, 5, 15)); k > 0; k-- {
				o := c18Op{Kind: s.Weighted(4, 8, 3, 2, 3, 1), To: s.Intn(p.Addrs), How: s.Intn(5), Par: s.Bool(40), Fill: gen.Pick(s, 0, 0, s.Intn(20000), s.Intn(300000))}
				for j := s.Range(1, 6); j > 0; j-- {
					o.Calls = append(o.Calls, s.Intn(4))
				}
				p.Ops = append(p.Ops, o)
			}
			if s.Bool(30) {
				for k := s.Range(1, 4); k > 0; k-- {
					p.Refuse = append(p.Refuse, s.Intn(12))
				}
			}
			return p
		}, runC18)
}

func runC18(c *C, p c18Plan) {
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		e.Net.OnDial = func(d *dialRec) outcome2 {
			for _, k := range p.Refuse {
				if d.N == k {
					return outcome2{Refuse: true}
				}
			}
			return outcome2{}
		}
		var mu sync.Mutex
		got := map[uint64]int{} // what peers received
		serve := func(s *wire.Session) {
			var wmu sync.Mutex
			for {
				n, b, err := s.Recv()
				if err != nil {
					return
				}
				id, ok := payloadID(b)
				if ok {
					mu.Lock()
					got[id]++
					mu.Unlock()
				}
				if n != 0 && n < 1<<40 {
					wmu.Lock()
					s.Send(n, b[:8])
					wmu.Unlock()
				}
			}
		}
		var addrs []string
		sess := make([]*wire.Session, p.Addrs) // the newest to each address
		for i := 0; i < p.Addrs; i++ {
			addrs = append(addrs, fmt.Sprintf("127.0.0.1:%d", 7000+i))
			l, err := e.Net.Listen("tcp", addrs[i])
			if err != nil {
				panic(err)
			}
			e.Defer(func() { l.Close() })
			go func() {
				for {
					cn, err := l.Accept()
					if err != nil {
						return
					}
					go func() {
						s, err := wire.Handshake(cn, peerIdent(30+i, 7000+i))
						if err != nil {
							return
						}
						mu.Lock()
						sess[i] = s
						mu.Unlock()
						serve(s)
					}()
				}
			}()
		}
		a := e.Node(noise.WithNodeMaxInboundConnections(uint(p.Limit)), noise.WithNodeMaxOutboundConnections(uint(p.Limit)), noise.WithNodeMaxDialAttempts(2), noise.WithNodeNumWorkers(4))
		type kept struct {
			ctx  noise.HandlerContext
			peer int // identity port
			req  bool
		}
		var ctxs []kept
		closeIn := map[uint16]bool{} // close from the received callback
		fresh := map[uint16][]noise.HandlerContext{}
		a.Bind(noise.Protocol{OnMessageRecv: func(cl *noise.Client) {
			mu.Lock()
			x := closeIn[cl.ID().Port]
			delete(closeIn, cl.ID().Port)
			mu.Unlock()
			if x {
				cl.Close()
			}
		}})
		a.Handle(func(ctx noise.HandlerContext) error {
			mu.Lock()
			defer mu.Unlock()
			fresh[ctx.ID().Port] = append(fresh[ctx.ID().Port], ctx)
			ctxs = append(ctxs, kept{ctx, int(ctx.ID().Port), ctx.IsRequest()})
			if string(ctx.Data()) == "die" {
				return errors.New("handler error")
			}
			return nil
		})
		if !e.Listen(a) {
			return
		}
		lat := time.Duration(p.Link.LatMs) * time.Millisecond
		calm := func() {
			time.Sleep(8*lat + time.Millisecond)
			e.Settle()
		}
		dead := map[*noise.Client]bool{}
		var id uint64 = 100
		promised := map[uint64]string{}
		nextID := func() uint64 { mu.Lock(); defer mu.Unlock(); id++; return id }
		promise := func(x uint64, what string) { mu.Lock(); promised[x] = what; mu.Unlock() }
		call := func(to, kind int, why string) {
			x := nextID()
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			defer cancel()
			switch kind {
			case 0, 3:
				if a.Send(ctx, addrs[to], payload(x, 20)) == nil {
					promise(x, "a message sent "+why)
				}
			case 1:
				b, err := a.Request(ctx, addrs[to], payload(x, 20))
				if err == nil {
					promise(x, "a request made "+why)
					if y, ok := payloadID(b); !ok || y != x {
						e.Fail("a request made %s got the wrong reply", why)
					}
				} else if errors.Is(err, context.DeadlineExceeded) {
					e.Fail("a request made %s was lost", why)
				}
			case 2:
				cl, err := a.Ping(ctx, addrs[to])
				if err == nil {
					mu.Lock()
					if dead[cl] {
						e.Fail("a ping made %s returned the closed connection", why)
					}
					mu.Unlock()
				}
			}
		}
		burst := func(o c18Op, to int, why string, old []noise.HandlerContext) {
			var fs []func()
			for k, kind := range o.Calls {
				if kind == 3 && len(old) > 0 {
					ctx := old[k%len(old)]
					fs = append(fs, func() {
						if ctx.Send(payload(nextID(), 30)) == nil {
							e.Fail("a reply %s (request: %v) reports success", why, ctx.IsRequest())
						}
					})
					continue
				}
				if to >= 0 {
					fs = append(fs, func() { call(to, kind, why) })
				}
			}
			if o.Par {
				if !e.Within(10*time.Minute, func() { All(fs...) }) {
					e.Hang("a call %s does not end", why)
				}
				return
			}
			for _, f := range fs {
				if !e.Within(5*time.Minute, f) {
					e.Hang("a call %s does not end", why)
					return
				}
			}
		}
		inSess := map[int]*wire.Session{}
		nIn := 0
		peerSay := func(s *wire.Session, n uint64, b []byte) {
			if s != nil {
				s.Send(n, b)
			}
		}
		// openPorts tells which peers have a connection that the node has not closed.
		connClosed := func(s *wire.Session) bool {
			cn, ok := s.Conn.(*vconn)
			return ok && (cn.Peer().Closed() || cn.Broken())
		}
		for oi, o := range p.Ops {
			if e.Failed() {
				return
			}
			switch o.Kind {
			case 0:
				if !e.Within(5*time.Minute, func() { call(o.To, o.Calls[0], "on a live connection") }) {
					e.Hang("a call on a live connection does not end")
					return
				}
				calm()
				mu.Lock()
				s := sess[o.To]
				mu.Unlock()
				if s != nil && o.How < 3 { // so that there are contexts of this connection
					peerSay(s, uint64(o.How)<<41, []byte("context"))
					calm()
				}
			case 1:
				ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
				cl, err := a.Ping(ctx, addrs[o.To])
				cancel()
				if err != nil {
					continue
				}
				calm()
				mu.Lock()
				s := sess[o.To]
				fresh[uint16(7000+o.To)] = nil
				mu.Unlock()
				peerSay(s, 0, []byte("context"))
				peerSay(s, 1<<41, []byte("context"))
				calm()
				mu.Lock()
				old := append([]noise.HandlerContext{}, fresh[uint16(7000+o.To)]...)
				mu.Unlock()
				for n := o.Fill; n > 0; n -= 10000 {
					a.Send(context.Background(), addrs[o.To], make([]byte, min(n, 10000)))
				}
				mu.Lock()
				dead[cl] = true
				mu.Unlock()
				switch o.How {
				case 0, 1:
					cl.Close()
				case 2:
					for _, x := range a.Outbound() {
						if x.ID().Port == uint16(7000+o.To) {
							x.Close()
						}
					}
				case 3:
					mu.Lock()
					closeIn[uint16(7000+o.To)] = true
					mu.Unlock()
					peerSay(s, 0, []byte("close"))
					if !e.Wait(time.Minute, lat+time.Millisecond, func() bool { return connClosed(s) }) {
						e.Fail("a client closed from a callback stays open")
						return
					}
				case 4:
					peerSay(s, 0, []byte("die"))
					if !e.Wait(time.Minute, lat+time.Millisecond, func() bool { return connClosed(s) }) {
						e.Fail("a connection whose handler failed stays open")
						return
					}
				}
				e.Label("close %d", o.How)
				e.NonTrivial()
				burst(o, o.To, fmt.Sprintf("after a close (%d)", o.How), old)
				calm()
			case 2:
				nIn++
				s, _, err := e.Dial(a.Addr(), peerIdent(60+oi, 9000+nIn), p.Link.policy())
				if err != nil {
					e.Fail("the node cannot be reached: %v", err)
					return
				}
				go serve(s)
				s.Send(0, []byte("context"))
				s.Send(1<<41, []byte("context"))
				inSess[9000+nIn] = s
				calm()
			case 3:
				if nIn == 0 {
					continue
				}
				port := 9000 + 1 + o.To%nIn
				s := inSess[port]
				if connClosed(s) {
					continue
				}
				if o.How < 2 {
					for _, cl := range a.Inbound() {
						if cl.ID().Port == uint16(port) {
							cl.Close()
						}
					}
				} else {
					s.Send(0, []byte("die"))
					if !e.Wait(time.Minute, lat+time.Millisecond, func() bool { return connClosed(s) }) {
						e.Fail("a connection whose handler failed stays open")
						return
					}
				}
				mu.Lock()
				old := append([]noise.HandlerContext{}, fresh[uint16(port)]...)
				mu.Unlock()
				for k := range o.Calls {
					o.Calls[k] = 3
				}
				if len(old) > 0 {
					e.NonTrivial()
					burst(o, -1, "on an inbound connection after a close", old)
				}
			case 4:
				// All contexts of closed connections are dead, those of live ones may be used.
				mu.Lock()
				all := append([]kept{}, ctxs...)
				ss := append([]*wire.Session{}, sess...)
				mu.Unlock()
				for _, k := range all {
					closed := false
					if s := inSess[k.peer]; s != nil {
						closed = connClosed(s)
					} else if i := k.peer - 7000; i >= 0 && i < len(ss) && ss[i] != nil {
						closed = connClosed(ss[i]) // an older one is closed in any case; then the send fails
						if !closed {
							continue
						}
					}
					x := nextID()
					err := k.ctx.Send(payload(x, 20))
					if closed && err == nil {
						e.Fail("a reply on a connection that was closed some time ago reports success")
						return
					}
					if !closed && err == nil {
						promise(x, "a reply on a live connection")
					}
				}
				calm()
			case 5:
				time.Sleep(time.Second)
			}
		}
		if e.Failed() {
			return
		}
		calm()
		time.Sleep(time.Minute)
		e.Settle()
		if p.End {
			if !e.Within(time.Hour, func() { a.Close() }) {
				e.Hang("Close does not return")
				return
			}
			mu.Lock()
			n := len(promised)
			all := append([]kept{}, ctxs...)
			mu.Unlock()
			for i := range addrs {
				for k := 0; k < 3; k++ {
					call(i, k, "after the node was closed")
				}
			}
			for _, k := range all {
				if k.ctx.Send([]byte("late")) == nil {
					e.Fail("a reply after the node was closed reports success")
				}
			}
			mu.Lock()
			if len(promised) != n {
				e.Fail("a call on a closed node reports success")
			}
			mu.Unlock()
		}
		mu.Lock()
		defer mu.Unlock()
		for x, what := range promised {
			if got[x] != 1 {
				e.Fail("%s, which reported success, arrived %d times", what, got[x])
				return
			}
		}
	})
}
