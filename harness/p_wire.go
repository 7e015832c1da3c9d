package main

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
	"verifharness/wire"
)

// C33: nodes speak one fixed wire protocol, both ways.

type c33Conn struct {
	In   bool // the peer dials
	Link Link
	Coal int // the peer's writes of so many milliseconds leave together
	V6   bool
}

type c33Op struct {
	Conn   int
	Kind   int // 0 node sends, 1 node requests, 2 peer sends, 3 peer requests, 4 peer sends and gets messages back
	Size   int
	RSize  int // size of the answer
	At     int // ms
	Delay  int // ms until the answer
	Number uint64
	N      int // messages back
}

type c33Plan struct {
	Addr  int // public address of the node
	Conns []c33Conn
	Ops   []c33Op
	Hold  bool // answers to the node's requests are given at once, in the reverse order, at the end
}

var c33Addrs = []string{"", "10.1.2.3:4567", "[2001:db8::7]:9001"}

// coal is a connection whose writes leave together after some time.
type coal struct {
	net.Conn
	d   time.Duration
	sem chan struct{} // not a mutex, as waiting for it must not stop the virtual clock
	buf []byte
}

func (c *coal) Write(b []byte) (int, error) {
	c.sem <- struct{}{}
	defer func() { <-c.sem }()
	if c.d == 0 {
		return c.Conn.Write(b)
	}
	if len(c.buf) == 0 {
		time.AfterFunc(c.d, func() {
			c.sem <- struct{}{}
			defer func() { <-c.sem }()
			c.Conn.Write(c.buf)
			c.buf = nil
		})
	}
	c.buf = append(c.buf, b...)
	return len(b), nil
}

func init() {
	register(&Prop{ID: "C33", Quick: 8000, Thorough: 300000, Rule: "A node (without and with a public IPv4 or IPv6 address) and one to four peers written independently of noise, some dialling and some dialled, over links with latency, fragmentation and windows, whose writes may leave together, also with those of the handshake; up to forty operations at generated times: messages and requests of the node, messages and requests of peers with generated numbers (1, 2^16, 2^63, 2^64-1, random, repeated), messages answered with several messages; answers at once, later or in reverse order. All frames that peers receive, before and after the node is closed, are compared with the protocol and with what was asked for. Non-trivial: messages or requests in both directions.",
		Assume: []string{"Requests travel from the dialling to the dialled side, as they do between nodes."}},
		func(s *gen.S) c33Plan {
			p := c33Plan{Addr: s.Weighted(3, 1, 1), Hold: s.Bool(25)}
			for k := s.Range(1, 4); k > 0; k-- {
				p.Conns = append(p.Conns, c33Conn{In: s.Bool(50), Link: genLinkBatch(s), Coal: gen.Pick(s, 0, 0, 1, 30), V6: s.Bool(20)})
			}
			size := func() int {
				return gen.Pick(s, 24, 24, s.Range(24, 200), s.Range(4000, 4200), gen.Pick(s, 255, 256, 65500, 65536), s.Range(24, 40000))
			}
			for k := s.Range(1, gen.Pick(s, 6, 40)); k > 0; k-- {
				o := c33Op{Conn: s.Intn(len(p.Conns)), Size: size(), RSize: gen.Pick(s, 8, s.Range(8, 60), size()), At: gen.Pick(s, 0, 0, s.Intn(50), s.Intn(2000)), Delay: gen.Pick(s, 0, 0, s.Range(1, 400)), N: s.Range(1, 5)}
				o.Number = gen.Pick(s, 1, 2, 255, 1<<16, 1<<31, 1<<32, 1<<63-1, 1<<63, 1<<64-1, 1<<64-2, uint64(s.Seed())+1, uint64(s.Range(1, 4)))
				if p.Conns[o.Conn].In {
					o.Kind = gen.Pick(s, 2, 3, 3, 4)
				} else {
					o.Kind = gen.Pick(s, 0, 1, 1, 2, 4)
				}
				p.Ops = append(p.Ops, o)
			}
			return p
		}, runC33)
}

// early tells whether an operation of a peer leaves together with its handshake.
func early(p c33Plan, o c33Op) bool { return o.Kind >= 2 && o.At == 0 && p.Conns[o.Conn].Coal > 0 }

type c33Frame struct {
	n uint64
	b []byte
}

func runC33(c *C, p c33Plan) {
	Bubble(c, func(e *Env) {
		e.Net.OnConn = func(d *dialRec) (policy, policy) {
			for i, k := range p.Conns {
				if d.Addr == fmt.Sprintf("127.0.0.1:%d", 6100+i) {
					return k.Link.policies()
				}
			}
			return policy{}, policy{}
		}
		var mu sync.Mutex
		type delivery struct {
			port uint16
			req  bool
			n    int
		}
		delivered := map[uint64]*delivery{}
		opts := []noise.NodeOption{noise.WithNodeNumWorkers(3), noise.WithNodeBindPort(6050)}
		if p.Addr > 0 {
			opts = append(opts, noise.WithNodeAddress(c33Addrs[p.Addr]))
		}
		a := e.Node(opts...)
		byID := map[uint64]c33Op{}
		for i, o := range p.Ops {
			byID[uint64(i)+1000] = o
		}
		reply := func(id uint64, k int, size int) []byte { return payload(id<<8|uint64(k)|1<<60, size) }
		a.Handle(func(ctx noise.HandlerContext) error {
			id, ok := payloadID(ctx.Data())
			o, known := byID[id]
			if !ok || !known {
				e.Fail("the handler got %d bytes nobody sent", len(ctx.Data()))
				return nil
			}
			if d := diff(ctx.Data(), payload(id, o.Size)); d != "" {
				e.Fail("the handler got a message of a peer with %s", d)
			}
			mu.Lock()
			d := delivered[id]
			if d == nil {
				d = &delivery{}
				delivered[id] = d
			}
			d.n++
			d.req = ctx.IsRequest()
			d.port = ctx.ID().Port
			mu.Unlock()
			answer := func() {
				n := 0
				switch o.Kind {
				case 3:
					n = 1
				case 4:
					n = o.N
				}
				for k := 0; k < n; k++ {
					if err := ctx.Send(reply(id, k, o.RSize)); err != nil {
						e.Fail("an answer failed: %v", err)
					}
				}
			}
			if o.Delay > 0 && o.Kind >= 3 {
				go func() {
					time.Sleep(time.Duration(o.Delay) * time.Millisecond)
					answer()
				}()
				return nil
			}
			answer()
			return nil
		})
		if !e.Listen(a) {
			return
		}
		self := a.ID()
		host, port := net.ParseIP("::"), uint16(6050)
		if p.Addr > 0 {
			t, _ := net.ResolveTCPAddr("tcp", c33Addrs[p.Addr])
			host, port = t.IP, uint16(t.Port)
		}
		wantID := wire.Identity{Pub: self.ID[:], Host: host, Port: port}.Bytes()

		// Peers.
		sess := make([]*wire.Session, len(p.Conns))
		ready := make([]chan bool, len(p.Conns))
		frames := make([][]c33Frame, len(p.Conns))
		finish := make([]error, len(p.Conns))
		conns := make([]int, len(p.Conns))
		type held struct {
			i int
			n uint64
			b []byte
		}
		var hold []held
		send := func(i int, n uint64, b []byte) {
			sess[i].Send(n, b)
		}
		ident := func(i int) wire.Identity {
			id := peerIdent(i, 6100+i)
			if p.Conns[i].V6 {
				id.Host = net.ParseIP(fmt.Sprintf("2001:db8::%d", i+1))
			}
			return id
		}
		serve := func(i int, cn net.Conn) {
			cc := &coal{Conn: cn, sem: make(chan struct{}, 1), d: time.Duration(p.Conns[i].Coal) * time.Millisecond}
			s, err := wire.HandshakeThen(cc, ident(i), func(s *wire.Session) {
				for j, o := range p.Ops { // as if what followed the handshake arrived together with it
					if o.Conn == i && early(p, o) {
						n := uint64(0)
						if o.Kind == 3 {
							n = o.Number
						}
						s.Send(n, payload(uint64(j)+1000, o.Size))
					}
				}
			})
			if err != nil {
				e.Fail("the handshake of a node with a peer speaking the protocol failed: %v", err)
				close(ready[i])
				return
			}
			if !bytes.Equal(s.Peer, wantID) {
				e.Fail("the node presents its identity as %x instead of %x", s.Peer, wantID)
			}
			sess[i] = s
			ready[i] <- true
			close(ready[i])
			pending := map[uint64]bool{}
			for {
				n, b, err := s.Recv()
				if err != nil {
					mu.Lock()
					finish[i] = err
					mu.Unlock()
					return
				}
				mu.Lock()
				frames[i] = append(frames[i], c33Frame{n, b})
				if n != 0 && !p.Conns[i].In {
					if pending[n] {
						e.Fail("two requests waiting at once have the same number %d", n)
					}
					pending[n] = true
				}
				mu.Unlock()
				id, _ := payloadID(b)
				o, known := byID[id]
				if n != 0 && known && o.Kind == 1 {
					if p.Hold {
						mu.Lock()
						hold = append(hold, held{i, n, reply(id, 0, o.RSize)})
						mu.Unlock()
						continue
					}
					go func() {
						time.Sleep(time.Duration(o.Delay) * time.Millisecond)
						mu.Lock()
						delete(pending, n)
						mu.Unlock()
						send(i, n, reply(id, 0, o.RSize))
					}()
				}
			}
		}
		wantDials := 0
		for i, k := range p.Conns {
			ready[i] = make(chan bool, 1)
			if k.In {
				cn, err := e.Net.DialFrom(context.Background(), "127.0.0.1:6050", k.Link.policy(), k.Link.policy())
				if err != nil {
					e.Fail("the node is not reachable: %v", err)
					return
				}
				conns[i]++
				go serve(i, cn)
				continue
			}
			l, err := e.Net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", 6100+i))
			if err != nil {
				panic(err)
			}
			e.Defer(func() { l.Close() })
			go func() {
				for {
					cn, err := l.Accept()
					if err != nil {
						return
					}
					mu.Lock()
					conns[i]++
					again := conns[i] > 1
					mu.Unlock()
					if again {
						e.Fail("the node opened another connection to a connected peer")
						cn.Close()
						return
					}
					go serve(i, cn)
				}
			}()
			used := false
			for _, o := range p.Ops {
				used = used || o.Conn == i
			}
			if !used {
				close(ready[i])
				continue
			}
			wantDials++
			var cl *noise.Client
			if !e.Within(time.Minute, func() { cl, err = a.Ping(context.Background(), l.Addr().String()) }) {
				e.Hang("Ping does not return")
				return
			}
			if err != nil {
				e.Fail("a peer speaking the protocol was not accepted: %v", err)
				return
			}
			if want := noiseID(ident(i)); !sameID(cl.ID(), want) {
				e.Fail("the peer is known as %s instead of %s", idStr(cl.ID()), idStr(want))
			}
		}
		for i := range p.Conns {
			ok := false
			if !e.Within(time.Minute, func() { ok = <-ready[i] }) {
				e.Hang("the handshake of a peer does not end")
				return
			}
			if !ok && e.Failed() {
				return
			}
		}
		if e.Failed() {
			return
		}
		// Operations.
		var wg sync.WaitGroup
		both := [2]bool{}
		for i, o := range p.Ops {
			id := uint64(i) + 1000
			both[o.Kind/2&1] = true
			if o.Kind == 4 {
				both[0], both[1] = true, true
			}
			if early(p, o) {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(o.At) * time.Millisecond)
				addr := fmt.Sprintf("127.0.0.1:%d", 6100+o.Conn)
				ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
				defer cancel()
				switch o.Kind {
				case 0:
					if err := a.Send(ctx, addr, payload(id, o.Size)); err != nil {
						e.Fail("Send failed: %v", err)
					}
				case 1:
					b, err := a.Request(ctx, addr, payload(id, o.Size))
					if err != nil {
						e.Fail("Request failed: %v", err)
					} else if d := diff(b, reply(id, 0, o.RSize)); d != "" {
						e.Fail("the reply of a peer was returned with %s", d)
					}
				case 2, 4:
					send(o.Conn, 0, payload(id, o.Size))
				case 3:
					send(o.Conn, o.Number, payload(id, o.Size))
				}
			}()
		}
		if p.Hold {
			time.Sleep(30 * time.Second)
			e.Settle()
			mu.Lock()
			h := hold
			hold = nil
			mu.Unlock()
			for k := len(h) - 1; k >= 0; k-- {
				send(h[k].i, h[k].n, h[k].b)
			}
		}
		if !e.Within(11*time.Minute, wg.Wait) {
			e.Hang("operations do not end")
			return
		}
		time.Sleep(time.Minute) // whatever else might come
		e.Settle()
		if !e.Within(time.Minute, func() { a.Close() }) {
			e.Hang("Close does not return")
			return
		}
		e.Settle()
		time.Sleep(time.Minute)
		e.Settle()

		// What each peer got.
		mu.Lock()
		defer mu.Unlock()
		for i, k := range p.Conns {
			if sess[i] == nil {
				continue
			}
			if finish[i] == nil || finish[i].Error() != "EOF" {
				e.Fail("the last frame on a connection is followed by %v", finish[i])
			}
			type key struct {
				n uint64
				b string
			}
			want := map[key]int{}
			reqs := map[string]int{}
			total := 0
			for j, o := range p.Ops {
				if o.Conn != i {
					continue
				}
				id := uint64(j) + 1000
				switch o.Kind {
				case 0:
					want[key{0, string(payload(id, o.Size))}]++
					total++
				case 1:
					reqs[string(payload(id, o.Size))]++
					total++
				case 3:
					want[key{o.Number, string(reply(id, 0, o.RSize))}]++
					total++
				case 4:
					for x := 0; x < o.N; x++ {
						want[key{0, string(reply(id, x, o.RSize))}]++
						total++
					}
				}
			}
			for _, f := range frames[i] {
				if f.n != 0 && !k.In {
					if reqs[string(f.b)] == 0 {
						e.Fail("the peer got a request of %d bytes nobody made", len(f.b))
					}
					reqs[string(f.b)]--
					continue
				}
				kk := key{f.n, string(f.b)}
				if want[kk] == 0 {
					e.Fail("the peer got a frame with number %d and %d bytes that nothing asked for", f.n, len(f.b))
				}
				want[kk]--
			}
			if len(frames[i]) != total {
				e.Fail("the peer got %d frames instead of %d", len(frames[i]), total)
			}
			for j, o := range p.Ops {
				if o.Conn != i || o.Kind < 2 {
					continue
				}
				id := uint64(j) + 1000
				d := delivered[id]
				if d == nil || d.n != 1 {
					e.Fail("a message of a peer was not handled once")
					continue
				}
				if d.req != (o.Kind == 3) {
					e.Fail("a frame with number %d was handled as request: %v", map[bool]uint64{true: o.Number}[o.Kind == 3], d.req)
				}
				if d.port != uint16(6100+i) {
					e.Fail("a message was handled as coming from port %d instead of %d", d.port, 6100+i)
				}
			}
		}
		if n := len(e.Net.Dials()); n != wantDials {
			e.Fail("the node opened %d connections instead of %d", n, wantDials)
		}
		if both[0] && both[1] {
			e.NonTrivial()
		}
		for _, k := range p.Conns {
			e.Label("in:%v coalesced:%v v6:%v", k.In, k.Coal > 0, k.V6)
		}
	})
}
