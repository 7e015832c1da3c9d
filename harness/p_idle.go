package main

import (
	"context"
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
	"verifharness/wire"
)

// C14: idle connections time out, busy ones never do.

type c14Ev struct {
	Gap    int  // permille of the (shorter) timeout since the event before
	Accept bool // from the accepting side
	Req    bool
	Size   int
	N      int
}

type c14Pair struct {
	DialNoise, AccNoise bool
	TD, TA              int // timeouts in ms (0 none, -1 not configured)
	LatPm               int // latency in permille of the timeout
	Frag                int
	Evs                 []c14Ev
	End                 int // 0 silence, 1 the peer stops reading, 2 a request is never answered, 3 stalled handshake, 4 a message that drips in and never ends
	Hello               bool
	Slow                int // permille of the timeout each handler of the acceptor takes (one worker)
	LongH               int // hours of silence if there is no timeout
}

type c14Plan struct {
	Pairs []c14Pair
}

func (p c14Pair) eff() time.Duration {
	t := 0
	if p.DialNoise && p.TD > 0 {
		t = p.TD
	}
	if p.AccNoise && p.TA > 0 && (t == 0 || p.TA < t) {
		t = p.TA
	}
	return time.Duration(t) * time.Millisecond
}

func init() {
	register(&Prop{ID: "C14", Quick: 4000, Thorough: 120000, Rule: "One to three pairs of peers, of which one or both are noise nodes with timeouts from 20 ms to hours, none, or not configured. Up to forty messages and requests in generated directions with gaps of up to six tenths of the timeout, latencies up to a tenth of it, then a silence, a peer that stops reading, a request without an answer, a message that arrives in bits and never as a whole, or no handshake to begin with. Deliveries, the number of connections and the instant at which the connection closes are compared with the timeout. Non-trivial: the connection was kept busy for longer than the timeout.",
		Assume: []string{"The timeout runs from the last message read or written by the node, and the instant of closing may be up to three tenths of the timeout late.", "The undocumented absence of the default timeout is a listed finding."}},
		func(s *gen.S) c14Plan {
			var p c14Plan
			for k := s.Range(1, 3); k > 0; k-- {
				x := c14Pair{DialNoise: true, AccNoise: true, LatPm: gen.Pick(s, 0, 0, 50, 100), Frag: gen.Pick(s, 0, 0, 10, 1000), LongH: s.Range(1, 100)}
				switch s.Intn(3) {
				case 0:
					x.DialNoise = false
				case 1:
					x.AccNoise = false
				}
				t := gen.Pick(s, 20, 100, 3000, s.Range(20, 20000), s.Range(20000, 3600_000), s.Range(3600_000, 100*3600_000))
				o := gen.Pick(s, 0, t, 3*t, t*2)
				x.TD, x.TA = t, o
				if s.Bool(50) || !x.DialNoise {
					x.TD, x.TA = o, t
				}
				if !x.AccNoise {
					x.TD, x.TA = t, 0
				}
				if s.Bool(10) {
					x.TD, x.TA = 0, 0
				} else if s.Bool(5) {
					x.TD, x.TA, x.LatPm = -1, -1, 0
				}
				dir := s.Intn(3)
				n := gen.Pick(s, 0, s.Intn(10), s.Intn(40))
				for k := 0; k < n && x.TD >= 0; k++ {
					v := c14Ev{Gap: gen.Pick(s, 600, 0, s.Intn(600), 500+s.Intn(100)), Size: gen.Pick(s, 8, 8, s.Intn(200), s.Intn(20000)), N: gen.Pick(s, 1, 1, 1, s.Range(1, 5))}
					v.Accept = dir == 1 || (dir == 2 && s.Bool(50))
					v.Req = s.Bool(25) && dir == 2
					x.Evs = append(x.Evs, v)
				}
				x.End = s.Weighted(10, 2, 2, 2, 3)
				x.Hello = s.Bool(50)
				if x.TD < 0 || x.TD+x.TA == 0 {
					x.End = 0
				}
				for k := range x.Evs {
					if x.End == 1 { // the window of such a connection is small
						x.Evs[k].Size, x.Evs[k].N = 8, 1
					}
				}
				if x.AccNoise && s.Bool(10) {
					x.Slow = gen.Pick(s, 300, 1500, s.Intn(2000))
				}
				p.Pairs = append(p.Pairs, x)
			}
			return p
		}, runC14)
}

func runC14(c *C, p c14Plan) {
	Bubble(c, func(e *Env) {
		var fs []func()
		for i, x := range p.Pairs {
			fs = append(fs, func() { c14Run(e, i, x) })
		}
		lat := map[string]policy{}
		for i, x := range p.Pairs {
			pol := policy{Latency: x.eff() * time.Duration(x.LatPm) / 1000, Frag: x.Frag}
			if x.End == 1 {
				pol.Window = 3000
			}
			lat[fmt.Sprint(":", 7000+i)] = pol
		}
		e.Net.OnConn = func(d *dialRec) (policy, policy) {
			_, port, _ := net.SplitHostPort(d.Addr)
			return lat[":"+port], lat[":"+port]
		}
		All(fs...)
	})
}

// c14Side is what is known of one side of the pair.
type c14Side struct {
	mu    sync.Mutex
	got   map[uint64]int
	bad   string
	reply func([]byte) error // sends on the connection from the accepting side
}

func (s *c14Side) see(b []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	id, ok := payloadID(b)
	if !ok || diff(b, payload(id, len(b))) != "" {
		s.bad = "a message arrived altered"
		return
	}
	s.got[id]++
}

func c14Run(e *Env, idx int, p c14Pair) {
	T := p.eff()
	lat := T * time.Duration(p.LatPm) / 1000
	port := 7000 + idx
	addr := fmt.Sprintf("127.0.0.1:%d", port)
	opts := func(t int, workers uint) []noise.NodeOption {
		o := []noise.NodeOption{noise.WithNodeNumWorkers(workers), noise.WithNodeMaxDialAttempts(1)}
		if t >= 0 {
			o = append(o, noise.WithNodeIdleTimeout(time.Duration(t)*time.Millisecond))
		}
		return o
	}
	d, a := &c14Side{got: map[uint64]int{}}, &c14Side{got: map[uint64]int{}}
	var accepted int
	var conn *vconn // the accepting end
	var mu sync.Mutex
	stopRead := make(chan struct{})
	var stop sync.Once
	var dn, an *noise.Node
	slow := T * time.Duration(p.Slow) / 1000
	var nodes []*noise.Node
	var wmu sync.Mutex
	if p.AccNoise {
		w := uint(8)
		if p.Slow > 0 {
			w = 1
		}
		an = e.Node(append(opts(p.TA, w), noise.WithNodeBindHost(net.IPv4(127, 0, 0, 1)), noise.WithNodeBindPort(uint16(port)))...)
		an.Handle(func(ctx noise.HandlerContext) error {
			a.mu.Lock()
			if a.reply == nil && !ctx.IsRequest() {
				a.reply = func(b []byte) error { return ctx.Send(b) }
			}
			a.mu.Unlock()
			a.see(ctx.Data())
			if slow > 0 {
				time.Sleep(slow)
			}
			if ctx.IsRequest() {
				ctx.Send([]byte("ok"))
			}
			return nil
		})
		if !e.Listen(an) {
			return
		}
		nodes = append(nodes, an)
	} else {
		l, err := e.Net.Listen("tcp", addr)
		if err != nil {
			panic(err)
		}
		e.Defer(func() { l.Close() })
		go func() {
			for {
				cn, err := l.Accept()
				if err != nil {
					return
				}
				mu.Lock()
				accepted++
				mu.Unlock()
				go func() {
					s, err := wire.Handshake(cn, peerIdent(900+idx, port))
					if err != nil {
						return
					}
					a.mu.Lock()
					if a.reply == nil {
						a.reply = func(b []byte) error { wmu.Lock(); defer wmu.Unlock(); return s.Send(0, b) }
					}
					a.mu.Unlock()
					c14Read(s, a, &wmu, stopRead)
				}()
			}
		}()
	}
	t0 := e.Net.Now()
	var dialSend func(req bool, b []byte) error
	var ds *wire.Session
	if p.DialNoise {
		dn = e.Node(opts(p.TD, 8)...)
		dn.Handle(func(ctx noise.HandlerContext) error {
			d.see(ctx.Data())
			if ctx.IsRequest() {
				ctx.Send([]byte("ok"))
			}
			return nil
		})
		if !e.Listen(dn) {
			return
		}
		nodes = append(nodes, dn)
		dialSend = func(req bool, b []byte) error {
			if req {
				_, err := dn.Request(context.Background(), addr, b)
				return err
			}
			return dn.Send(context.Background(), addr, b)
		}
		if p.End == 3 { // the acceptor is the one that stalls
			l, err := e.Net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port+100))
			if err != nil {
				panic(err)
			}
			e.Defer(func() { l.Close() })
			go func() {
				cn, err := l.Accept()
				if err == nil && p.Hello {
					cn.Write(wire.Frame(wire.Hello(wire.GenEph())))
				}
			}()
			if p.TD > 0 {
				var err error
				lim := time.Duration(p.TD) * time.Millisecond
				if !e.Within(lim*4+time.Second, func() { _, err = dn.Ping(context.Background(), l.Addr().String()) }) {
					e.Hang("a stalled handshake of a node with an idle timeout goes on")
					return
				}
				if err == nil {
					e.Fail("a stalled handshake succeeded")
				}
				if took := e.Net.Now() - t0; took < lim || took > lim*13/10*2 {
					e.Fail("a stalled handshake was given up after %v, the timeout being %v", took, lim)
				}
			}
		}
		var err error
		if !e.Within(time.Hour+20*lat, func() { _, err = dn.Ping(context.Background(), addr) }) {
			e.Hang("a ping does not end")
			return
		}
		if err != nil {
			e.Fail("an honest ping failed: %v", err)
			return
		}
	} else {
		cn, err := e.Net.DialFrom(context.Background(), addr, policyOf(p, lat), policyOf(p, lat))
		if err != nil {
			panic(err)
		}
		if p.End == 3 {
			if p.Hello {
				cn.Write(wire.Frame(wire.Hello(wire.GenEph())))
			}
			if p.TA <= 0 {
				return
			}
			lim := time.Duration(p.TA) * time.Millisecond
			time.Sleep(lim*14/10 + lat + time.Millisecond)
			e.Settle()
			at, ok := cn.Peer().ClosedAt()
			if !ok {
				e.Fail("a connection without a handshake is open after %v, the timeout being %v", e.Net.Now()-t0, lim)
			} else if at-t0 < lim {
				e.Fail("a connection without a handshake was closed after %v, the timeout being %v", at-t0, lim)
			}
			if n := len(an.Inbound()); n != 0 {
				e.Fail("%d connections are listed after the timeout", n)
			}
			return
		}
		s, err := wire.Handshake(cn, peerIdent(950+idx, port+500))
		if err != nil {
			e.Fail("an honest handshake failed: %v", err)
			return
		}
		ds = s
		go c14Read(s, d, &wmu, stopRead)
		dialSend = func(req bool, b []byte) error {
			wmu.Lock()
			defer wmu.Unlock()
			if req {
				ds.Send(1000000, b)
				return nil
			}
			return ds.Send(0, b)
		}
	}
	time.Sleep(lat)
	e.Settle()
	for _, cn := range e.Net.Conns() {
		if cn.RemoteAddr().String() == addr {
			conn = cn.Peer()
		}
	}
	var id uint64
	sentA, sentD := 0, 0
	var last time.Duration
	last = e.Net.Now()
	first := last
	send := func(v c14Ev) bool {
		for k := 0; k < max(1, v.N); k++ {
			id++
			b := payload(id, v.Size)
			var err error
			if v.Accept {
				a.mu.Lock()
				f := a.reply
				a.mu.Unlock()
				if f == nil {
					e.Fail("the first message did not arrive")
					return false
				}
				sentA++
				err = f(b)
			} else {
				sentD++
				req := v.Req && p.Slow == 0
				if req && p.DialNoise {
					go func() {
						if err := dialSend(true, b); err != nil {
							e.Fail("a request on a busy connection failed: %v", err)
						}
					}()
				} else {
					err = dialSend(req, b)
				}
			}
			if err != nil {
				e.Fail("a send on a busy connection failed: %v", err)
				return false
			}
		}
		last = e.Net.Now()
		return true
	}
	gap := T
	if T == 0 {
		gap = time.Minute
	}
	check := func() bool {
		if e.Failed() {
			return false
		}
		n := 0
		for _, cn := range e.Net.Conns() {
			if cn.RemoteAddr().String() == addr {
				n++
			}
		}
		if n != 1 {
			e.Fail("%d connections were made although the first one was busy", n)
			return false
		}
		if conn.Closed() || conn.Peer().Closed() {
			e.Fail("a connection was closed %v after the last message, the timeout being %v", e.Net.Now()-last, T)
			return false
		}
		return true
	}
	// The first message makes the connection known to the handler of an accepting node.
	if !send(c14Ev{Size: 8, N: 1}) {
		return
	}
	time.Sleep(lat)
	e.Settle()
	for _, v := range p.Evs {
		time.Sleep(gap * time.Duration(v.Gap) / 1000)
		if !check() || !send(v) {
			return
		}
	}
	if last-first > gap {
		e.NonTrivial()
	}
	time.Sleep(2*lat + gap/20)
	if !check() {
		return
	}
	if p.Slow > 0 { // handlers and the reader finish first
		time.Sleep(slow * time.Duration(sentD+1))
	}
	e.Settle()
	for _, s := range []*c14Side{d, a} {
		s.mu.Lock()
		n := sentA
		if s == a {
			n = sentD
		}
		if s.bad != "" {
			e.Fail("%s", s.bad)
		}
		if len(s.got) != n {
			e.Fail("%d of %d messages of a busy connection arrived", len(s.got), n)
		}
		for _, k := range s.got {
			if k != 1 {
				e.Fail("a message arrived %d times", k)
			}
		}
		s.mu.Unlock()
	}
	if e.Failed() {
		return
	}
	noiseEnds := func() []*vconn {
		var x []*vconn
		if p.AccNoise {
			x = append(x, conn)
		}
		if p.DialNoise {
			x = append(x, conn.Peer())
		}
		return x
	}
	alive := func() bool {
		for _, n := range noiseEnds() {
			if n.Closed() {
				return false
			}
		}
		return true
	}
	listed := func() int {
		n := 0
		for _, x := range nodes {
			n += len(x.Inbound()) + len(x.Outbound())
		}
		return n
	}
	switch {
	case p.TD < 0: // not configured
		time.Sleep(time.Minute)
		e.Settle()
		ok, open := false, true
		for _, n := range noiseEnds() {
			if at, closed := n.ClosedAt(); closed {
				open = false
				idle := (at - last).Seconds()
				ok = ok || (idle >= 2.99 && idle < 4) || (idle >= 9.99 && idle < 13)
			}
		}
		if open {
			e.Known("default-timeout", "a node without a configured idle timeout keeps an idle connection open")
		} else if !ok {
			e.Fail("a connection of a node without a configured idle timeout was closed at an odd time")
		}
		e.Label("default timeout")
		return
	case T == 0:
		time.Sleep(time.Duration(p.LongH) * time.Hour)
		last = e.Net.Now()
		if !check() {
			return
		}
		send(c14Ev{Size: 8, N: 1})
		send(c14Ev{Size: 8, N: 1, Accept: true})
		time.Sleep(time.Second + slow)
		e.Settle()
		a.mu.Lock()
		d.mu.Lock()
		if len(a.got) != sentD || len(d.got) != sentA {
			e.Fail("a message sent after %d hours without timeout did not arrive", p.LongH)
		}
		d.mu.Unlock()
		a.mu.Unlock()
		check()
		e.Label("no timeout")
		return
	}
	begin := last
	upper := 13 * T / 10
	switch {
	case p.End == 1 && p.DialNoise != p.AccNoise:
		stop.Do(func() { close(stopRead) })
		time.Sleep(T / 5)
		begin = e.Net.Now()
		for k := 0; k < 4; k++ {
			if p.DialNoise {
				dn.Send(context.Background(), addr, payload(1, 20000))
			} else {
				a.reply(payload(1, 20000))
			}
		}
		// Nothing is read, and the write never ends.
		begin, last = last, begin
		e.Label("stuck writer")
	case p.End == 2 && p.DialNoise && !p.AccNoise:
		time.Sleep(T / 5)
		last = e.Net.Now()
		begin = last
		stop.Do(func() { close(stopRead) })
		var err error
		if !e.Within(10*T+time.Minute, func() { _, err = dn.Request(context.Background(), addr, payload(1, 10)) }) {
			e.Hang("a request on a connection that timed out does not end")
			return
		}
		if err == nil {
			e.Fail("a request without an answer succeeded")
			return
		}
		e.Label("unanswered request")
	case p.End == 4 && p.DialNoise != p.AccNoise:
		raw := conn
		if p.AccNoise {
			raw = conn.Peer()
		}
		go func() {
			for k := 0; k < 10; k++ {
				b := make([]byte, 4500)
				if k == 0 {
					b[1] = 1 // 65 kB are announced
				}
				if _, err := raw.Write(b); err != nil {
					return
				}
				time.Sleep(4 * T / 10)
			}
		}()
		e.Label("dripping message")
	default:
		e.Label("silence")
	}
	if p.Slow > 0 {
		upper += slow * time.Duration(sentD+1)
	}
	time.Sleep(last + upper + 2*lat + 20*time.Millisecond - e.Net.Now())
	e.Settle()
	if alive() {
		e.Fail("a connection is still open %v after the last message, the timeout being %v", e.Net.Now()-last, T)
		return
	}
	for _, n := range noiseEnds() {
		if at, ok := n.ClosedAt(); ok && at-begin < T-time.Millisecond {
			e.Fail("a connection was closed %v after the last message, the timeout being %v", at-begin, T)
			return
		}
	}
	time.Sleep(lat + time.Millisecond)
	e.Settle()
	if n := listed(); n != 0 {
		e.Fail("%d connections are listed after the timeout", n)
		return
	}
	// The next use works again.
	if p.DialNoise && p.AccNoise && p.Slow == 0 {
		id++
		sentD++
		if err := dn.Send(context.Background(), addr, payload(id, 8)); err != nil {
			e.Fail("a send after a timeout failed: %v", err)
		}
		time.Sleep(lat*4 + time.Millisecond)
		e.Settle()
		a.mu.Lock()
		if len(a.got) != sentD {
			e.Fail("a message sent after a timeout did not arrive")
		}
		a.mu.Unlock()
	}
}

func policyOf(p c14Pair, lat time.Duration) policy {
	pol := policy{Latency: lat, Frag: p.Frag}
	if p.End == 1 {
		pol.Window = 3000
	}
	return pol
}

func c14Read(s *wire.Session, side *c14Side, wmu *sync.Mutex, stop chan struct{}) {
	for {
		n, b, err := s.Recv()
		if err != nil {
			return
		}
		select {
		case <-stop:
			return // never reads again, and never answers
		default:
		}
		if n == 1000000 {
			continue
		}
		side.see(b)
		if n != 0 {
			wmu.Lock()
			s.Send(n, []byte("ok"))
			wmu.Unlock()
		}
	}
}
