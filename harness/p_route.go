package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"

	"verifharness/gen"
	"verifharness/vnet"
	"verifharness/wire"
)

// C26: routing requests are answered correctly and their encodings are exact.

type c26Req struct {
	Kind   int // c26*
	Conn   int
	Target tkey
	N      int // length of malformed contents, or trailing bytes
	Seed   int
}

const (
	c26Ping = iota
	c26Find
	c26PlainPing
	c26PlainFind
	c26ShortFind  // contents of the wrong length
	c26Stray      // pongs and responses that nobody asked for, as messages and requests
	c26Unknown    // unknown number
	c26Grow       // further entries are put into the table
	c26FindSelf   // target is the node or the requester
	c26FindKnown  // target is an entry
	c26Concurrent // several requests at once
	c26Kinds
)

type c26Call struct {
	Reply   int // see runC26
	DelayMs int
	DeadMs  int
	Seed    int
}

type c26Plan struct {
	Enc   []c26Enc
	Link  Link
	Owner []byte // private key seed
	Pool  []tkey
	Types int // registered before
	Conns int
	Reqs  []c26Req
	Calls []c26Call
}

type c26Enc struct {
	N    int
	Seed int
	Cut  int
	Raw  []byte // decoded as it is
}

func init() {
	register(&Prop{ID: "C26", Quick: 3000, Thorough: 80000, Rule: "Three parts. Encodings: find-node responses of 0 to 255 generated identities (IPv4, IPv6, no host), requests, their truncations at every generated place and arbitrary bytes, against an independent codec, with the buffer overwritten afterwards. Requests: a node whose table holds generated entries crowded around few distances is sent pings, find-node requests for generated, known, own and the requester's keys, singly and concurrently, malformed ones, stray answers and plain messages over several connections of independent peers; answers are compared with sorting the table exhaustively. Calls: a ping call against peers that answer rightly, late, wrongly, with rubbish, under a wrong number, twice, or not at all. Non-trivial: a find-node request against a table of more than sixteen entries, or a plain request, or a ping call answered wrongly or late.",
		Assume: []string{"Bytes after a complete find-node response, and contents of pings and pongs, are ignored."}},
		func(s *gen.S) c26Plan {
			p := c26Plan{Link: genLink(s), Owner: s.Bytes(32), Types: gen.Pick(s, 0, 0, s.Intn(4)), Conns: s.Range(1, 3)}
			for k := s.Intn(4); k > 0; k-- {
				c := c26Enc{N: gen.Pick(s, 0, 1, 16, 255, s.Intn(256)), Seed: s.Seed(), Cut: s.Intn(1 << 20)}
				c.Raw = s.Bytes(gen.Pick(s, 0, 1, 2, s.Intn(60), s.Intn(200), 31, 32, 33, 51, 50))
				if len(c.Raw) > 0 && s.Bool(70) {
					c.Raw[0] = byte(gen.Pick(s, 0, 1, 2, s.Intn(5)))
				}
				p.Enc = append(p.Enc, c)
			}
			p.Pool = genPool(s, gen.Pick(s, 3, 16, 17, 40, 80))
			for k := s.Range(1, 12); k > 0; k-- {
				r := c26Req{Kind: s.Weighted(4, 8, 1, 1, 2, 2, 1, 1, 1, 2, 2), Conn: s.Intn(p.Conns), Seed: s.Seed(), N: gen.Pick(s, 31, 33, 0, 1, s.Intn(70))}
				r.Target = tkey{Prefix: gen.Pick(s, p.Pool...).Prefix, Seed: s.Seed()}
				if s.Bool(40) {
					r.Target.Prefix = s.Intn(257)
				}
				p.Reqs = append(p.Reqs, r)
			}
			for k := s.Intn(4); k > 0; k-- {
				d := gen.Pick(s, 1500, 3000, 10000, 0)
				p.Calls = append(p.Calls, c26Call{Reply: s.Intn(14), DeadMs: d, DelayMs: gen.Pick(s, 0, 0, 100, max(d-700, 0), d+500), Seed: s.Seed()})
			}
			return p
		}, runC26)
}

func c26ids(seed uint64, n int) []noise.ID {
	r := gen.NewRand(seed)
	var ids []noise.ID
	for i := 0; i < n; i++ {
		var k noise.PublicKey
		copy(k[:], gen.Expand(r.Uint64(), 32))
		var h net.IP
		switch r.Intn(4) {
		case 0:
			h = net.IP(gen.Expand(r.Uint64(), 4))
		case 1:
			h = net.IP(gen.Expand(r.Uint64(), 16))
		case 2:
			h = net.IP(gen.Expand(r.Uint64(), 4)).To16()
		case 3:
			h = gen.Pick(gen.New(int64(r.Uint64()), "", 0, 1), net.IPv6loopback, net.IPv4zero, net.IPv6unspecified, net.IPv4(127, 0, 0, 1))
		}
		ids = append(ids, noise.NewID(k, h, uint16(r.Intn(65536))))
	}
	return ids
}

func c26encode(ids []noise.ID) []byte {
	b := []byte{byte(len(ids))}
	for _, i := range ids {
		b = append(b, i.ID[:]...)
		h := make([]byte, 16)
		if i.Host != nil {
			copy(h, i.Host.To16())
		}
		b = append(b, h...)
		b = binary.BigEndian.AppendUint16(b, i.Port)
	}
	return b
}

// c26decode is an independent decoder of find-node responses.
func c26decode(b []byte) ([]noise.ID, bool) {
	if len(b) < 1 || len(b) < 1+50*int(b[0]) {
		return nil, false
	}
	n := int(b[0])
	b = b[1:]
	var ids []noise.ID
	for i := 0; i < n; i++ {
		var k noise.PublicKey
		copy(k[:], b[:32])
		ids = append(ids, noise.NewID(k, append(net.IP{}, b[32:48]...), binary.BigEndian.Uint16(b[48:])))
		b = b[50:]
	}
	return ids, true
}

func c26codec(c *C, q c26Enc) {
	ids := c26ids(uint64(q.Seed), q.N)
	keep := append([]noise.ID{}, ids...)
	got := kademlia.FindNodeResponse{Results: ids}.Marshal()
	want := c26encode(keep)
	if d := diff(got, want); d != "" {
		c.Fail("a response with %d identities is encoded wrongly: %s", q.N, d)
		return
	}
	check := func(b []byte, what string) {
		in := cp(b)
		r, err := kademlia.UnmarshalFindNodeResponse(in)
		ref, ok := c26decode(b)
		if ok != (err == nil) {
			c.Fail("decoding %s (%d bytes): error %v, but it is well-formed: %v", what, len(b), err, ok)
			return
		}
		if !ok {
			if !errors.Is(err, io.ErrUnexpectedEOF) {
				c.Fail("decoding %s fails with %v", what, err)
			}
			if len(r.Results) > 0 {
				c.Fail("decoding %s fails, yet gives %d identities", what, len(r.Results))
			}
			return
		}
		if !bytes.Equal(in, b) {
			c.Fail("decoding %s changed its input", what)
		}
		for i := range in {
			in[i] ^= 0x5a
		}
		if !sameIDs(r.Results, ref) {
			c.Fail("decoding %s gives %d identities that differ from the %d encoded", what, len(r.Results), len(ref))
		}
	}
	check(want, "a response")
	check(want[:q.Cut%len(want)], "a response cut short")
	check(append(cp(want), q.Raw...), "a response with bytes behind it")
	check(q.Raw, "arbitrary bytes")
	req, err := kademlia.UnmarshalFindNodeRequest(q.Raw)
	if (err == nil) != (len(q.Raw) == 32) {
		c.Fail("decoding a find-node request of %d bytes: %v", len(q.Raw), err)
	} else if err == nil {
		if !bytes.Equal(req.Target[:], q.Raw) || !bytes.Equal(req.Marshal(), q.Raw) {
			c.Fail("find-node request does not round-trip")
		}
	} else if !errors.Is(err, io.ErrUnexpectedEOF) {
		c.Fail("decoding a find-node request of %d bytes fails with %v", len(q.Raw), err)
	}
	if b := (kademlia.Ping{}).Marshal(); len(b) != 0 {
		c.Fail("a ping has %d bytes", len(b))
	}
	if b := (kademlia.Pong{}).Marshal(); len(b) != 0 {
		c.Fail("a pong has %d bytes", len(b))
	}
	if _, err := kademlia.UnmarshalPing(nil); err != nil {
		c.Fail("a ping does not decode: %v", err)
	}
	if _, err := kademlia.UnmarshalPong(nil); err != nil {
		c.Fail("a pong does not decode: %v", err)
	}
}

// c26peer is a wire peer that collects what it is sent.
type c26peer struct {
	s    *wire.Session
	conn *vnet.Conn
	mu   sync.Mutex
	got  map[uint64][][]byte
	dead bool // it sent a plain request
	next uint64
}

func (p *c26peer) collect() {
	for {
		n, d, err := p.s.Recv()
		if err != nil {
			return
		}
		p.mu.Lock()
		p.got[n] = append(p.got[n], d)
		p.mu.Unlock()
	}
}

func (p *c26peer) replies(n uint64) [][]byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.got[n]
}

func runC26(c *C, p c26Plan) {
	for _, q := range p.Enc {
		c26codec(c, q)
		if c.Failed() {
			return
		}
	}
	if len(p.Enc) > 0 {
		c.Label("encodings")
	}
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		key := wire.NewIdentity(p.Owner, net.IPv4(127, 0, 0, 1), 1)
		var priv noise.PrivateKey
		copy(priv[:], key.Priv)
		n := e.Node(noise.WithNodePrivateKey(priv), noise.WithNodeNumWorkers(2))
		reg := []func(){
			func() { n.RegisterMessage(x0{}, func([]byte) (x0, error) { return x0{}, nil }) },
			func() { n.RegisterMessage(x1{}, func([]byte) (x1, error) { return x1{}, nil }) },
			func() { n.RegisterMessage(x2{}, func([]byte) (x2, error) { return x2{}, nil }) },
		}
		for i := 0; i < p.Types; i++ {
			reg[i]()
		}
		op := func(k int, data ...byte) []byte { return append([]byte{0, byte(k + p.Types)}, data...) }
		kad := kademlia.New(kademlia.WithProtocolPingTimeout(time.Second))
		n.Bind(kad.Protocol())
		if !e.Listen(n) {
			return
		}
		owner := key.Pub
		add := func(k tkey) {
			if id := k.id(owner); id.ID != noise.ZeroPublicKey {
				kad.Table().Update(id)
			}
		}
		for _, k := range p.Pool {
			add(k)
		}
		var peers []*c26peer
		for i := 0; i < p.Conns; i++ {
			s, cn, err := e.Dial(n.Addr(), peerIdent(i+int(p.Owner[0])*8, 9500+i), p.Link.policy())
			if err != nil {
				e.Fail("a peer cannot connect: %v", err)
				return
			}
			w := &c26peer{s: s, conn: cn, got: map[uint64][][]byte{}, next: 1 << 40}
			peers = append(peers, w)
			go w.collect()
		}
		e.Settle()
		for ri, r := range p.Reqs {
			w := peers[r.Conn%len(peers)]
			if w.dead {
				continue
			}
			rnd := gen.Expand(uint64(r.Seed), r.N)
			target := r.Target.key(owner)
			w.next++
			nonce := w.next
			time.Sleep(5 * time.Second) // pings of tails end
			e.Settle()
			// answered waits for the answers to nonces and gives one each.
			answered := func(nonces ...uint64) ([][]byte, bool) {
				if !e.Wait(3*time.Minute, 100*time.Millisecond, func() bool {
					for _, x := range nonces {
						if len(w.replies(x)) == 0 {
							return false
						}
					}
					return true
				}) {
					e.Fail("request %d (kind %d) is not answered", ri, r.Kind)
					return nil, false
				}
				var out [][]byte
				for _, x := range nonces {
					a := w.replies(x)
					if len(a) != 1 {
						e.Fail("request %d (kind %d) is answered %d times", ri, r.Kind, len(a))
						return nil, false
					}
					out = append(out, a[0])
				}
				return out, true
			}
			judge := func(target noise.PublicKey, ans []byte, before []noise.ID) {
				if len(ans) < 2 || !bytes.Equal(ans[:2], op(3)) {
					e.Fail("a find-node request is answered with %x", head2(ans))
					return
				}
				got, ok := c26decode(ans[2:])
				if !ok || len(ans) != 3+50*len(got) {
					e.Fail("a find-node request is answered with a malformed response of %d bytes", len(ans))
					return
				}
				after := kad.Table().Entries()
				var both []noise.ID
				for _, i := range before {
					for _, j := range after {
						if i.ID == j.ID {
							both = append(both, i)
						}
					}
				}
				for _, ref := range [][]noise.ID{before, after, both} {
					if sameIDs(got, nearest(ref, target, 16)) {
						return
					}
				}
				e.Fail("a find-node request is answered with %d identities that are not the closest of the %d in the table", len(got), len(before))
			}
			// quiet checks that nothing was answered and that the connection still serves.
			quiet := func() {
				w.next++
				w.s.Send(w.next, op(0))
				if a, ok := answered(w.next); ok && !bytes.Equal(a[0], op(1)) {
					e.Fail("a ping is answered with %x", head2(a[0]))
				}
				if a := w.replies(nonce); len(a) > 0 {
					e.Fail("request %d (kind %d) is answered with %x", ri, r.Kind, head2(a[0]))
				}
			}
			switch r.Kind {
			case c26Ping:
				w.s.Send(nonce, append(op(0), rnd[:min(len(rnd), r.Seed%3)]...))
				if a, ok := answered(nonce); ok && !bytes.Equal(a[0], op(1)) {
					e.Fail("a ping is answered with %x", head2(a[0]))
				}
			case c26Find, c26FindSelf, c26FindKnown:
				before := kad.Table().Entries()
				switch r.Kind {
				case c26FindSelf:
					target = n.ID().ID
					if r.Seed%2 == 0 {
						copy(target[:], peerIdent(r.Conn+int(p.Owner[0])*8, 1).Pub)
					}
				case c26FindKnown:
					target = before[r.Seed%len(before)].ID
				}
				w.s.Send(nonce, op(2, target[:]...))
				if a, ok := answered(nonce); ok {
					judge(target, a[0], before)
					if len(before) > 16 {
						e.NonTrivial()
						e.Label("large table")
					}
				}
			case c26Concurrent:
				before := kad.Table().Entries()
				var nonces []uint64
				var targets []noise.PublicKey
				for k := 0; k < 2+r.Seed%6; k++ {
					w.next++
					t := tkey{Prefix: (r.Target.Prefix + k) % 257, Seed: r.Seed + k}.key(owner)
					nonces, targets = append(nonces, w.next), append(targets, t)
					w.s.Send(w.next, op(2, t[:]...))
				}
				if a, ok := answered(nonces...); ok {
					for i := range a {
						judge(targets[i], a[i], before)
					}
				}
			case c26PlainPing, c26PlainFind:
				if r.Kind == c26PlainPing {
					w.s.Send(0, op(0))
				} else {
					w.s.Send(0, op(2, target[:]...))
				}
				w.dead = true
				e.NonTrivial()
				e.Label("plain request")
				if !e.Wait(time.Minute, 100*time.Millisecond, func() bool { return w.conn.Peer().Closed() }) {
					e.Fail("a peer that sent a routing request (kind %d) as a plain message is not dropped", r.Kind)
				}
				if a := w.replies(0); len(a) > 0 {
					e.Fail("a plain routing request is answered with %x", head2(a[0]))
				}
			case c26ShortFind:
				if len(rnd) == 32 {
					rnd = rnd[:31]
				}
				w.s.Send(nonce, op(2, rnd...))
				quiet()
			case c26Stray:
				if r.Seed%3 == 0 {
					nonce = 0
				}
				if r.Seed%2 == 0 {
					w.s.Send(nonce, op(1))
				} else {
					w.s.Send(nonce, append(op(3), c26encode(c26ids(uint64(r.Seed), r.N%20))...))
				}
				quiet()
			case c26Unknown:
				w.s.Send(nonce, op(4+r.Seed%200, rnd...))
				quiet()
			case c26Grow:
				for k := 0; k < 1+r.Seed%20; k++ {
					add(tkey{Prefix: r.Target.Prefix, Seed: r.Seed + k, Addr: k % 12})
				}
			}
			if e.Failed() {
				return
			}
		}
		for _, q := range p.Calls {
			c26call(e, n, kad, q, p, op)
			if e.Failed() {
				return
			}
		}
	})
}

func c26call(e *Env, n *noise.Node, kad *kademlia.Protocol, q c26Call, p c26Plan, op func(int, ...byte) []byte) {
	me := wire.NewIdentity(gen.Expand(uint64(q.Seed), 32), net.IPv4(127, 0, 0, 1), 9700)
	conns := make(chan *vnet.Conn, 10)
	l, addr := e.Serve(func(_ int, cn *vnet.Conn) {
		s, err := wire.Handshake(cn, me)
		if err != nil {
			return
		}
		conns <- cn
		for {
			nc, d, err := s.Recv()
			if err != nil {
				return
			}
			if nc == 0 || !bytes.Equal(d, op(0)) {
				continue
			}
			time.Sleep(time.Duration(q.DelayMs) * time.Millisecond)
			switch q.Reply {
			case 0, 1:
				s.Send(nc, op(1))
			case 2:
				s.Send(nc, op(1, gen.Expand(uint64(q.Seed), q.Seed%9)...))
			case 3:
				s.Send(nc, op(0))
			case 4:
				s.Send(nc, append(op(3), c26encode(c26ids(uint64(q.Seed), q.Seed%20))...))
			case 5:
				s.Send(nc, op(3, 9))
			case 6:
				s.Send(nc, nil)
			case 7:
				s.Send(nc, []byte{0})
			case 8:
				s.Send(nc, []byte{77, 1})
			case 9:
				cn.Close()
			case 10: // nothing
			case 11:
				s.Send(nc+1, op(1))
				s.Send(0, op(1))
			case 12:
				s.Send(nc, op(1))
				s.Send(nc, op(1))
				s.Send(nc, nil)
			case 13:
				s.Send(nc+1, op(1))
				s.Send(nc, op(2, gen.Expand(uint64(q.Seed), 32)...))
			}
		}
	})
	want := q.Reply <= 2 || q.Reply == 12
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	_, err := n.Ping(ctx, addr)
	cancel()
	if err != nil {
		e.Fail("a peer cannot be reached: %v", err)
		return
	}
	ctx, cancel = ctxFor(q.DeadMs)
	defer cancel()
	if q.DeadMs == 0 && !want {
		var stop context.CancelFunc
		ctx, stop = context.WithTimeout(ctx, time.Hour)
		defer stop()
	}
	start := e.Net.Now()
	if !e.Within(2*time.Hour, func() { err = kad.Ping(ctx, addr) }) {
		e.Hang("a ping call does not return")
		return
	}
	took := e.Net.Now() - start
	if q.DeadMs > 0 && q.DelayMs > q.DeadMs {
		want = false
	}
	e.Label("ping call")
	if !want {
		e.NonTrivial()
	}
	if want != (err == nil) {
		e.Fail("a ping call (reply %d after %d ms, deadline %d ms) gives %v after %v", q.Reply, q.DelayMs, q.DeadMs, err, took)
	}
	if err != nil && q.DeadMs > 0 && took > time.Duration(q.DeadMs+1)*time.Millisecond {
		e.Fail("a ping call with deadline %d ms takes %v", q.DeadMs, took)
	}
	l.Close()
	for {
		select {
		case cn := <-conns:
			cn.Close()
			continue
		default:
		}
		break
	}
}
