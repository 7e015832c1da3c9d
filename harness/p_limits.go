package main

import (
	"context"
	"encoding/binary"
	"errors"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
	"verifharness/wire"
)

// C10: the receive limit is exact.

type c10Frame struct {
	Off    int // announced size relative to the limit (the size itself without a limit)
	Kind   int // 0 message, 1 reply to a request of the node, 2 announcement only, 3 undecipherable, 4 request
	Append bool
}

type c10Plan struct {
	Link    Link
	Limit   int // -1: default, 0: none
	Out     bool
	Workers int
	Frames  []c10Frame
	Node    bool // the peer is a node
	First   int  // the frame of the handshake (1 or 2) in whose place the peer sends a frame of a generated size
}

const sealed = 12 + 16 // what encryption adds

func init() {
	register(&Prop{ID: "C10", Quick: 4000, Thorough: 120000, Rule: "A node with a receive limit from 1 byte to 70 kB, without a limit, or with the default one, connected to a wire-level peer or another node in either direction; up to ten messages, requests and replies whose frame sizes lie around the limit (exactly at it and one byte above in most cases), far below or above, bare announcements of any size and undecipherable frames, also in place of a frame of the handshake. Non-trivial: a frame of exactly the limit or one byte more.",
		Assume: []string{"The size of a frame is the one its header announces: everything after the four bytes of the header."}},
		func(s *gen.S) c10Plan {
			p := c10Plan{Link: genLinkFast(s), Out: s.Bool(50), Workers: gen.Pick(s, 1, 4), Node: s.Bool(25)}
			switch s.Weighted(60, 15, 15, 10) {
			case 0:
				p.Limit = s.Range(142, 5000)
			case 1:
				p.Limit = s.Range(1, 300)
			case 2:
				p.Limit = gen.Pick(s, 4096, 4097, 4095, 65536, s.Range(5000, 70000), 8192, 12288, 20480)
			default:
				p.Limit = gen.Pick(s, 0, 0, -1)
				p.Link = Link{}
			}
			big := p.Limit <= 0
			for k := s.Range(1, gen.Pick(s, 3, 10)); k > 0; k-- {
				f := c10Frame{Off: gen.Pick(s, 0, 0, 1, -1, s.Range(-40, 0), s.Range(-2000, 10), s.Range(0, 5000)), Kind: s.Weighted(6, 4, 2, 1, 3), Append: s.Bool(40)}
				if p.Limit == 0 {
					f.Off = gen.Pick(s, 4<<20, 4<<20+1, s.Range(36, 10000), 5000000, s.Range(36, 9<<20))
					if s.Bool(10) {
						f.Off = 16<<20 + gen.Pick(s, -1, 0, 36, s.Range(36, 1<<20))
					}
				}
				if f.Kind == 2 && !p.Node && s.Bool(50) {
					f.Off = gen.Pick(s, 1, 1<<20, 1<<31, 1<<32-1-max(p.Limit, 4<<20))
				}
				if big && len(p.Frames) > 2 {
					break
				}
				p.Frames = append(p.Frames, f)
			}
			if s.Bool(10) {
				p.First, p.Node = s.Range(1, 2), false
			}
			return p
		}, runC10)
}

func runC10(c *C, p c10Plan) {
	if p.First > 0 {
		c10First(c, p)
		return
	}
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		limit := p.Limit
		var opts []noise.NodeOption
		if limit >= 0 {
			opts = append(opts, noise.WithNodeMaxRecvMessageSize(uint32(limit)))
		} else {
			limit = 4 << 20
		}
		opts = append(opts, noise.WithNodeNumWorkers(uint(p.Workers)))
		fits := func(n int) bool { return limit == 0 || n <= limit }
		n := e.Node(opts...)
		var mu sync.Mutex
		got := map[uint64]int{}
		var cl *noise.Client
		n.Bind(noise.Protocol{OnPeerConnected: func(x *noise.Client) { mu.Lock(); cl = x; mu.Unlock() }})
		data := func(id uint64, size int) []byte { // cheap also for megabytes
			b := make([]byte, size)
			for i := range b {
				b[i] = byte(i) ^ byte(i>>8)
			}
			if size >= 8 {
				binary.BigEndian.PutUint64(b, id)
			}
			return b
		}
		n.Handle(func(ctx noise.HandlerContext) error {
			id, _ := payloadID(ctx.Data())
			if d := diff(ctx.Data(), data(id, len(ctx.Data()))); d != "" {
				e.Fail("a message of %d bytes arrived altered: %s", len(ctx.Data()), d)
			}
			mu.Lock()
			got[id] = len(ctx.Data())
			mu.Unlock()
			return nil
		})
		if !e.Listen(n) {
			return
		}
		// The connection.
		type link struct {
			send  func(nonce uint64, d []byte)
			raw   func(b []byte)
			ended func() bool
		}
		var l link
		var attempt error
		var other *noise.Node
		var to string // the peer, if the node dialled it
		var octx chan noise.HandlerContext
		replies := map[uint64]int{} // sizes of replies
		ready := make(chan bool, 1)
		peer := func(cn *vconn, s *wire.Session) {
			l.send = func(nonce uint64, d []byte) { s.Send(nonce, d) }
			l.raw = func(b []byte) { cn.Write(b) }
			fin := make(chan struct{})
			l.ended = func() bool {
				select {
				case <-fin:
					return true
				default:
					return false
				}
			}
			go func() {
				defer close(fin)
				for {
					nc, d, err := s.Recv()
					if err != nil {
						return
					}
					if id, ok := payloadID(d); ok && nc > 0 {
						s.Send(nc, data(id|1<<63, replies[id]))
					}
				}
			}()
			ready <- true
		}
		hsOK := fits(96) && fits(114+sealed)
		if p.Node {
			// A second node with no limit; messages, requests and replies only.
			other = e.Node(noise.WithNodeMaxRecvMessageSize(0))
			octx = make(chan noise.HandlerContext, 1)
			other.Handle(func(ctx noise.HandlerContext) error {
				id, _ := payloadID(ctx.Data())
				if !ctx.IsRequest() {
					octx <- ctx
					return nil
				}
				return ctx.Send(data(id|1<<63, replies[id]))
			})
			if !e.Listen(other) {
				return
			}
			to = other.Addr()
			from, to := other, n
			if p.Out {
				from, to = n, other
			}
			_, attempt = from.Ping(context.Background(), to.Addr())
			if attempt == nil && p.Out {
				if err := n.Send(context.Background(), other.Addr(), data(99, 8)); err != nil {
					e.Fail("Send failed: %v", err)
				}
			}
			if (attempt == nil) != hsOK && (p.Out || hsOK) {
				e.Fail("with a limit of %d bytes the handshake ended with: %v", limit, attempt)
				return
			}
			if !hsOK {
				time.Sleep(5 * time.Second)
				if cl != nil {
					e.Fail("with a limit of %d bytes a handshake was completed", limit)
				}
				if p.Out && !errors.Is(attempt, noise.ErrMessageTooLarge) {
					e.Fail("with a limit of %d bytes the handshake ended with: %v", limit, attempt)
				}
				e.NonTrivial()
				return
			}
			var ctx noise.HandlerContext
			if p.Out {
				ctx = <-octx
			}
			l.send = func(nonce uint64, d []byte) {
				if p.Out {
					ctx.Send(d)
				} else {
					other.Send(context.Background(), n.Addr(), d)
				}
			}
		} else {
			me := peerIdent(1, 7001)
			var addr string
			if p.Out {
				_, addr = e.Serve(func(_ int, cn *vconn) {
					if s, err := wire.Handshake(cn, me); err == nil {
						peer(cn, s)
					} else {
						cn.Close()
						select {
						case ready <- false:
						default:
						}
					}
				})
				_, attempt = n.Ping(context.Background(), addr)
				if (attempt == nil) != hsOK || attempt != nil && !errors.Is(attempt, noise.ErrMessageTooLarge) {
					e.Fail("with a limit of %d bytes the handshake ended with: %v", limit, attempt)
					return
				}
			} else {
				s, cn, err := e.Dial(n.Addr(), me, p.Link.policy())
				if err == nil {
					peer(cn, s)
				} else {
					ready <- false
				}
			}
			if !<-ready || !hsOK {
				if hsOK {
					e.Fail("with a limit of %d bytes the handshake did not complete", limit)
				}
				time.Sleep(5 * time.Second)
				mu.Lock()
				defer mu.Unlock()
				if !hsOK && cl != nil {
					e.Fail("with a limit of %d bytes a handshake was completed", limit)
				}
				e.NonTrivial()
				return
			}
			to = addr
		}
		time.Sleep(time.Second)
		e.Settle()
		mu.Lock()
		x := cl
		mu.Unlock()
		if x == nil {
			e.Fail("a connection is not announced")
			return
		}
		if err := x.Error(); err != nil {
			e.Fail("a connection within the limit of %d bytes failed: %v", limit, err)
			return
		}
		base := limit
		for i, f := range p.Frames {
			size := base + f.Off
			if size < 36 {
				size = 36
			}
			if size-base == 0 || size-base == 1 {
				e.NonTrivial()
			}
			kind := f.Kind
			if p.Node && kind != 1 || kind == 1 && !p.Out {
				kind = 0
			}
			id := uint64(1000 + i)
			if kind != 2 {
				size = min(size, 10<<20)
			}
			ok := fits(size)
			pl := size - 8 - sealed
			wantClosed := !ok
			late := false
			switch kind {
			case 0, 4:
				nc := uint64(0)
				if kind == 4 {
					nc = id
				}
				if pl < 8 {
					pl = 8
				}
				ok = fits(pl + 8 + sealed)
				wantClosed = !ok
				l.send(nc, data(id, pl))
				if f.Append && !ok {
					l.send(0, data(1<<40|id, 8)) // must not get through
					late = true
				}
			case 1:
				replies[id] = max(8, pl)
				ok = fits(replies[id] + 8 + sealed)
				wantClosed = !ok
				ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
				d, err := n.Request(ctx, to, data(id, 8))
				cancel()
				if ok && (err != nil || diff(d, data(id|1<<63, replies[id])) != "") {
					e.Fail("a reply in a frame of %d bytes with a limit of %d was not delivered: %v", size, limit, err)
				} else if !ok && err == nil {
					e.Fail("a reply in a frame of %d bytes was delivered with a limit of %d", size, limit)
				} else if !ok && errors.Is(err, context.DeadlineExceeded) {
					e.Fail("a request whose reply is too large waits until its context ends")
				}
			case 2:
				var h [4]byte
				binary.BigEndian.PutUint32(h[:], uint32(size))
				l.raw(h[:])
				if f.Append {
					l.raw(make([]byte, min(20, size-1)))
				}
				ok = fits(size)
				wantClosed = !ok
			case 3:
				l.raw(wire.Frame(make([]byte, size)))
				ok = fits(size)
				wantClosed = true
			}
			if !e.Wait(2*time.Minute, 500*time.Millisecond, func() bool {
				mu.Lock()
				defer mu.Unlock()
				if wantClosed {
					return x.Error() != nil && (l.ended == nil || l.ended())
				}
				if kind == 0 || kind == 4 {
					return got[id] > 0
				}
				return true
			}) {
				if wantClosed {
					e.Fail("a frame of %d bytes (limit %d, kind %d) does not end the connection: %v", size, limit, kind, x.Error())
				} else {
					e.Fail("a frame of %d bytes with a limit of %d was not delivered: %v", size, limit, x.Error())
				}
				return
			}
			time.Sleep(time.Second)
			e.Settle()
			mu.Lock()
			if !ok && got[id] > 0 {
				e.Fail("a frame of %d bytes was delivered with a limit of %d", size, limit)
			}
			if late && got[1<<40|id] > 0 {
				e.Fail("what follows a frame that is too large was delivered")
			}
			mu.Unlock()
			err := x.Error()
			if !ok && !errors.Is(err, noise.ErrMessageTooLarge) {
				e.Fail("a frame of %d bytes with a limit of %d ended the connection with: %v", size, limit, err)
			}
			if ok && !wantClosed && err != nil {
				e.Fail("a frame of %d bytes with a limit of %d ended the connection with: %v", size, limit, err)
			}
			if ok && wantClosed && errors.Is(err, noise.ErrMessageTooLarge) {
				e.Fail("a frame of %d bytes with a limit of %d was called too large", size, limit)
			}
			if wantClosed || kind == 2 || e.Failed() {
				return
			}
		}
	})
}

// c10First has the peer send a frame of a generated size in place of one of the handshake.
func c10First(c *C, p c10Plan) {
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		limit := p.Limit
		opts := []noise.NodeOption{noise.WithNodeMaxDialAttempts(1)}
		if limit >= 0 {
			opts = append(opts, noise.WithNodeMaxRecvMessageSize(uint32(limit)))
		} else {
			limit = 4 << 20
		}
		if p.First == 2 && limit > 0 && limit < 96 {
			p.First = 1
		}
		n := e.Node(opts...)
		n.Bind(noise.Protocol{OnPeerConnected: func(*noise.Client) { e.Fail("a handshake is completed without an identity") }})
		if !e.Listen(n) {
			return
		}
		f := p.Frames[0]
		size := uint32(min(max(int64(limit)+int64(f.Off), 1), 1<<32-1))
		if p.First == 1 && size == 96 {
			size++
		}
		if int(size)-limit == 0 || int(size)-limit == 1 {
			e.NonTrivial()
		}
		large := limit > 0 && int64(size) > int64(limit)
		play := func(cn *vconn) {
			if p.First == 2 {
				cn.Write(wire.Frame(wire.Hello(wire.GenEph())))
			}
			var h [4]byte
			binary.BigEndian.PutUint32(h[:], size)
			cn.Write(h[:])
			switch {
			case large && f.Append:
				cn.Write(make([]byte, min(size, 50)))
			case large:
			case size <= 10<<20:
				cn.Write(make([]byte, size))
			default:
				cn.Close()
			}
		}
		judge := func(err error) {
			switch {
			case err == nil:
				e.Fail("a peer that sends nonsense (%d bytes, limit %d) in place of frame %d of the handshake is accepted", size, limit, p.First)
			case large != errors.Is(err, noise.ErrMessageTooLarge):
				e.Fail("a frame of %d bytes with a limit of %d in place of frame %d of the handshake ended the connection with: %v", size, limit, p.First, err)
			}
		}
		if p.Out {
			_, addr := e.Serve(func(_ int, cn *vconn) { play(cn) })
			var err error
			if !e.Within(10*time.Minute, func() { _, err = n.Ping(context.Background(), addr) }) {
				e.Hang("a ping of a peer that sends a frame of %d bytes with a limit of %d in place of frame %d of the handshake does not end", size, limit, p.First)
				return
			}
			judge(err)
			return
		}
		cn, err := e.Net.DialFrom(context.Background(), n.Addr(), p.Link.policy(), p.Link.policy())
		if err != nil {
			e.Fail("the node cannot be dialled: %v", err)
			return
		}
		var cl *noise.Client
		e.Wait(10*time.Second, time.Millisecond, func() bool {
			if l := n.Inbound(); len(l) == 1 {
				cl = l[0]
			}
			return cl != nil
		})
		if cl == nil {
			e.Fail("a new connection is not listed")
			return
		}
		go play(cn)
		if !e.Within(10*time.Minute, cl.WaitUntilClosed) {
			e.Fail("a frame of %d bytes with a limit of %d in place of frame %d of the handshake does not end the connection", size, limit, p.First)
			return
		}
		judge(cl.Error())
	})
}
