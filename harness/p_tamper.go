package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
	"verifharness/wire"
)

// C07: altered or forged session traffic is never delivered.

const (
	opFlip = iota
	opDelete
	opInsert
	opTruncate
	opForge
	opForeign
	opLength
	opReplay // from here on: whole genuine frames
	opDrop
	opSwap
	opMirror
	opKinds
)

type c07Op struct {
	Up    bool // on the way from the dialler
	Frame int
	Kind  int
	Off   int
	N     int
	Seed  int
}

type c07Plan struct {
	Link  Link
	Ops   []c07Op
	Up    []int // sizes of messages from the dialler
	Down  []int
	Gap   int
	Reqs  []int // delays of the replies
	Chunk int   // the attacker passes bytes on in chunks
}

func init() {
	register(&Prop{ID: "C07", Quick: 2500, Thorough: 60000, Rule: "A session between two nodes with messages in both directions and requests, on which a man in the middle flips bits, deletes, inserts or cuts bytes, alters lengths, or inserts made-up frames or frames of another session, at any frame and offset after the handshake in either direction; a third node uses connections to both meanwhile. One case in six repeats, removes, swaps or mirrors whole genuine frames instead. Non-trivial: the alteration took place.",
		Assume: []string{"Repeating, removing, swapping and mirroring whole genuine frames are listed findings; in those cases only the contents of what is delivered are judged."}},
		func(s *gen.S) c07Plan {
			p := c07Plan{Link: genLinkFast(s), Gap: gen.Pick(s, 0, 0, 1, 50), Chunk: gen.Pick(s, 0, 0, 1, 7, 100)}
			if p.Link.Frag == 1 || p.Link.LatMs > 20 {
				p.Link.LatMs = 20
			}
			for k := s.Range(0, 12); k > 0; k-- {
				p.Up = append(p.Up, gen.Pick(s, 8, s.Range(8, 200), s.Range(8, 4000)))
			}
			for k := s.Range(0, 12); k > 0; k-- {
				p.Down = append(p.Down, gen.Pick(s, 8, s.Range(8, 200), s.Range(8, 4000)))
			}
			for k := s.Range(0, 5); k > 0; k-- {
				p.Reqs = append(p.Reqs, gen.Pick(s, 0, s.Intn(100), 100000))
			}
			whole := s.Bool(17)
			for k := gen.Pick(s, 1, 1, 1, 2); k > 0; k-- {
				o := c07Op{Up: s.Bool(50), Frame: 2 + s.Intn(14), Kind: s.Intn(opReplay), Off: gen.Pick(s, s.Intn(5), s.Intn(20), s.Intn(1000)), N: gen.Pick(s, 1, s.Range(1, 4), s.Range(1, 200)), Seed: s.Seed()}
				if whole {
					o.Kind = opReplay + s.Intn(opKinds-opReplay)
				}
				p.Ops = append(p.Ops, o)
			}
			return p
		}, runC07)
}

// tap is a man in the middle of one direction.
type tap struct {
	up      bool
	buf     []byte
	frame   int
	frames  [][]byte
	held    []byte
	applied []int
	dead    bool
}

func runC07(c *C, p c07Plan) {
	Bubble(c, func(e *Env) {
		var mu sync.Mutex // guards taps
		whole := p.Ops[0].Kind >= opReplay
		taps := [2]*tap{{up: true}, {}}
		foreign := wire.AEAD(gen.Expand(4242, 32))
		filter := func(t, other *tap) func(q *pipe, b []byte) []byte {
			return func(q *pipe, b []byte) []byte {
				mu.Lock()
				defer mu.Unlock()
				t.buf = append(t.buf, b...)
				var out []byte
				for len(t.buf) >= 4 {
					n := 4 + int(binary.BigEndian.Uint32(t.buf))
					if len(t.buf) < n {
						break
					}
					f := append([]byte{}, t.buf[:n]...)
					t.buf = t.buf[n:]
					i := t.frame
					t.frame++
					t.frames = append(t.frames, f)
					g := append([]byte{}, f...)
					var pre, post []byte
					if t.held != nil {
						post, t.held = t.held, nil
					}
					for oi, o := range p.Ops {
						if o.Up != t.up || o.Frame != i || t.dead {
							continue
						}
						if o.Kind != opForge && o.Kind != opForeign && o.Kind < opReplay && len(g) < 4 {
							continue // an earlier operation left next to nothing of the frame
						}
						t.applied = append(t.applied, oi)
						r := gen.Expand(uint64(o.Seed), o.N+16)
						off := 0
						if len(g) > 0 {
							off = o.Off % len(g)
						}
						switch o.Kind {
						case opFlip:
							if len(g) > 0 {
								g[off] ^= 1 << (o.N % 8)
							}
						case opDelete:
							k := min(o.N, len(g)-off)
							if k == len(g) {
								k--
							}
							g = append(g[:off], g[off+k:]...)
						case opInsert:
							g = append(append(append([]byte{}, g[:off]...), r[:o.N]...), g[off:]...)
							if len(g) >= len(f) && bytes.Equal(g[:len(f)], f) { // what is inserted must not repeat the frame
								g[0] ^= 1
							}
						case opTruncate:
							if off == 0 {
								off = 1
							}
							q.InjectLocked(append(out, g[:off]...))
							q.EOFLocked()
							q.HoleLocked()
							t.dead = true
							return nil
						case opForge:
							k := []int{o.N, o.N, 0, 12, 28, 36}[o.Off%6]
							pre = append(pre, wire.Frame(gen.Expand(uint64(o.Seed)+1, k))...)
						case opForeign:
							pre = append(pre, wire.Frame(wire.Seal(foreign, wire.Body(uint64(o.Off%3), payload(uint64(0xf0e0), o.N+8))))...)
						case opLength:
							n := binary.BigEndian.Uint32(g)
							binary.BigEndian.PutUint32(g, uint32(o.Off))
							if uint32(o.Off) == n {
								binary.BigEndian.PutUint32(g, uint32(o.Off+1))
							}
						case opReplay:
							k := 2 + o.Off%max(1, len(t.frames)-2)
							if k < len(t.frames)-1 {
								pre = append(pre, t.frames[k]...)
							} else {
								pre = append(pre, f...)
							}
						case opDrop:
							g = nil
						case opSwap:
							t.held = g
							g = nil
						case opMirror:
							if len(other.frames) > 2 {
								pre = append(pre, other.frames[2+o.Off%(len(other.frames)-2)]...)
							} else {
								t.applied = t.applied[:len(t.applied)-1]
							}
						}
					}
					out = append(append(append(out, pre...), g...), post...)
				}
				if p.Chunk > 0 {
					for len(out) > p.Chunk {
						q.InjectLocked(out[:p.Chunk])
						out = out[p.Chunk:]
					}
				}
				return out
			}
		}
		const limit = 8192
		var addrB string
		armed := false
		var session *dialRec // the one session between these two
		e.Net.OnConn = func(d *dialRec) (a, b policy) {
			a, b = p.Link.policy(), p.Link.policy()
			if armed && session == nil {
				session = d
				a.Filter = filter(taps[0], taps[1])
				b.Filter = filter(taps[1], taps[0])
			}
			return
		}
		var lm sync.Mutex
		type rx struct {
			id   noise.ID
			data []byte
			req  bool
		}
		var log [3][]rx
		var ctxs []noise.HandlerContext
		clients := map[string]*noise.Client{}
		var nodes [3]*noise.Node
		for i := range nodes {
			i := i
			nodes[i] = e.Node(noise.WithNodeNumWorkers(1), noise.WithNodeMaxRecvMessageSize(limit))
			nodes[i].Bind(noise.Protocol{OnPeerConnected: func(x *noise.Client) {
				lm.Lock()
				clients[fmt.Sprint(i, x.ID().Address)] = x
				lm.Unlock()
			}})
			nodes[i].Handle(func(ctx noise.HandlerContext) error {
				id, _ := payloadID(ctx.Data())
				lm.Lock()
				log[i] = append(log[i], rx{ctx.ID(), append([]byte(nil), ctx.Data()...), ctx.IsRequest()})
				if id == 1 {
					ctxs = append(ctxs, ctx)
				}
				lm.Unlock()
				if ctx.IsRequest() && !bytes.HasPrefix(ctx.Data(), []byte("re")) {
					k := int(id>>32) - 1
					d := 0
					if k >= 0 && k < len(p.Reqs) {
						d = p.Reqs[k]
					}
					go func() {
						time.Sleep(time.Duration(d) * time.Millisecond)
						ctx.Send(append([]byte("re"), ctx.Data()...))
					}()
				}
				return nil
			})
			if !e.Listen(nodes[i]) {
				return
			}
		}
		a, b, o := nodes[0], nodes[1], nodes[2]
		addrB = b.Addr()
		// The first message opens the session (frame 2 upwards); it may itself be altered.
		var sentUp, sentDown [][]byte
		var sm sync.Mutex
		gone := func() bool {
			return session.Conn.Closed() || session.Peer.Closed()
		}
		send := func(x []byte) bool {
			if gone() {
				return false
			}
			sm.Lock()
			defer sm.Unlock()
			cl := a.Outbound()
			if len(cl) == 0 {
				return false
			}
			if a.Send(context.Background(), addrB, x) != nil {
				return false
			}
			sentUp = append(sentUp, x)
			return true
		}
		for _, n := range []*noise.Node{a, b} {
			if _, err := o.Ping(context.Background(), n.Addr()); err != nil {
				e.Fail("Ping failed: %v", err)
				return
			}
		}
		armed = true
		if _, err := a.Ping(context.Background(), addrB); err != nil {
			e.Fail("Ping failed: %v", err)
			return
		}
		e.Net.OnDial = func(*dialRec) outcome2 { return outcome2{Refuse: true} }
		send(payload(1, 8))
		var ctx *noise.HandlerContext
		e.Wait(5*time.Second, 10*time.Millisecond, func() bool {
			lm.Lock()
			defer lm.Unlock()
			if len(ctxs) > 0 {
				ctx = &ctxs[0]
			}
			return ctx != nil
		})
		type outT struct {
			data []byte
			err  error
			end  time.Duration
		}
		outs := make([]outT, len(p.Reqs))
		var fs []func()
		fs = append(fs, func() {
			for i, n := range p.Up {
				send(payload(uint64(0x100+i), n))
				time.Sleep(time.Duration(p.Gap) * time.Millisecond)
			}
			for i := 0; i < 64 && !whole; i++ {
				time.Sleep(100 * time.Millisecond)
				if !send(payload(uint64(0x10000+i), 1000)) {
					break
				}
			}
		}, func() {
			down := func(x []byte) bool {
				if ctx == nil || gone() {
					return false
				}
				if ctx.Send(x) != nil {
					return false
				}
				sm.Lock()
				sentDown = append(sentDown, x)
				sm.Unlock()
				return true
			}
			for i, n := range p.Down {
				down(payload(uint64(0x200+i), n))
				time.Sleep(time.Duration(p.Gap) * time.Millisecond)
			}
			for i := 0; i < 64 && !whole; i++ {
				time.Sleep(100 * time.Millisecond)
				if !down(payload(uint64(0x20000+i), 1000)) {
					break
				}
			}
		}, func() {
			for i := 0; i < 10; i++ { // the bystander
				for _, n := range []*noise.Node{a, b} {
					d, err := o.Request(context.Background(), n.Addr(), payload(uint64(0x300+i), 30))
					if err != nil || diff(d, append([]byte("re"), payload(uint64(0x300+i), 30)...)) != "" {
						e.Fail("a request on another connection failed: %v", err)
					}
				}
				time.Sleep(500 * time.Millisecond)
			}
		})
		for k := range p.Reqs {
			fs = append(fs, func() {
				time.Sleep(time.Duration(k*p.Gap) * time.Millisecond)
				cx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
				defer cancel()
				d, err := a.Request(cx, addrB, payload(uint64(k+1)<<32, 20))
				outs[k] = outT{d, err, e.Net.Now()}
			})
		}
		if !e.Within(30*time.Minute, func() { All(fs...) }) {
			e.Hang("a send or request never returns")
			return
		}
		time.Sleep(10 * time.Second)
		e.Settle()
		mu.Lock()
		applied := append(append([]int{}, taps[0].applied...), taps[1].applied...)
		mu.Unlock()
		if len(applied) == 0 {
			return
		}
		e.NonTrivial()
		for _, i := range applied {
			e.Label("op-%d", p.Ops[i].Kind)
		}
		idA, idB, idO := a.ID(), b.ID(), o.ID()
		if !whole {
			if !gone() {
				e.Fail("altered bytes arrived, but the connection stays open (operations %v)", applied)
				return
			}
			for _, x := range []*vconn{session.Conn, session.Peer} {
				if !x.Closed() {
					e.Fail("altered bytes arrived, but one end of the connection stays open")
				}
			}
			lm.Lock()
			for _, k := range []string{fmt.Sprint(0, idB.Address), fmt.Sprint(1, idA.Address)} {
				if x := clients[k]; x == nil || x.Error() == nil {
					e.Fail("the connection that altered bytes arrived on carries no error")
				}
			}
			lm.Unlock()
		}
		lm.Lock()
		defer lm.Unlock()
		sm.Lock()
		defer sm.Unlock()
		isReq := func(d []byte) bool {
			for k := range p.Reqs {
				if bytes.Equal(d, payload(uint64(k+1)<<32, 20)) {
					return true
				}
			}
			return false
		}
		for k := range p.Reqs {
			if outs[k].err == nil {
				mirrored := false
				for _, i := range applied {
					mirrored = mirrored || p.Ops[i].Kind == opMirror
				}
				if d := diff(outs[k].data, append([]byte("re"), payload(uint64(k+1)<<32, 20)...)); d != "" && mirrored && isReq(outs[k].data) {
					e.Known("frames-mirrored", "a request frame sent back to its sender is taken for its reply")
				} else if d != "" {
					e.Fail("request %d returned something else than its reply: %s", k, d)
				}
			} else if !whole && outs[k].end > 80*time.Second {
				e.Fail("request %d had not failed when its connection was closed", k)
			}
		}
		judge := func(who int, from noise.ID, sent [][]byte, all [][]byte) {
			i := 0
			reqs := map[string]int{}
			for _, x := range log[who] {
				if x.id.ID == idO.ID {
					if d := diff(x.data, payload(binary.BigEndian.Uint64(x.data), 30)); d != "" || !x.req {
						e.Fail("another connection delivered altered data")
					}
					continue
				}
				if x.id.ID != from.ID {
					e.Fail("a message is marked as coming from %s", idStr(x.id))
				}
				genuine := isReq(x.data)
				for _, y := range all {
					genuine = genuine || bytes.Equal(x.data, y)
				}
				if !genuine {
					e.Fail("node %d was given %d bytes that were never sent: %x", who, len(x.data), x.data[:min(len(x.data), 24)])
					continue
				}
				ok := false
				if who == 1 && x.req && isReq(x.data) {
					reqs[string(x.data)]++
					ok = reqs[string(x.data)] == 1
				} else if !x.req && i < len(sent) && bytes.Equal(x.data, sent[i]) {
					i++
					ok = true
				}
				if ok {
					continue
				}
				if !whole {
					e.Fail("node %d was given a genuine message twice, out of order, after a gap, or in another role", who)
					return
				}
				for _, k := range applied {
					e.Known(map[int]string{opReplay: "frames-replayed", opDrop: "frames-removed", opSwap: "frames-swapped", opMirror: "frames-mirrored"}[p.Ops[k].Kind], "whole genuine frames that are repeated, removed, swapped or mirrored are taken as they come")
				}
				return
			}
		}
		var re [][]byte
		for k := range p.Reqs {
			re = append(re, append([]byte("re"), payload(uint64(k+1)<<32, 20)...))
		}
		both := append(append(append([][]byte{}, sentUp...), sentDown...), re...)
		judge(1, idA, sentUp, both)
		judge(0, idB, sentDown, both)
	})
}

// C08: traffic is unreadable, keys fresh, nonces unique.

type c08Sess struct {
	Reset bool // re-seed the global generator before
	Msgs  int
	Echo  bool
	Size  int
	Equal bool
	Par   bool
	Wire  bool // the peer is the harness
}

type c08Plan struct {
	Link  Link
	Seed  int
	Often bool // re-seed before every message
	Sess  []c08Sess
}

func init() {
	register(&Prop{ID: "C08", Quick: 3000, Thorough: 30000, Rule: "One to five sessions in succession between two nodes, or a node and a wire-level peer, with up to 60 messages each, equal or different, from both ends, sequential or concurrent, while the global math/rand generator is re-seeded with the same seed before sessions and messages; all bytes on all wires are recorded and searched for payloads, keys and addresses, repeated cipher blocks, nonces and ephemeral keys. Non-trivial: at least two encrypted frames in one session.",
		Assume: []string{"Secrecy itself rests on AES-GCM and X25519; what is checked is that they are used on everything, with fresh keys and distinct nonces, and not with keys computable from what is on the wire in some obvious ways."}},
		func(s *gen.S) c08Plan {
			p := c08Plan{Link: genLinkFast(s), Seed: s.Intn(5), Often: s.Bool(50)}
			for k := s.Range(1, 5); k > 0; k-- {
				p.Sess = append(p.Sess, c08Sess{Reset: s.Bool(70), Msgs: s.Range(1, gen.Pick(s, 3, 30, 60*s.Size)), Echo: s.Bool(60), Size: gen.Pick(s, 16, s.Range(0, 100), s.Range(16, 3000)), Equal: s.Bool(60), Par: s.Bool(40), Wire: s.Bool(25)})
			}
			if s.Bool(1) {
				p.Sess[0].Msgs, p.Sess[0].Size, p.Sess[0].Wire = gen.Pick(s, 5000, 15000, 15000, 70000), s.Range(0, 16), false
				p.Link = Link{}
			}
			return p
		}, runC08)
}

func runC08(c *C, p c08Plan) {
	Bubble(c, func(e *Env) {
		type rec struct{ up, down *pipe }
		var recs []rec
		var mu sync.Mutex
		e.link(p.Link)
		e.Net.Record = true
		a := e.Node(noise.WithNodeNumWorkers(2))
		b := e.Node(noise.WithNodeNumWorkers(2))
		got := 0
		for i, n := range []*noise.Node{a, b} {
			n.Handle(func(ctx noise.HandlerContext) error {
				mu.Lock()
				got++
				mu.Unlock()
				if i == 1 && len(ctx.Data()) > 0 && ctx.Data()[len(ctx.Data())-1]&1 == 1 {
					if p.Often {
						rand.Seed(int64(p.Seed))
					}
					return ctx.Send(ctx.Data())
				}
				return nil
			})
		}
		if !e.Listen(a) || !e.Listen(b) {
			return
		}
		var secrets [][]byte
		for _, n := range []*noise.Node{a, b} {
			id := n.ID()
			var hp [18]byte
			copy(hp[:], id.Host.To16())
			binary.BigEndian.PutUint16(hp[16:], id.Port)
			secrets = append(secrets, append([]byte{}, id.ID[:]...), []byte(id.Address), hp[:])
		}
		total := 0
		words := map[string]bool{} // parts of payloads that do not appear elsewhere by chance
		for si, x := range p.Sess {
			if x.Reset {
				rand.Seed(int64(p.Seed))
			}
			data := func(k int) []byte {
				if x.Equal {
					k = 0
				}
				d := payload(uint64(si+1)<<32|uint64(k), max(8, x.Size))
				if x.Size < 8 {
					return make([]byte, x.Size)
				}
				if x.Size >= 300 { // text, not noise
					for i := 16; i < len(d); i++ {
						d[i] = "the quick brown fox jumps over the lazy dog "[i%44]
					}
				}
				copy(d, gen.Expand(uint64(si+1)<<32|uint64(k), 8))
				d[len(d)-1] &^= 1
				if x.Echo {
					d[len(d)-1] |= 1
				}
				return d
			}
			addr := b.Addr()
			if x.Wire {
				me := peerIdent(si, 7000+si)
				_, addr = e.Serve(func(_ int, cn *vconn) {
					s, err := wire.Handshake(cn, me)
					if err != nil {
						e.Fail("handshake with the node failed: %v", err)
						return
					}
					for {
						nc, d, err := s.Recv()
						if err != nil {
							return
						}
						mu.Lock()
						got++
						mu.Unlock()
						if x.Echo && x.Size >= 8 {
							s.Send(nc, d)
						}
					}
				})
				id := noiseID(me)
				secrets = append(secrets, append([]byte{}, id.ID[:]...))
			}
			for k := 0; k < min(x.Msgs, 60); k++ {
				d := data(k)
				for i := 0; i+4 <= len(d); i++ {
					w := string(d[i : i+4])
					if i == 16 && i < len(d)-16 {
						i = len(d) - 17
						continue
					}
					if w[0] != w[1] && w[1] != w[2] && w[2] != w[3] && w[0] != w[3] {
						words[w] = true
					}
				}
			}
			for k := 0; k < min(x.Msgs, 3); k++ {
				if d := data(k); len(d) >= 16 {
					secrets = append(secrets, d[:16], d[len(d)-16:])
				}
			}
			before := len(e.Net.Conns())
			mk := func(k int) {
				if p.Often {
					rand.Seed(int64(p.Seed))
				}
				if err := a.Send(context.Background(), addr, data(k)); err != nil {
					e.Fail("Send failed: %v", err)
				}
			}
			want := x.Msgs
			if x.Echo && x.Size >= 8 {
				want *= 2
			}
			total += want
			mk(0)
			if x.Par {
				var fs []func()
				for k := 1; k < x.Msgs; k++ {
					fs = append(fs, func() { mk(k) })
				}
				All(fs...)
			} else {
				for k := 1; k < x.Msgs; k++ {
					mk(k)
					if k%3 == 0 {
						time.Sleep(time.Millisecond)
					}
				}
			}
			if !e.Wait(time.Hour, time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return got >= total }) {
				mu.Lock()
				e.Fail("%d of %d messages arrived", got, total)
				mu.Unlock()
				return
			}
			for _, cn := range e.Net.Conns()[before:] {
				recs = append(recs, rec{cn.Out(), cn.In()})
			}
			// End the session.
			for _, cl := range a.Outbound() {
				cl.Close()
			}
			time.Sleep(10 * time.Second)
			e.Settle()
		}
		ephs := map[string]int{}
		blocks := map[string]string{}
		for si, r := range recs {
			nonces := map[string]bool{}
			var hellos [2][]byte
			var firsts [][]byte
			n, told := 0, 0
			for dir, q := range []*pipe{r.up, r.down} {
				w := q.All()
				rd := bytes.NewReader(w)
				for fi := 0; ; fi++ {
					f, err := wire.ReadFrame(rd)
					if err != nil {
						break
					}
					if fi == 0 {
						if len(f) < 32 {
							e.Fail("the first frame has %d bytes", len(f))
							return
						}
						hellos[dir] = f[:32]
						if ephs[string(f[:32])]++; ephs[string(f[:32])] > 1 {
							e.Fail("an ephemeral key is used twice (session %d)", si)
						}
						for _, s := range secrets {
							if bytes.Contains(f, s) {
								e.Fail("the first frame of session %d shows an identity, an address or a payload", si)
							}
						}
						continue
					}
					if len(f) < 28 {
						e.Fail("a frame of %d bytes cannot be encrypted", len(f))
						return
					}
					if fi == 1 {
						firsts = append(firsts, f)
					}
					n++
					if nonces[string(f[:12])] {
						e.Fail("a nonce is used twice in session %d", si)
					}
					nonces[string(f[:12])] = true
					for i := 0; i+4 <= 12; i++ {
						if words[string(f[i:i+4])] {
							told++
							break
						}
					}
					for i := 0; i+16 <= len(f)-12; i += 16 {
						bl := string(f[12+i : 12+i+16])
						if at, ok := blocks[bl]; ok {
							e.Fail("the same cipher block appears twice (%s and session %d frame %d)", at, si, fi)
						}
						blocks[bl] = fmt.Sprintf("session %d frame %d", si, fi)
					}
				}
				for k, s := range secrets {
					if len(s) > 9 && bytes.Contains(w, s) {
						e.Fail("secret %d (an identity, address or payload) is readable on the wire of session %d", k, si)
					}
				}
			}
			if lim := map[bool]int{true: 3, false: 15}[n < 500]; told >= lim {
				e.Fail("%d of %d nonces in session %d show parts of payloads", told, n, si)
			}
			if n > 4 {
				e.NonTrivial()
			}
			// Keys anybody could guess.
			h1 := sha256.Sum256(append(append([]byte{}, hellos[0]...), hellos[1]...))
			h2 := sha256.Sum256(append(append([]byte{}, hellos[1]...), hellos[0]...))
			h3, h4, h5 := sha256.Sum256(hellos[0]), sha256.Sum256(hellos[1]), sha256.Sum256([]byte(wire.Magic))
			x := make([]byte, 32)
			for i := range x {
				x[i] = hellos[0][i] ^ hellos[1][i]
			}
			for _, k := range [][]byte{make([]byte, 32), hellos[0], hellos[1], h1[:], h2[:], h3[:], h4[:], h5[:], x, wire.Montgomery(hellos[0]), wire.Montgomery(hellos[1])} {
				for _, f := range firsts {
					if _, err := wire.Open(wire.AEAD(k), f); err == nil {
						e.Fail("session %d is encrypted with a key anybody can compute", si)
					}
				}
			}
		}
	})
}
