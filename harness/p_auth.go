package main

import (
	"context"
	"crypto/ed25519"
	"crypto/sha512"
	"math/big"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
	"verifharness/wire"
)

// C06: only a peer that proves its identity in this session is accepted.

const (
	atkHonest       = iota // proves its own identity
	atkHello               // the first frame is altered
	atkWeak                // an ephemeral key of small order, with a valid signature
	atkReplay              // replays an honest peer's side of an earlier session
	atkReflect             // sends everything back
	atkReflectProof        // own key exchange, then the node's own proof sent back
	atkRelay               // relays an honest peer's proof from a session of its own with it
	atkProof               // the second frame is wrong
	atkWeakIdentity        // proves an identity nobody has a private key of
	atkGarbage             // arbitrary bytes
	atkCut                 // stops within the handshake
	atkKinds
)

type c06Attack struct {
	Kind   int
	Var    int
	Pos    int
	Out    bool // the node dials the attacker
	Follow int  // messages sent along
	Early  bool // before the node could have answered
	Bytes  []byte
}

type c06Plan struct {
	Link     Link
	Attempts int
	Par      bool
	Attacks  []c06Attack
}

func init() {
	register(&Prop{ID: "C06", Quick: 2500, Thorough: 60000, Rule: "One to four handshakes of an active attacker, on connections in both directions, alone or at the same time, next to an honest peer that is served before, meanwhile and after: alterations of every kind to either handshake frame, keys of small order with valid signatures, replays of recorded sessions, reflection of everything or of parts, relaying between two sessions, claims of foreign identities, forged, cut and extended proofs, arbitrary bytes, and messages sent along. The attacker holds its own keys only. Non-trivial: at least one handshake that must be refused.",
		Assume: []string{"An attacker who sends the node's own proof back is a listed finding; it is recognised by the identity accepted being the node's own."}},
		func(s *gen.S) c06Plan {
			p := c06Plan{Link: genLinkBatch(s), Attempts: gen.Pick(s, 1, 1, 2, 3), Par: s.Bool(40)}
			for k := s.Range(1, 4); k > 0; k-- {
				a := c06Attack{Kind: s.Intn(atkKinds), Var: s.Intn(16), Pos: s.Intn(2000), Out: s.Bool(45), Follow: gen.Pick(s, 0, 1, 1, 3), Early: s.Bool(50)}
				if a.Kind == atkGarbage {
					a.Bytes = s.Bytes(s.Intn(400))
				} else {
					a.Bytes = s.Bytes(32)
				}
				p.Attacks = append(p.Attacks, a)
			}
			return p
		}, runC06)
}

// weakSignature makes a signature that verifies under a key of small order.
func weakSignature(key, msg []byte, seed byte) ([]byte, bool) {
	for i := 0; i < 200; i++ {
		sd := gen.Expand(uint64(seed)<<16+uint64(i), 32)
		priv := ed25519.NewKeyFromSeed(sd)
		h := sha512.Sum512(sd)
		h[0] &= 248
		h[31] &= 127
		h[31] |= 64
		be := make([]byte, 32)
		for j := range be {
			be[j] = h[31-j]
		}
		x := new(big.Int).SetBytes(be)
		x.Mod(x, ordL)
		sb := x.FillBytes(make([]byte, 32))
		sig := append([]byte{}, priv.Public().(ed25519.PublicKey)...)
		for j := range sb {
			sig = append(sig, sb[31-j])
		}
		if ed25519.Verify(key, msg, sig) {
			return sig, true
		}
	}
	return make([]byte, 64), false
}

// mutate alters b in some way; the result differs from b.
func mutate(b []byte, how, pos int, r []byte) []byte {
	b = append([]byte{}, b...)
	if len(b) == 0 {
		return []byte{1}
	}
	switch how % 7 {
	case 0, 1, 2:
		b[pos/8%len(b)] ^= 1 << (pos % 8)
	case 3:
		b = b[:pos%len(b)]
	case 4:
		b = append(b, r[:1+pos%len(r)]...)
	case 5:
		i := pos % len(b)
		b = append(b[:i], b[i+1:]...)
	case 6:
		i := pos % len(b)
		if b[i] == r[0] {
			r = []byte{^r[0]}
		}
		b = append(b[:i], append([]byte{r[0]}, b[i:]...)...)
	}
	return b
}

type c06World struct {
	e      *Env
	p      c06Plan
	v      *noise.Node
	honest wire.Identity
	other  *noise.Node // an honest node the attacker can talk to
	rec    [2][]byte   // recorded: the honest peer's side of a session as dialler and as acceptor
	recID  [2][]byte   // its proofs in the clear
}

func (w *c06World) me(i int) wire.Identity { return peerIdent(100+i, 5000+i) }

// run plays attack i on a connection.
func (w *c06World) run(i int, a c06Attack, cn *vconn) (complete bool) {
	me := w.me(i)
	s := &wire.Session{Conn: cn, Eph: wire.GenEph()}
	send := func(b []byte) { cn.Write(b) }
	follow := func() {
		for k := 0; k < a.Follow; k++ {
			var b []byte
			body := wire.Body(uint64(k%2), payload(uint64(0xbad0+i), 16))
			switch {
			case s.A != nil && (a.Var%3 != 2 || a.Kind == atkHonest):
				b = wire.Seal(s.A, body)
			default:
				b = body
			}
			send(wire.Frame(b))
		}
	}
	readHello := func() bool {
		h, err := wire.ReadFrame(cn)
		return err == nil && s.Derive(h) == nil
	}
	hello := func() bool {
		send(wire.Frame(wire.Hello(s.Eph)))
		return readHello()
	}
	cn.SetReadDeadline(time.Now().Add(time.Minute))
	defer cn.SetReadDeadline(time.Time{})
	switch a.Kind {
	case atkHonest:
		if !hello() {
			return false
		}
		send(wire.Frame(wire.Seal(s.A, s.Proof(me))))
		follow()
		s.ReadProof()
		return true
	case atkHello:
		good := wire.Hello(s.Eph)
		var h []byte
		switch a.Var % 11 {
		case 7:
			h = append(append([]byte{}, good[:32]...), ed25519.Sign(s.Eph, []byte(".__noise_handshake\x00"))...)
		case 8:
			h = append(append([]byte{}, good[:32]...), ed25519.Sign(me.Priv, []byte(wire.Magic))...)
		case 9:
			h = append(append([]byte{}, good[:32]...), make([]byte, 64)...)
		case 10:
			h = append(make([]byte, 32), good[32:]...)
		default:
			h = mutate(good, a.Var, a.Pos, a.Bytes)
		}
		send(wire.Frame(h))
		if readHello() || s.A != nil {
			send(wire.Frame(wire.Seal(s.A, s.Proof(me))))
		}
		follow()
		return true
	case atkWeak:
		ks := weakKeys()
		k := ks[a.Pos%len(ks)]
		sig, _ := weakSignature(k, []byte(wire.Magic), byte(a.Var))
		send(wire.Frame(append(append([]byte{}, k...), sig...)))
		if !a.Early {
			wire.ReadFrame(cn)
		}
		s.Shared = make([]byte, 32)
		s.A = wire.AEAD(s.Shared)
		send(wire.Frame(wire.Seal(s.A, s.Proof(me))))
		follow()
		return true
	case atkReplay:
		b := w.rec[a.Var%2]
		if a.Var&4 != 0 {
			b = b[:len(b)-1-a.Pos%(len(b)-100)]
			send(b)
			return false
		}
		send(b)
		follow()
		return true
	case atkReflect:
		if a.Early { // keep reflecting until dropped
			buf := make([]byte, 4096)
			for {
				n, err := cn.Read(buf)
				if err != nil {
					return true
				}
				send(buf[:n])
			}
		}
		for k := 0; k < 2; k++ {
			f, err := wire.ReadFrame(cn)
			if err != nil {
				return true
			}
			send(wire.Frame(f))
		}
		follow()
		return true
	case atkReflectProof:
		if !hello() {
			return false
		}
		f, err := wire.ReadFrame(cn)
		if err != nil {
			return false
		}
		if a.Var%2 == 1 {
			if pl, err := wire.Open(s.A, f); err == nil {
				f = wire.Seal(s.A, pl)
			}
		}
		send(wire.Frame(f))
		follow()
		return true
	case atkRelay:
		// A session of the attacker's own with the honest node; its proof is passed on.
		c2, err := w.e.Net.DialFrom(context.Background(), w.other.Addr(), policy{}, policy{})
		if err != nil {
			return false
		}
		defer c2.Close()
		c2.SetDeadline(time.Now().Add(time.Minute))
		if a.Var%3 == 0 { // the same ephemeral key on both sides
			s2 := &wire.Session{Conn: c2, Eph: s.Eph}
			c2.Write(wire.Frame(wire.Hello(s2.Eph)))
			h, err := wire.ReadFrame(c2)
			if err != nil || s2.Derive(h) != nil {
				return false
			}
			f, err := wire.ReadFrame(c2)
			if err != nil {
				return false
			}
			pl, err := wire.Open(s2.A, f)
			if err != nil || !hello() {
				return false
			}
			send(wire.Frame(wire.Seal(s.A, pl)))
			follow()
			return true
		}
		if a.Var%3 == 1 { // only the hellos are passed on
			h2, err := wire.ReadFrame(c2)
			if err != nil {
				return false
			}
			send(wire.Frame(h2))
			h, err := wire.ReadFrame(cn)
			if err != nil {
				return false
			}
			s.Derive(h)
			send(wire.Frame(wire.Seal(s.A, s.Proof(me))))
			follow()
			return true
		}
		// own hello to the node, own hello to the other, proof of the other under the node's key
		if !hello() {
			return false
		}
		s2 := &wire.Session{Conn: c2, Eph: wire.GenEph()}
		c2.Write(wire.Frame(wire.Hello(s2.Eph)))
		h, err := wire.ReadFrame(c2)
		if err != nil || s2.Derive(h) != nil {
			return false
		}
		f, err := wire.ReadFrame(c2)
		if err != nil {
			return false
		}
		pl, _ := wire.Open(s2.A, f)
		send(wire.Frame(wire.Seal(s.A, pl)))
		follow()
		return true
	case atkProof:
		if !hello() {
			return false
		}
		good := s.Proof(me)
		id := me.Bytes()
		signed := func(key ed25519.PrivateKey, id []byte, tail []byte) []byte {
			return append(append([]byte{}, id...), ed25519.Sign(key, append(append([]byte{}, id...), tail...))...)
		}
		hon := w.honest.Bytes()
		var pl []byte
		var raw []byte
		switch a.Var % 16 {
		case 0:
			pl = signed(me.Priv, hon, s.Shared)
		case 1:
			pl = signed(me.Priv, id, nil)
		case 2:
			pl = signed(me.Priv, id, gen.Expand(uint64(a.Pos), 32))
		case 3:
			pl = append(append([]byte{}, hon...), good[50:]...)
		case 4:
			pl = append(append([]byte{}, w.v.ID().Marshal()...), good[50:]...)
		case 5:
			pl = w.recID[a.Pos%2]
		case 6:
			pl = append(append([]byte{}, id...), make([]byte, 64)...)
		case 7: // encrypted under another key
			raw = wire.Seal(wire.AEAD(gen.Expand(uint64(a.Pos), 32)), good)
		case 8: // not encrypted
			raw = good
		case 9, 10: // ciphertext altered
			raw = mutate(wire.Seal(s.A, good), a.Var-9, a.Pos, a.Bytes)
		case 11:
			pl = id[:a.Pos%51]
		case 12: // other id of the same key, with the signature of the first
			b := append([]byte{}, good...)
			b[32+a.Pos%18] ^= 1 << (a.Pos % 7)
			pl = b
		case 13: // signed by the ephemeral key
			pl = signed(s.Eph, id, s.Shared)
		default:
			pl = mutate(good, a.Pos%7, a.Pos/7, a.Bytes)
		}
		if raw == nil {
			raw = wire.Seal(s.A, pl)
		}
		send(wire.Frame(raw))
		follow()
		return true
	case atkWeakIdentity:
		if !hello() {
			return false
		}
		ks := weakKeys()
		id := me.Bytes()
		copy(id, ks[a.Pos%len(ks)])
		sig, _ := weakSignature(id[:32], append(append([]byte{}, id...), s.Shared...), byte(a.Var))
		send(wire.Frame(wire.Seal(s.A, append(append([]byte{}, id...), sig...))))
		follow()
		return true
	case atkGarbage:
		if a.Early {
			send(a.Bytes)
			return false
		}
		if !hello() {
			return false
		}
		send(wire.Frame(a.Bytes))
		follow()
		return true
	case atkCut:
		h := wire.Frame(wire.Hello(s.Eph))
		if a.Var%2 == 0 {
			send(h[:a.Pos%len(h)])
			return false
		}
		if !hello() {
			return false
		}
		f := wire.Frame(wire.Seal(s.A, s.Proof(me)))
		send(f[:a.Pos%len(f)])
		return false
	}
	return false
}

func runC06(c *C, p c06Plan) {
	Bubble(c, func(e *Env) {
		e.link(p.Link)
		w := &c06World{e: e, p: p, honest: peerIdent(1, 4001)}
		type event struct {
			id   noise.ID
			what string
			data []byte
		}
		var mu sync.Mutex
		var log []event
		failed := map[string]int{}
		put := func(id noise.ID, what string, d []byte) {
			mu.Lock()
			log = append(log, event{id, what, append([]byte(nil), d...)})
			mu.Unlock()
		}
		w.v = e.Node(noise.WithNodeMaxDialAttempts(uint(p.Attempts)), noise.WithNodeNumWorkers(2))
		w.v.Bind(noise.Protocol{
			OnPeerConnected:    func(x *noise.Client) { put(x.ID(), "connected", nil) },
			OnPeerDisconnected: func(x *noise.Client) { put(x.ID(), "disconnected", nil) },
			OnMessageRecv:      func(x *noise.Client) { put(x.ID(), "recv", nil) },
			OnMessageSent:      func(x *noise.Client) { put(x.ID(), "sent", nil) },
			OnPingFailed:       func(addr string, err error) { mu.Lock(); failed[addr]++; mu.Unlock() },
		})
		w.v.Handle(func(ctx noise.HandlerContext) error {
			put(ctx.ID(), "message", ctx.Data())
			if ctx.IsRequest() {
				return ctx.Send([]byte("ok"))
			}
			return nil
		})
		w.other = e.Node(noise.WithNodeNumWorkers(1))
		if !e.Listen(w.v) || !e.Listen(w.other) {
			return
		}
		// The honest peer connects, and is recorded in both roles.
		s0, c0, err := e.Dial(w.v.Addr(), w.honest, policy{})
		if err != nil {
			e.Fail("an honest peer is refused: %v", err)
			return
		}
		e.Defer(func() { c0.Close() })
		for role := 0; role < 2; role++ {
			cn := (*vconn)(nil)
			hc := make(chan struct{})
			play := func(x *vconn) {
				defer close(hc)
				cn = x
				s := &wire.Session{Conn: x, Eph: wire.GenEph()}
				b := wire.Frame(wire.Hello(s.Eph))
				x.Write(b)
				h, err := wire.ReadFrame(x)
				if err != nil || s.Derive(h) != nil {
					e.Fail("the node's first frame is malformed: %v", err)
					return
				}
				pr := s.Proof(w.honest)
				f := wire.Frame(wire.Seal(s.A, pr))
				x.Write(f)
				if err := s.ReadProof(); err != nil {
					e.Fail("the node's proof is malformed: %v", err)
					return
				}
				m := wire.Frame(wire.Seal(s.A, wire.Body(0, payload(0x600d, 16))))
				x.Write(m)
				w.rec[role] = append(append(b, f...), m...)
				w.recID[role] = pr
			}
			if role == 0 {
				x, err := e.Net.DialFrom(context.Background(), w.v.Addr(), policy{}, policy{})
				if err != nil {
					e.Fail("cannot connect: %v", err)
					return
				}
				if !e.Within(time.Minute, func() { play(x) }) {
					e.Hang("an honest handshake does not end")
					return
				}
			} else {
				l, addr := e.Serve(func(k int, x *vconn) {
					if k == 0 {
						play(x)
					}
				})
				if !e.Within(time.Minute, func() { _, err = w.v.Ping(context.Background(), addr); <-hc }) || err != nil {
					e.Fail("Ping of an honest peer failed: %v", err)
					return
				}
				l.Close()
			}
			time.Sleep(time.Second)
			if cn != nil {
				cn.Close()
			}
			if e.Failed() {
				return
			}
		}
		time.Sleep(time.Second)
		e.Settle()
		mu.Lock()
		n600 := 0
		for _, x := range log {
			if x.what == "message" {
				n600++
			}
		}
		if n600 != 2 {
			e.Fail("%d of 2 messages of an honest peer were handled", n600)
		}
		log = nil
		mu.Unlock()
		if e.Failed() {
			return
		}
		// The attacks.
		type resT struct {
			addr    string
			pingErr error
			client  *noise.Client
			pinged  bool
			errs    []error
		}
		res := make([]resT, len(p.Attacks))
		one := func(i int) {
			a := p.Attacks[i]
			play := func(cn *vconn) {
				complete := w.run(i, a, cn)
				if a.Kind == atkHonest {
					time.Sleep(20 * time.Second)
					return
				}
				if complete {
					if !ended(cn, 3*time.Minute) && a.Kind != atkReflectProof {
						// The node may be waiting for the rest of an altered frame only if its length was altered, which
						// none of the complete attacks does.
						e.Fail("attack %d (kind %d/%d): the connection is not closed", i, a.Kind, a.Var)
					}
				} else {
					time.Sleep(time.Second)
				}
				cn.Close()
			}
			if a.Out {
				var wg sync.WaitGroup
				l, addr := e.Serve(func(k int, cn *vconn) {
					wg.Add(1)
					defer wg.Done()
					play(cn)
				})
				res[i].addr = addr
				ctx, cancel := context.WithTimeout(context.Background(), 30*time.Minute)
				cl, err := w.v.Ping(ctx, addr)
				cancel()
				res[i].pinged, res[i].pingErr, res[i].client = true, err, cl
				wg.Wait()
				l.Close()
				return
			}
			cn, err := e.Net.DialFrom(context.Background(), w.v.Addr(), p.Link.policy(), p.Link.policy())
			if err != nil {
				e.Fail("cannot connect to the node: %v", err)
				return
			}
			var seen []*noise.Client
			if !p.Par {
				e.Wait(time.Second, time.Millisecond, func() bool { seen = w.v.Inbound(); return len(seen) >= 2 })
			}
			play(cn)
			time.Sleep(time.Second)
			e.Settle()
			if !p.Par && a.Kind != atkHonest {
				for _, x := range seen {
					if x.ID().ID == noise.ZeroPublicKey {
						res[i].errs = append(res[i].errs, x.Error())
					}
				}
			}
		}
		var fs []func()
		for i := range p.Attacks {
			fs = append(fs, func() { one(i) })
		}
		if !p.Par {
			all := fs
			fs = []func(){func() {
				for _, f := range all {
					f()
				}
			}}
		}
		fs = append(fs, func() {
			for k := 0; k < 5; k++ {
				s0.Send(0, payload(uint64(0x1000+k), 16))
				time.Sleep(300 * time.Millisecond)
			}
		})
		if !e.Within(4*time.Hour, func() { All(fs...) }) {
			e.Hang("a handshake never ends")
			return
		}
		time.Sleep(time.Minute)
		e.Settle()
		mu.Lock()
		defer mu.Unlock()
		served := 0
		own := w.v.ID()
		accepted := map[int]int{}
		for _, x := range log {
			if x.id.ID == noiseID(w.honest).ID {
				if x.what == "message" {
					id, _ := payloadID(x.data)
					if id < 0x1000 || id > 0x1004 {
						e.Fail("a message the honest peer has not sent is handled as its own (%x)", id)
					}
					served++
				} else if x.what == "connected" {
					e.Fail("a peer was announced as the honest peer although that did not connect")
				}
				continue
			}
			if x.id.ID == own.ID {
				reflecting := false
				for _, a := range p.Attacks {
					reflecting = reflecting || a.Kind == atkReflectProof
				}
				if !reflecting {
					e.Fail("a peer was accepted under the node's own identity (%s)", x.what)
				} else {
					e.Known("own-proof-reflected", "a peer that sends the node's own identity proof back is accepted as the node itself")
				}
				continue
			}
			ok := false
			for i, a := range p.Attacks {
				if a.Kind == atkHonest && sameID(x.id, noiseID(w.me(i))) {
					ok = true
					accepted[i]++
				}
			}
			if !ok {
				e.Fail("callback or handler (%s) for a peer that proved no identity: %s", x.what, idStr(x.id))
			}
		}
		if served != 5 {
			e.Fail("%d of 5 messages of the honest peer were handled", served)
		}
		for i, a := range p.Attacks {
			r := res[i]
			e.Label("attack-%d", a.Kind)
			if a.Kind == atkHonest {
				if accepted[i] == 0 || r.pingErr != nil {
					e.Fail("an honest handshake is refused (%v)", r.pingErr)
				}
				continue
			}
			e.NonTrivial()
			if a.Kind == atkReflectProof {
				continue
			}
			if r.pinged {
				if r.pingErr == nil {
					e.Fail("Ping succeeded with attack %d/%d, as %s", a.Kind, a.Var, idStr(r.client.ID()))
				}
				if failed[r.addr] != 1 {
					e.Fail("a refused dial was reported %d times", failed[r.addr])
				}
			}
			for _, err := range r.errs {
				if err == nil {
					e.Fail("attack %d/%d was refused without an error on the accepting side", a.Kind, a.Var)
				}
			}
		}
		for _, x := range append(w.v.Inbound(), w.v.Outbound()...) {
			id := x.ID()
			ok := id.ID == noiseID(w.honest).ID || id.ID == own.ID
			for i := range p.Attacks {
				ok = ok || (p.Attacks[i].Kind == atkHonest && id.ID == noiseID(w.me(i)).ID)
			}
			if !ok {
				e.Fail("after a refused handshake, its connection is still listed")
			}
		}
	})
}
