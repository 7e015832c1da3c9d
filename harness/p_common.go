package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"net"
	"strconv"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verifharness/gen"
	"verifharness/vnet"
	"verifharness/wire"
)

// Link is the behaviour of the connections of a case.
type Link struct {
	LatMs  int
	Frag   int
	Window int
	Batch  int // ms, of the bytes to the dialled side
	Back   int // ms, of the bytes to the dialling side
}

func (l Link) policy() vnet.Policy {
	return vnet.Policy{Latency: time.Duration(l.LatMs) * time.Millisecond, Frag: l.Frag, Window: l.Window}
}

func genLink(s *gen.S) Link {
	return Link{LatMs: gen.Pick(s, 0, 0, 1, 20, 150), Frag: gen.Pick(s, 0, 0, 0, 1, 3, 17, 1000), Window: gen.Pick(s, 0, 0, 0, 64, 1000, 65536)}
}

func (l Link) policies() (vnet.Policy, vnet.Policy) {
	a, b := l.policy(), l.policy()
	a.Batch, b.Batch = time.Duration(l.Batch)*time.Millisecond, time.Duration(l.Back)*time.Millisecond
	return a, b
}

// genLinkBatch is genLinkFast with bytes that arrive together.
func genLinkBatch(s *gen.S) Link {
	l := genLinkFast(s)
	l.Batch, l.Back = gen.Pick(s, 0, 0, 0, 10, 100), gen.Pick(s, 0, 0, 0, 10, 100)
	return l
}

// genLinkFast is genLink for cases that move much data.
func genLinkFast(s *gen.S) Link {
	return Link{LatMs: gen.Pick(s, 0, 0, 1, 20, 150), Frag: gen.Pick(s, 0, 0, 0, 100, 1000), Window: gen.Pick(s, 0, 0, 0, 4096, 65536)}
}

func (e *Env) link(l Link) {
	e.Net.OnConn = func(*vnet.Dial) (vnet.Policy, vnet.Policy) { return l.policies() }
}

// Node makes a node that is closed at the end of the case.
func (e *Env) Node(opts ...noise.NodeOption) *noise.Node {
	n, err := noise.NewNode(opts...)
	if err != nil {
		panic("NewNode: " + err.Error())
	}
	e.Defer(func() { n.Close() })
	return n
}

// Listen has n listen, which must work.
func (e *Env) Listen(n *noise.Node) bool {
	var err error
	if !e.Within(10*time.Second, func() { err = n.Listen() }) {
		e.Hang("Listen does not return")
		return false
	}
	if err != nil {
		e.Fail("Listen failed: %v", err)
		return false
	}
	return true
}

// payload makes the bytes of message id: its first eight bytes tell the id.
func payload(id uint64, size int) []byte {
	if size < 8 {
		size = 8
	}
	b := gen.Expand(id*2654435761+uint64(size), size)
	binary.BigEndian.PutUint64(b, id)
	return b
}

func payloadID(b []byte) (uint64, bool) {
	if len(b) < 8 {
		return 0, false
	}
	return binary.BigEndian.Uint64(b), true
}

func sameID(a, b noise.ID) bool {
	return a.ID == b.ID && a.Host.Equal(b.Host) && a.Port == b.Port && a.Address == b.Address
}

func idStr(i noise.ID) string {
	return fmt.Sprintf("%x@%s (host %v port %d)", i.ID[:4], i.Address, i.Host, i.Port)
}

// same compares bytes, describing the difference.
func diff(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d bytes instead of %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d of %d differs", i, len(got))
		}
	}
	return "?"
}

// All runs fs concurrently and waits for them.
func All(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

// ctxFor returns a context with a timeout in milliseconds (none for 0).
func ctxFor(ms int) (context.Context, context.CancelFunc) {
	if ms <= 0 {
		return context.WithCancel(context.Background())
	}
	return context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond)
}

// Wait waits until cond holds, looking at it each time step, for at most d.
func (e *Env) Wait(d, step time.Duration, cond func() bool) bool {
	for t := time.Duration(0); ; t += step {
		e.Settle()
		if cond() {
			return true
		}
		if t >= d {
			return false
		}
		time.Sleep(step)
	}
}

// peerID makes an identity for a wire peer.
func peerIdent(seed int, port int) wire.Identity {
	return wire.NewIdentity(gen.Expand(uint64(seed)+77, 32), net.IPv4(127, 0, 0, 1), uint16(port))
}

func noiseID(i wire.Identity) noise.ID {
	var k noise.PublicKey
	copy(k[:], i.Pub)
	return noise.NewID(k, i.Host, i.Port)
}

// Dial connects a wire peer to a node and performs the handshake.
func (e *Env) Dial(addr string, me wire.Identity, p vnet.Policy) (*wire.Session, *vnet.Conn, error) {
	c, err := e.Net.DialFrom(context.Background(), addr, p, p)
	if err != nil {
		return nil, nil, err
	}
	c.SetDeadline(time.Now().Add(time.Minute))
	s, err := wire.Handshake(c, me)
	c.SetDeadline(time.Time{})
	return s, c, err
}

// Serve accepts connections for a wire peer; f gets each in a goroutine of its own.
func (e *Env) Serve(f func(n int, c *vnet.Conn)) (net.Listener, string) {
	l, err := e.Net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	e.Defer(func() { l.Close() })
	go func() {
		for i := 0; ; i++ {
			c, err := l.Accept()
			if err != nil {
				return
			}
			i := i
			go f(i, c.(*vnet.Conn))
		}
	}()
	return l, l.Addr().String()
}

// ended tells whether the peer's end of the connection has been closed by the other side (EOF or reset) within d,
// reading everything that arrives until then.
func ended(c *vnet.Conn, d time.Duration) bool {
	c.SetReadDeadline(time.Now().Add(d))
	b := make([]byte, 4096)
	for {
		_, err := c.Read(b)
		if err == nil {
			continue
		}
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return false
		}
		return true
	}
}

func hasPrefixErr(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

type (
	dialRec  = vnet.Dial
	policy   = vnet.Policy
	pipe     = vnet.Pipe
	outcome2 = vnet.Outcome
	vconn    = vnet.Conn
)

func itoa(n int) string { return strconv.Itoa(n) }
