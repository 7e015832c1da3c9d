package main

import (
	"bytes"
	"math/big"
	"net"
	"net/netip"
	"strconv"
	"strings"
	"sync"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"

	"verifharness/gen"
)

// C36: distances and addresses are computed exactly.

type c36Plan struct {
	A, B    []byte
	N       int
	Target  []byte
	Keys    [][]byte
	Host    []byte
	HostHow int // how the host is written
	Port    string
	Addr    string // any address
}

func init() {
	register(&Prop{ID: "C36", Quick: 60000, Thorough: 4000000, Rule: "Byte strings of equal length (0 to 70 bytes, random, equal up to a generated bit, sparse), numbers of bits within and beyond them, up to forty keys around a target with duplicates and shared prefixes, and addresses in all notations of hosts and ports. Results are compared with big-integer arithmetic and bit-by-bit counting, resolved addresses with net/netip; arguments must stay as they were and concurrent calls agree. Non-trivial: at least four keys, and strings that differ.",
		Assume: []string{"Only numeric hosts are resolved, as there is no network."}},
		func(s *gen.S) c36Plan {
			p := c36Plan{N: gen.Pick(s, s.Intn(600), s.Intn(600), s.Intn(80), 8*s.Intn(40), -1, 1<<30)}
			n := gen.Pick(s, 32, 32, s.Intn(71), s.Intn(5))
			p.A = s.Bytes(n)
			near := func(a []byte) []byte { // shares a prefix with a
				b := cp(a)
				if len(b) == 0 {
					return b
				}
				switch s.Intn(5) {
				case 0:
					return s.Bytes(len(a))
				case 1:
					return b
				case 2:
					b[s.Intn(len(b))] ^= 1 << s.Intn(8)
				case 3:
					k := s.Intn(len(b))
					copy(b[k:], s.Bytes(len(b)-k))
				case 4:
					k := s.Intn(len(b))
					b[k] ^= byte(1 + s.Intn(255))
					copy(b[k+1:], s.Bytes(len(b)-k-1))
				}
				return b
			}
			if s.Bool(20) {
				p.A = make([]byte, n)
			}
			p.B = near(p.A)
			p.Target = s.Bytes(32)
			for k := s.Intn(gen.Pick(s, 5, 40)); k > 0; k-- {
				switch {
				case len(p.Keys) > 0 && s.Bool(15):
					p.Keys = append(p.Keys, gen.Pick(s, p.Keys...))
				case len(p.Keys) > 0 && s.Bool(30):
					p.Keys = append(p.Keys, near(gen.Pick(s, p.Keys...)))
				default:
					p.Keys = append(p.Keys, near(p.Target))
				}
			}
			p.Host = genHost(s)
			p.HostHow = s.Intn(5)
			p.Port = gen.Pick(s, strconv.Itoa(s.Intn(65536)), "0", "65535", "1", strconv.Itoa(65536+s.Intn(5)), "", "-1", "x y")
			p.Addr = gen.Pick(s, ":", "1.2.3.4", "::1", "[::1]", "[]:1", "1.2.3.4:5:6", "[1.2.3.4]:80", ":70000", "[::1]x:1", "]:[", ":08", "127.1.2.3:007", "0.0.0.0:9", "[::ffff:127.0.0.1]:4", "[::ffff:0.0.0.0]:4", "[fe80::1%eth0]:7")
			return p
		}, runC36)
}

func runC36(c *C, p c36Plan) {
	a, b := cp(p.A), cp(p.B)
	x := kademlia.XOR(a, b)
	wx := new(big.Int).Xor(new(big.Int).SetBytes(p.A), new(big.Int).SetBytes(p.B))
	want := wx.FillBytes(make([]byte, len(p.A)))
	if !bytes.Equal(x, want) {
		c.Fail("XOR of %x and %x is %x", p.A, p.B, x)
	}
	if y := kademlia.XOR(b, a); !bytes.Equal(x, y) {
		c.Fail("XOR of %x and %x depends on their order", p.A, p.B)
	}
	if y := kademlia.XOR(x, b); !bytes.Equal(y, a) {
		c.Fail("XOR does not undo itself for %x and %x", p.A, p.B)
	}
	if !bytes.Equal(a, p.A) || !bytes.Equal(b, p.B) {
		c.Fail("XOR changes its arguments")
	}
	for i := range x { // a result of its own
		x[i] ^= 0xff
	}
	if !bytes.Equal(a, p.A) || !bytes.Equal(b, p.B) {
		c.Fail("the result of XOR shares memory with its arguments")
	}
	bit := func(v []byte, i int) int { return int(v[i/8]>>(7-i%8)) & 1 }
	lead := 0
	for lead < 8*len(want) && bit(want, lead) == 0 {
		lead++
	}
	if n := kademlia.PrefixLen(want); n != lead {
		c.Fail("PrefixLen of %x is %d instead of %d", want, n, lead)
	}
	differ := 0
	for i := 0; i < 8*len(want) && i < p.N; i++ {
		differ += bit(want, i)
	}
	if n := kademlia.PrefixDiff(a, b, p.N); n != differ {
		c.Fail("PrefixDiff of the first %d bits of %x and %x is %d instead of %d", p.N, p.A, p.B, n, differ)
	}

	// Sorting.
	var target noise.PublicKey
	copy(target[:], p.Target)
	ids := make([]noise.ID, len(p.Keys))
	count := map[string]int{}
	for i, k := range p.Keys {
		var pk noise.PublicKey
		copy(pk[:], k)
		ids[i] = noise.NewID(pk, net.IPv4(10, 0, byte(i), 1), uint16(i+1))
		count[idStr(ids[i])]++
	}
	in := append([]noise.ID{}, ids...)
	out := kademlia.SortByDistance(target, in)
	dist := func(i noise.ID) *big.Int {
		return new(big.Int).Xor(new(big.Int).SetBytes(i.ID[:]), new(big.Int).SetBytes(p.Target))
	}
	if len(out) != len(ids) {
		c.Fail("sorting %d identities gives %d", len(ids), len(out))
	}
	for i := range out {
		count[idStr(out[i])]--
		if count[idStr(out[i])] < 0 {
			c.Fail("sorting makes up or repeats an identity")
		}
		if i > 0 && dist(out[i-1]).Cmp(dist(out[i])) > 0 {
			c.Fail("sorted by distance, number %d of %d is nearer than the one before", i, len(out))
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < 2 && len(ids) < 12; k++ { // on copies of their own
		wg.Add(1)
		go func() {
			defer wg.Done()
			o := kademlia.SortByDistance(target, append([]noise.ID{}, ids...))
			for i := range o {
				if dist(o[i]).Cmp(dist(out[i])) != 0 {
					c.Fail("sorting twice gives different orders")
				}
			}
		}()
	}
	wg.Wait()

	// Addresses.
	host := ""
	ip := net.IP(p.Host)
	if ip != nil {
		host = ip.String()
		switch p.HostHow {
		case 1: // in full
			if len(ip) == 16 && ip.To4() == nil {
				v, _ := netip.AddrFromSlice(ip)
				host = v.StringExpanded()
			}
		case 2:
			host = strings.ToUpper(host)
		case 3:
			if ip.To4() != nil {
				host = "::ffff:" + ip.To4().String()
			}
		}
	}
	resolve(c, net.JoinHostPort(host, p.Port))
	resolve(c, p.Addr)
	if len(p.Keys) >= 4 && wx.Sign() != 0 {
		c.NonTrivial()
	}
	c.Label("host of %d bytes, written %d", len(p.Host), p.HostHow)
}

// resolve compares the resolution of a numeric address.
func resolve(c *C, addr string) {
	got, err := noise.ResolveAddress(addr)
	host, port, herr := net.SplitHostPort(addr)
	n, perr := strconv.ParseUint(port, 10, 16)
	if port == "" || strings.HasPrefix(port, "-") || strings.HasPrefix(port, "+") {
		if port == "" {
			perr, n = nil, 0
		}
	}
	var v netip.Addr
	var aerr error
	if host != "" {
		v, aerr = netip.ParseAddr(host)
	}
	if herr != nil || perr != nil {
		if err == nil {
			c.Fail("%q resolves to %q", addr, got)
		}
		return
	}
	if aerr != nil {
		return // a name
	}
	if err != nil {
		c.Fail("%q does not resolve: %v", addr, err)
		return
	}
	if v.Zone() != "" {
		return // depends on the interfaces there are
	}
	v = v.Unmap()
	want := ""
	if host != "" && !v.IsLoopback() && !v.IsUnspecified() {
		want = v.String()
	}
	want = net.JoinHostPort(want, strconv.FormatUint(n, 10))
	if got != want {
		c.Fail("%q resolves to %q instead of %q", addr, got, want)
	}
	if again, err := noise.ResolveAddress(got); err != nil || again != got {
		c.Fail("%q resolves to %q, and that to %q (%v)", addr, got, again, err)
	}
}
