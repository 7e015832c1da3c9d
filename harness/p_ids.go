package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"net"
	"strconv"

	"github.com/perlin-network/noise"

	"verifharness/gen"
)

// C21: identities.

type idPlan struct {
	Key   []byte
	Host  []byte // nil, 4 or 16 bytes
	Port  uint16
	Tail  []byte // bytes that follow the encoding
	Raw   []byte // arbitrary bytes to decode
	Host2 []byte // for the equality relation
}

func genHost(s *gen.S) []byte {
	switch s.Weighted(2, 6, 2, 4, 2, 2, 1, 1, 1) {
	case 0:
		return nil
	case 1: // IPv4 in 4 bytes
		return s.Bytes(4)
	case 2:
		return gen.Pick(s, []byte{127, 0, 0, 1}, []byte{0, 0, 0, 0}, []byte{255, 255, 255, 255}, []byte{10, 0, 0, 1}, []byte{127, 255, 3, 4})
	case 3: // IPv6
		return s.Bytes(16)
	case 4: // IPv4 in 16 bytes
		return append([]byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}, s.Bytes(4)...)
	case 5: // mostly zeros
		b := make([]byte, 16)
		b[s.Intn(16)] = byte(s.Intn(256))
		return b
	case 6:
		return net.IPv6loopback
	case 7:
		return net.IPv6unspecified
	default: // IPv4-compatible, link-local and the like
		b := s.Bytes(16)
		b[0], b[1] = 0xfe, 0x80
		return b
	}
}

func genKey(s *gen.S) []byte {
	switch s.Weighted(8, 1, 1, 1) {
	case 1:
		return make([]byte, 32)
	case 2:
		return bytes.Repeat([]byte{0xff}, 32)
	case 3:
		b := make([]byte, 32)
		b[s.Intn(32)] = byte(1 + s.Intn(255))
		return b
	}
	return s.Bytes(32)
}

func genPort(s *gen.S) uint16 {
	return gen.Pick(s, uint16(s.Intn(65536)), 0, 1, 80, 255, 256, 65535, 65280)
}

func init() {
	register(&Prop{ID: "C21", Quick: 30000, Thorough: 1500000, Rule: "Generated identities (random, extreme and sparse keys; absent, IPv4 in 4 and 16 bytes, IPv6, loopback, unspecified hosts; boundary ports) are encoded and decoded, with trailing bytes, cut at every length for short strings and from arbitrary byte strings; the encoding is compared with an independent one. Non-trivial: an address is present, or the raw string decodes."},
		func(s *gen.S) idPlan {
			p := idPlan{Key: genKey(s), Host: genHost(s), Port: genPort(s), Tail: s.Bytes(s.Intn(5) * s.Intn(20)), Host2: genHost(s)}
			switch s.Weighted(1, 1, 2) {
			case 0:
				p.Raw = s.Bytes(s.Intn(130))
			case 1:
				p.Raw = s.Bytes(50 + s.Intn(3) - 1)
			default: // structured
				p.Raw = append(append(append([]byte{}, genKey(s)...), to16(genHost(s))...), s.Bytes(2)...)
				p.Raw = append(p.Raw, s.Bytes(s.Intn(60))...)
			}
			return p
		}, runC21)
}

func to16(h []byte) []byte {
	b := make([]byte, 16)
	switch len(h) {
	case 4:
		b[10], b[11] = 0xff, 0xff
		copy(b[12:], h)
	case 16:
		copy(b, h)
	}
	return b
}

// refAddr is the textual address of an identity: nothing for absent, loopback and unspecified hosts.
func refAddr(h []byte, port uint16) string {
	ip := net.IP(h)
	s := ""
	if len(h) > 0 && !ip.IsLoopback() && !ip.IsUnspecified() {
		s = ip.String()
	}
	return net.JoinHostPort(s, strconv.Itoa(int(port)))
}

func sameHost(a, b net.IP) bool {
	z := func(x net.IP) bool { return len(x) == 0 || x.IsUnspecified() && x.To4() == nil }
	if z(a) || z(b) {
		return z(a) == z(b)
	}
	return a.Equal(b)
}

func runC21(c *C, p idPlan) {
	var k noise.PublicKey
	copy(k[:], p.Key)
	var host net.IP
	if p.Host != nil {
		host = append(net.IP{}, p.Host...)
		c.NonTrivial()
	}
	c.Label("host of %d bytes", len(p.Host))
	id := noise.NewID(k, host, p.Port)
	if id.ID != k || id.Port != p.Port {
		c.Fail("NewID lost key or port: %v", id)
	}
	if want := refAddr(p.Host, p.Port); id.Address != want {
		c.Fail("address of an identity with host %v port %d is %q, want %q", host, p.Port, id.Address, want)
	}
	enc := id.Marshal()
	if id.Size() != 50 || len(enc) != id.Size() {
		c.Fail("identity with host %v: size %d, encoding of %d bytes", host, id.Size(), len(enc))
		return
	}
	want := append(append(append([]byte{}, p.Key...), to16(p.Host)...), 0, 0)
	binary.BigEndian.PutUint16(want[48:], p.Port)
	if !bytes.Equal(enc, want) {
		c.Fail("identity with host %v port %d encodes to %x, want %x", host, p.Port, enc, want)
	}
	in := append(append([]byte{}, enc...), p.Tail...)
	orig := append([]byte{}, in...)
	dec, err := noise.UnmarshalID(in)
	if err != nil {
		c.Fail("encoded identity (host %v) does not decode: %v", host, err)
		return
	}
	if dec.ID != k || dec.Port != p.Port || !sameHost(dec.Host, host) || dec.Address != id.Address {
		c.Fail("identity %v (host %v) decodes to %v (host %v)", id, host, dec, dec.Host)
	}
	if !bytes.Equal(in, orig) {
		c.Fail("decoding changed its input")
	}
	for i := range in { // what was decoded must not depend on the buffer any longer
		in[i] ^= 0x5a
	}
	if dec.ID != k || dec.Port != p.Port || !sameHost(dec.Host, host) {
		c.Fail("decoded identity changes with the buffer it was decoded from")
	}
	if re := dec.Marshal(); !bytes.Equal(re, enc) {
		c.Fail("decoded identity encodes to %x instead of %x", re, enc)
	}
	// Truncation.
	for n := 0; n < 50; n++ {
		if _, err := noise.UnmarshalID(enc[:n]); err == nil {
			c.Fail("%d of 50 bytes decode without an error", n)
			break
		}
	}
	// Equality: the same key, host and port in whatever form encode equally, others differently.
	id2 := noise.NewID(k, append(net.IP{}, to16(p.Host)...), p.Port)
	if !bytes.Equal(id2.Marshal(), enc) && p.Host != nil {
		c.Fail("host %v in 16 bytes encodes to %x, in %d bytes to %x", host, id2.Marshal(), len(p.Host), enc)
	}
	if !bytes.Equal(to16(p.Host), to16(p.Host2)) {
		var h2 net.IP
		if p.Host2 != nil {
			h2 = p.Host2
		}
		if bytes.Equal(noise.NewID(k, h2, p.Port).Marshal(), enc) {
			c.Fail("hosts %v and %v encode equally", host, h2)
		}
	}
	// Arbitrary bytes.
	raw, err := noise.UnmarshalID(p.Raw)
	if len(p.Raw) < 50 {
		if err == nil {
			c.Fail("%d bytes decode without an error", len(p.Raw))
		}
	} else {
		c.Label("raw decodes")
		c.NonTrivial()
		if err != nil {
			c.Fail("%x does not decode: %v", p.Raw, err)
			return
		}
		if re := raw.Marshal(); !bytes.Equal(re, p.Raw[:50]) {
			c.Fail("%x decodes to an identity that encodes to %x", p.Raw[:50], re)
		}
		if w := refAddr(p.Raw[32:48], raw.Port); raw.Address != w {
			c.Fail("%x decodes to address %q, want %q", p.Raw[:50], raw.Address, w)
		}
	}
	// Text.
	var m map[string]string
	if err := json.Unmarshal([]byte(id.String()), &m); err != nil {
		c.Fail("textual form %q is not JSON: %v", id.String(), err)
	} else if m["public_key"] != hex.EncodeToString(p.Key) || m["address"] != id.Address || len(m) != 2 {
		c.Fail("textual form %q does not carry key and address", id.String())
	}
}
