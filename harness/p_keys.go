package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"errors"
	"io"
	"math/big"
	"strings"

	"github.com/perlin-network/noise"

	"verifharness/gen"
	"verifharness/wire"
)

// C23: keys, signatures, shared secrets.

type keyPlan struct {
	SeedA, SeedB []byte
	Msg          []byte
	FlipSig      int
	FlipMsg      int
	FlipKey      int
	Hex          string
	Sig          []byte // arbitrary signature bytes
	Weak         int
	PeerY        []byte // arbitrary peer key for the shared secret
	AddS         bool
}

func init() {
	register(&Prop{ID: "C23", Quick: 3000, Thorough: 100000, Rule: "Generated seeds, messages (empty to 64 KB), single-bit corruptions of message, key and signature, arbitrary signatures, malleated signatures (S+L), hexadecimal texts of right and wrong length and alphabet, all weak peer keys in canonical and non-canonical encodings; compared with crypto/ed25519, crypto/ecdh and an independent Edwards-to-Montgomery map. Every case signs, corrupts and exchanges; non-trivial: all cases with a non-empty message."},
		func(s *gen.S) keyPlan {
			p := keyPlan{SeedA: s.Bytes(32), SeedB: s.Bytes(32), Msg: s.Bytes(gen.Pick(s, 0, 1, s.Intn(100), s.Intn(3000), 65536*s.Intn(2))), FlipSig: s.Intn(512), FlipMsg: s.Intn(1 << 20), FlipKey: s.Intn(256), Sig: s.Bytes(64), Weak: s.Intn(len(weakKeys())), PeerY: s.Bytes(32), AddS: s.Bool(30)}
			switch s.Intn(6) {
			case 0:
				p.Hex = hex.EncodeToString(s.Bytes(s.Intn(130)))
			case 1:
				p.Hex = hex.EncodeToString(s.Bytes(63 + s.Intn(3)))
			case 2:
				b := []byte(hex.EncodeToString(s.Bytes(64)))
				b[s.Intn(128)] = byte(s.Intn(256))
				p.Hex = string(b)
			case 3:
				p.Hex = strings.ToUpper(hex.EncodeToString(s.Bytes(64)))
			case 4:
				p.Hex = hex.EncodeToString(s.Bytes(64)) + gen.Pick(s, "", "0", " ", "00", "\n")
			case 5:
				p.Hex = string(s.Bytes(s.Intn(140)))
			}
			return p
		}, runC23)
}

var ordL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

// weakKeys lists the encodings of points of small order, canonical and not.
func weakKeys() [][]byte {
	hx := []string{
		"0100000000000000000000000000000000000000000000000000000000000000", // 1: u = inf
		"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", // -1: order 2
		"0000000000000000000000000000000000000000000000000000000000000000", // 0: order 4
		"0000000000000000000000000000000000000000000000000000000000000080",
		"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", // order 8
		"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85",
		"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
		"c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa",
		"0100000000000000000000000000000000000000000000000000000000000080",
		"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", // p
		"eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", // p+1
		"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
		"eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
		"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
	}
	var out [][]byte
	for _, h := range hx {
		b, _ := hex.DecodeString(h)
		out = append(out, b)
	}
	return out
}

func runC23(c *C, p keyPlan) {
	if len(p.Msg) > 0 {
		c.NonTrivial()
	}
	stdA, stdB := ed25519.NewKeyFromSeed(p.SeedA), ed25519.NewKeyFromSeed(p.SeedB)
	// Generation from a given source, and from crypto/rand.
	pubA, privA, err := noise.GenerateKeys(bytes.NewReader(p.SeedA))
	if err != nil {
		c.Fail("GenerateKeys: %v", err)
		return
	}
	if !bytes.Equal(privA[:], stdA) || !bytes.Equal(pubA[:], stdA.Public().(ed25519.PublicKey)) {
		c.Fail("GenerateKeys does not derive the Ed25519 key pair of its seed")
	}
	if _, _, err := noise.GenerateKeys(bytes.NewReader(p.SeedA[:31])); err == nil {
		c.Fail("GenerateKeys succeeds with a source of 31 bytes")
	}
	q1, s1, err1 := noise.GenerateKeys(nil)
	q2, s2, err2 := noise.GenerateKeys(nil)
	if err1 != nil || err2 != nil || q1 == q2 || s1 == s2 || s1.Public() != q1 {
		c.Fail("GenerateKeys(nil) gives equal or unmatched keys, or fails: %v %v", err1, err2)
	}
	if privA.Public() != pubA {
		c.Fail("Public() of a private key is not its public key")
	}
	// Loading.
	for _, text := range []string{hex.EncodeToString(stdA), strings.ToUpper(hex.EncodeToString(stdA)), p.Hex} {
		raw, herr := hex.DecodeString(text)
		k, err := noise.LoadKeysFromHex(text)
		switch {
		case herr != nil:
			if err == nil {
				c.Fail("loading %q succeeds though it is not hexadecimal", text)
			}
		case len(raw) != 64:
			if err == nil || !errors.Is(err, io.ErrUnexpectedEOF) {
				c.Fail("loading %d bytes gives error %v", len(raw), err)
			}
		default:
			if err != nil || !bytes.Equal(k[:], raw) || k.String() != strings.ToLower(text) {
				c.Fail("loading %q gives %v, %v", text, k, err)
			}
		}
	}
	// Text and JSON.
	sig := privA.Sign(p.Msg)
	for _, x := range []struct {
		s string
		m json.Marshaler
		b []byte
	}{{pubA.String(), pubA, pubA[:]}, {privA.String(), privA, privA[:]}, {sig.String(), sig, sig[:]}} {
		js, err := x.m.MarshalJSON()
		if w := hex.EncodeToString(x.b); x.s != w || err != nil || string(js) != `"`+w+`"` {
			c.Fail("text %q JSON %q of %x (error %v)", x.s, js, x.b, err)
		}
	}
	// Signatures, against another implementation, in both directions.
	std := ed25519.Sign(stdA, p.Msg)
	if !ed25519.Verify(pubA[:], p.Msg, sig[:]) {
		c.Fail("crypto/ed25519 rejects a signature of noise")
	}
	if !bytes.Equal(std, sig[:]) {
		c.Fail("signature %x, crypto/ed25519 gives %x", sig[:], std)
	}
	us := noise.UnmarshalSignature(std)
	if !bytes.Equal(us[:], std) {
		c.Fail("UnmarshalSignature(%x) = %x", std, us[:])
	}
	if !pubA.Verify(p.Msg, us) {
		c.Fail("noise rejects a signature of crypto/ed25519")
	}
	std[0] ^= 1
	if us == noise.UnmarshalSignature(std) {
		c.Fail("an unmarshalled signature changes with its buffer")
	}
	std[0] ^= 1
	bad := sig
	bad[p.FlipSig/8] ^= 1 << (p.FlipSig % 8)
	if pubA.Verify(p.Msg, bad) {
		c.Fail("signature with bit %d flipped is accepted", p.FlipSig)
	}
	if len(p.Msg) > 0 {
		m := cp(p.Msg)
		i := p.FlipMsg % (8 * len(m))
		m[i/8] ^= 1 << (i % 8)
		if pubA.Verify(m, sig) {
			c.Fail("signature is accepted for a message of %d bytes with bit %d flipped", len(m), i)
		}
		if pubA.Verify(m[:len(m)-1], sig) {
			c.Fail("signature is accepted for a shortened message")
		}
	}
	if pubA.Verify(append(cp(p.Msg), 0), sig) {
		c.Fail("signature is accepted for a lengthened message")
	}
	pk := pubA
	pk[p.FlipKey/8] ^= 1 << (p.FlipKey % 8)
	if pk.Verify(p.Msg, sig) {
		c.Fail("signature is accepted under a key with bit %d flipped", p.FlipKey)
	}
	var pubB noise.PublicKey
	copy(pubB[:], stdB.Public().(ed25519.PublicKey))
	if pubB != pubA && pubB.Verify(p.Msg, sig) {
		c.Fail("signature is accepted under another key")
	}
	if pubA.Verify(p.Msg, noise.UnmarshalSignature(p.Sig)) {
		c.Fail("arbitrary bytes are accepted as a signature")
	}
	if pubA.Verify(p.Msg, noise.ZeroSignature) {
		c.Fail("the zero signature is accepted")
	}
	if p.AddS { // S+L: the same signature in another encoding
		le := cp(sig[32:])
		for i, j := 0, 31; i < j; i, j = i+1, j-1 {
			le[i], le[j] = le[j], le[i]
		}
		s := new(big.Int).Add(new(big.Int).SetBytes(le), ordL)
		mb := sig
		be := s.FillBytes(make([]byte, 32))
		for i := range be {
			mb[32+i] = be[31-i]
		}
		if pubA.Verify(p.Msg, mb) {
			c.Fail("signature with S+L is accepted")
		}
		c.Label("malleated signature")
	}
	// Shared secrets.
	var privB noise.PrivateKey
	copy(privB[:], stdB)
	ab, e1 := noise.ECDH(privA, pubB)
	ba, e2 := noise.ECDH(privB, pubA)
	if e1 != nil || e2 != nil || !bytes.Equal(ab, ba) {
		c.Fail("shared secrets differ: %x %x (%v %v)", ab, ba, e1, e2)
		return
	}
	ref, err := wire.Shared(stdA, pubB[:])
	if err != nil || !bytes.Equal(ref, ab) {
		c.Fail("shared secret is %x, X25519 on the corresponding keys gives %x (%v)", ab, ref, err)
	}
	weak := noise.PublicKey(weakKeys()[p.Weak])
	c.Label("weak key %d", p.Weak)
	var w []byte
	if r := catch(func() { w, err = noise.ECDH(privA, weak) }); r != nil {
		// A panic is no error. The point with 1-y = 0 has no inverse; math/big leaves it undefined.
		c.Fail("ECDH with the weak key %x panics: %v", weak[:], r)
		return
	}
	if err == nil {
		c.Fail("ECDH accepts the weak key %x and gives %x", weak[:], w)
	}
	var any noise.PublicKey
	copy(any[:], p.PeerY)
	got, err := noise.ECDH(privA, any)
	ref, rerr := wire.Shared(stdA, any[:])
	if (err == nil) != (rerr == nil) || !bytes.Equal(got, ref) {
		c.Fail("ECDH with %x gives %x (%v), X25519 gives %x (%v)", any[:], got, err, ref, rerr)
	}
}
