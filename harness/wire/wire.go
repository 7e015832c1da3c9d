// Package wire implements a peer of the protocol independently of the code under test.
package wire

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
)

// Magic is what ephemeral keys sign.
const Magic = ".__noise_handshake"

var p25519, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)

// Montgomery maps an Ed25519 public key to the Curve25519 u-coordinate.
func Montgomery(pub []byte) []byte {
	be := make([]byte, 32)
	for i, b := range pub {
		be[31-i] = b
	}
	be[0] &= 0x7f
	y := new(big.Int).SetBytes(be)
	num := new(big.Int).Add(big.NewInt(1), y)
	den := new(big.Int).Sub(big.NewInt(1), y)
	den.Mod(den, p25519)
	// Inverse by Fermat; 0 for 0.
	inv := new(big.Int).Exp(den, new(big.Int).Sub(p25519, big.NewInt(2)), p25519)
	u := num.Mul(num, inv)
	u.Mod(u, p25519)
	out := make([]byte, 32)
	ub := u.Bytes()
	for i, b := range ub {
		out[len(ub)-1-i] = b
	}
	return out
}

// Scalar returns the X25519 scalar of an Ed25519 private key (or seed).
func Scalar(priv []byte) []byte {
	h := sha512.Sum512(priv[:32])
	return h[:32]
}

// Shared computes the shared secret.
func Shared(priv, pub []byte) ([]byte, error) {
	k, err := ecdh.X25519().NewPrivateKey(Scalar(priv))
	if err != nil {
		return nil, err
	}
	r, err := ecdh.X25519().NewPublicKey(Montgomery(pub))
	if err != nil {
		return nil, err
	}
	return k.ECDH(r)
}

// AEAD returns the cipher for a shared secret.
func AEAD(shared []byte) cipher.AEAD {
	b, err := aes.NewCipher(shared)
	if err != nil {
		panic(err)
	}
	g, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return g
}

// Identity is a long-term identity.
type Identity struct {
	Pub  ed25519.PublicKey
	Priv ed25519.PrivateKey
	Host net.IP
	Port uint16
}

// NewIdentity derives an identity from a seed.
func NewIdentity(seed []byte, host net.IP, port uint16) Identity {
	priv := ed25519.NewKeyFromSeed(seed[:32])
	return Identity{priv.Public().(ed25519.PublicKey), priv, host, port}
}

// Bytes is the encoding of the identity.
func (i Identity) Bytes() []byte {
	b := make([]byte, 50)
	copy(b, i.Pub)
	copy(b[32:48], i.Host.To16())
	binary.BigEndian.PutUint16(b[48:], i.Port)
	return b
}

// ReadFrame reads one frame.
func ReadFrame(r io.Reader) ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return nil, err
	}
	n := binary.BigEndian.Uint32(h[:])
	if n > 64<<20 {
		return nil, fmt.Errorf("frame of %d bytes", n)
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	return b, nil
}

// Frame prefixes the length.
func Frame(b []byte) []byte {
	out := make([]byte, 4+len(b))
	binary.BigEndian.PutUint32(out, uint32(len(b)))
	copy(out[4:], b)
	return out
}

// Seal encrypts to nonce||ciphertext.
func Seal(a cipher.AEAD, plain []byte) []byte {
	n := make([]byte, 12)
	rand.Read(n)
	return a.Seal(n, n, plain, nil)
}

// Open decrypts.
func Open(a cipher.AEAD, b []byte) ([]byte, error) {
	if len(b) < 12 {
		return nil, errors.New("short")
	}
	return a.Open(nil, b[:12], b[12:], nil)
}

// Hello returns the first handshake frame's body for an ephemeral key.
func Hello(eph ed25519.PrivateKey) []byte {
	pub := eph.Public().(ed25519.PublicKey)
	return append(append([]byte{}, pub...), ed25519.Sign(eph, []byte(Magic))...)
}

// Session is an established session.
type Session struct {
	Conn    net.Conn
	Shared  []byte
	A       cipher.AEAD
	Peer    []byte // identity bytes of the peer (50)
	Eph     ed25519.PrivateKey
	PeerEph []byte
}

// GenEph makes a fresh ephemeral key.
func GenEph() ed25519.PrivateKey {
	_, k, err := ed25519.GenerateKey(rand.Reader)
	if err != nil {
		panic(err)
	}
	return k
}

// Handshake performs the handshake honestly.
func Handshake(c net.Conn, me Identity) (*Session, error) {
	return HandshakeThen(c, me, func(*Session) {})
}

// HandshakeThen performs the handshake honestly, and calls f before the proof of the peer is read.
func HandshakeThen(c net.Conn, me Identity, f func(*Session)) (*Session, error) {
	s := &Session{Conn: c, Eph: GenEph()}
	if _, err := c.Write(Frame(Hello(s.Eph))); err != nil {
		return nil, err
	}
	h, err := ReadFrame(c)
	if err != nil {
		return nil, err
	}
	if err := s.Derive(h); err != nil {
		return nil, err
	}
	if _, err := c.Write(Frame(Seal(s.A, s.Proof(me)))); err != nil {
		return nil, err
	}
	f(s)
	return s, s.ReadProof()
}

// Derive takes the peer's first frame.
func (s *Session) Derive(h []byte) error {
	if len(h) != 96 {
		return fmt.Errorf("hello of %d bytes", len(h))
	}
	if !ed25519.Verify(h[:32], []byte(Magic), h[32:]) {
		return errors.New("hello not signed")
	}
	s.PeerEph = append([]byte{}, h[:32]...)
	sh, err := Shared(s.Eph, h[:32])
	if err != nil {
		return err
	}
	s.Shared = sh
	s.A = AEAD(sh)
	return nil
}

// Proof is the honest second frame's plaintext.
func (s *Session) Proof(me Identity) []byte {
	b := me.Bytes()
	return append(b, ed25519.Sign(me.Priv, append(append([]byte{}, b...), s.Shared...))...)
}

// ReadProof reads and checks the peer's second frame.
func (s *Session) ReadProof() error {
	b, err := ReadFrame(s.Conn)
	if err != nil {
		return err
	}
	p, err := Open(s.A, b)
	if err != nil {
		return err
	}
	if len(p) != 50+64 {
		return fmt.Errorf("proof of %d bytes", len(p))
	}
	if !ed25519.Verify(p[:32], append(append([]byte{}, p[:50]...), s.Shared...), p[50:]) {
		return errors.New("proof not signed")
	}
	s.Peer = append([]byte{}, p[:50]...)
	return nil
}

// Body encodes a message.
func Body(nonce uint64, data []byte) []byte {
	b := make([]byte, 8+len(data))
	binary.BigEndian.PutUint64(b, nonce)
	copy(b[8:], data)
	return b
}

// Send sends a message.
func (s *Session) Send(nonce uint64, data []byte) error {
	_, err := s.Conn.Write(Frame(Seal(s.A, Body(nonce, data))))
	return err
}

// SendPlain sends an encrypted frame of any contents.
func (s *Session) SendPlain(plain []byte) error {
	_, err := s.Conn.Write(Frame(Seal(s.A, plain)))
	return err
}

// Recv receives a message.
func (s *Session) Recv() (uint64, []byte, error) {
	b, err := ReadFrame(s.Conn)
	if err != nil {
		return 0, nil, err
	}
	p, err := Open(s.A, b)
	if err != nil {
		return 0, nil, err
	}
	if len(p) < 8 {
		return 0, nil, errors.New("short message")
	}
	return binary.BigEndian.Uint64(p), p[8:], nil
}
