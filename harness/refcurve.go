package main

import (
	"crypto/sha256"
	"math/big"
	"math/rand"
)

// An independent, plain affine implementation of short Weierstrass curves and
// of ECDSA over them: the reference the primitives under test are compared
// with. It shares no code with them.

type refCurve struct {
	p, n, a, b *big.Int
	g          refPoint
	bits       int
}

// refPoint is an affine point; x == nil is the point at infinity.
type refPoint struct{ x, y *big.Int }

func bigHex(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

var refK1 = &refCurve{
	p:    bigHex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"),
	n:    bigHex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
	a:    big.NewInt(0),
	b:    big.NewInt(7),
	g:    refPoint{bigHex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), bigHex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")},
	bits: 256,
}

var refP256 = &refCurve{
	p:    bigHex("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
	n:    bigHex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
	a:    big.NewInt(-3),
	b:    bigHex("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
	g:    refPoint{bigHex("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), bigHex("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")},
	bits: 256,
}

var refP384 = &refCurve{
	p:    bigHex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff"),
	n:    bigHex("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"),
	a:    big.NewInt(-3),
	b:    bigHex("b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef"),
	g:    refPoint{bigHex("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7"), bigHex("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f")},
	bits: 384,
}

var refP224 = &refCurve{
	p:    bigHex("ffffffffffffffffffffffffffffffff000000000000000000000001"),
	n:    bigHex("ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d"),
	a:    big.NewInt(-3),
	b:    bigHex("b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4"),
	g:    refPoint{bigHex("b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21"), bigHex("bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34")},
	bits: 224,
}

func (c *refCurve) on(q refPoint) bool {
	if q.x == nil || q.x.Sign() < 0 || q.y.Sign() < 0 || q.x.Cmp(c.p) >= 0 || q.y.Cmp(c.p) >= 0 {
		return false
	}
	return new(big.Int).Exp(q.y, big.NewInt(2), c.p).Cmp(c.rhs(q.x)) == 0
}

func (c *refCurve) rhs(x *big.Int) *big.Int {
	r := new(big.Int).Exp(x, big.NewInt(3), c.p)
	r.Add(r, new(big.Int).Mul(c.a, x))
	r.Add(r, c.b)
	return r.Mod(r, c.p)
}

func (c *refCurve) neg(q refPoint) refPoint {
	if q.x == nil {
		return q
	}
	return refPoint{q.x, new(big.Int).Mod(new(big.Int).Neg(q.y), c.p)}
}

func (c *refCurve) add(s, t refPoint) refPoint {
	if s.x == nil {
		return t
	}
	if t.x == nil {
		return s
	}
	var l *big.Int
	if s.x.Cmp(t.x) == 0 {
		if s.y.Cmp(t.y) != 0 || s.y.Sign() == 0 {
			return refPoint{}
		}
		l = new(big.Int).Mul(s.x, s.x)
		l.Mul(l, big.NewInt(3))
		l.Add(l, c.a)
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(s.y, 1), c.p))
	} else {
		d := new(big.Int).Sub(t.x, s.x)
		l = new(big.Int).Sub(t.y, s.y)
		l.Mul(l, new(big.Int).ModInverse(d.Mod(d, c.p), c.p))
	}
	l.Mod(l, c.p)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, s.x).Sub(x, t.x).Mod(x, c.p)
	y := new(big.Int).Sub(s.x, x)
	y.Mul(y, l).Sub(y, s.y).Mod(y, c.p)
	return refPoint{x, y}
}

func (c *refCurve) mul(k *big.Int, q refPoint) refPoint {
	var r refPoint
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.add(r, r)
		if k.Bit(i) == 1 {
			r = c.add(r, q)
		}
	}
	return r
}

// mul2 is u*G + v*Q.
func (c *refCurve) mul2(u, v *big.Int, q refPoint) refPoint {
	var r refPoint
	gq := c.add(c.g, q)
	n := u.BitLen()
	if v.BitLen() > n {
		n = v.BitLen()
	}
	for i := n - 1; i >= 0; i-- {
		r = c.add(r, r)
		switch u.Bit(i) + 2*v.Bit(i) {
		case 1:
			r = c.add(r, c.g)
		case 2:
			r = c.add(r, q)
		case 3:
			r = c.add(r, gq)
		}
	}
	return r
}

// e is the integer signed for a message digest.
func (c *refCurve) e(h []byte) *big.Int {
	v := new(big.Int).SetBytes(h)
	if x := len(h)*8 - c.n.BitLen(); x > 0 {
		v.Rsh(v, uint(x))
	}
	return v
}

func (c *refCurve) inRange(v *big.Int) bool { return v.Sign() > 0 && v.Cmp(c.n) < 0 }

func (c *refCurve) verify(q refPoint, h []byte, r, s *big.Int) bool {
	if !c.on(q) || !c.inRange(r) || !c.inRange(s) {
		return false
	}
	w := new(big.Int).ModInverse(s, c.n)
	u := new(big.Int).Mul(c.e(h), w)
	u.Mod(u, c.n)
	v := new(big.Int).Mul(r, w)
	v.Mod(v, c.n)
	x := c.mul2(u, v, q)
	if x.x == nil {
		return false
	}
	return new(big.Int).Mod(x.x, c.n).Cmp(r) == 0
}

// sign signs with a given nonce. ok is false if r or s is zero.
func (c *refCurve) sign(d, k *big.Int, h []byte) (r, s *big.Int, ok bool) {
	r = new(big.Int).Mod(c.mul(k, c.g).x, c.n)
	s = new(big.Int).Mul(r, d)
	s.Add(s, c.e(h))
	s.Mul(s, new(big.Int).ModInverse(k, c.n))
	s.Mod(s, c.n)
	return r, s, r.Sign() > 0 && s.Sign() > 0
}

func (c *refCurve) scalar(r *rand.Rand) *big.Int {
	for {
		var v *big.Int
		switch r.Intn(8) {
		case 0: // close to an end of the range
			v = big.NewInt(int64(1 + r.Intn(300)))
			if chance(r, .5) {
				v.Sub(c.n, v)
			}
		case 1: // sparse
			v = new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(c.bits)))
			v.Add(v, big.NewInt(int64(r.Intn(3)-1)))
		case 2: // short, so that its serialisation needs padding
			v = new(big.Int).SetBytes(randBytes(r, 1+r.Intn(c.bits/8-1)))
		case 3: // around the half of the order
			v = new(big.Int).Rsh(c.n, 1)
			v.Add(v, big.NewInt(int64(r.Intn(5)-2)))
		default:
			v = new(big.Int).SetBytes(randBytes(r, c.bits/8))
		}
		if c.inRange(v) {
			return v
		}
	}
}

func (c *refCurve) size() int { return (c.bits + 7) / 8 }

// compress is the 02/03 form of a point.
func (c *refCurve) compress(q refPoint) []byte {
	out := make([]byte, 1+c.size())
	out[0] = 2 + byte(q.y.Bit(0))
	q.x.FillBytes(out[1:])
	return out
}

func (c *refCurve) uncompressed(q refPoint, tag byte) []byte {
	out := make([]byte, 1+2*c.size())
	out[0] = tag
	q.x.FillBytes(out[1 : 1+c.size()])
	q.y.FillBytes(out[1+c.size():])
	return out
}

func (c *refCurve) lift(x *big.Int, odd uint) (refPoint, bool) {
	if x.Cmp(c.p) >= 0 {
		return refPoint{}, false
	}
	y := new(big.Int).ModSqrt(c.rhs(x), c.p)
	if y == nil {
		return refPoint{}, false
	}
	if y.Bit(0) != odd {
		y.Sub(c.p, y)
	}
	q := refPoint{x, y}
	return q, y.Bit(0) == odd && c.on(q)
}

// parse reads a SEC1 encoding (02, 03, 04, hybrid 06 and 07).
func (c *refCurve) parse(b []byte) (refPoint, bool) {
	n := c.size()
	switch {
	case len(b) == 1+n && (b[0] == 2 || b[0] == 3):
		return c.lift(new(big.Int).SetBytes(b[1:]), uint(b[0]&1))
	case len(b) == 1+2*n && (b[0] == 4 || b[0] == 6 || b[0] == 7):
		q := refPoint{new(big.Int).SetBytes(b[1 : 1+n]), new(big.Int).SetBytes(b[1+n:])}
		return q, c.on(q) && (b[0] == 4 || q.y.Bit(0) == uint(b[0]&1))
	}
	return refPoint{}, false
}

// k1verify is the specified verdict for a secp256k1 key, message and signature.
func k1verify(pub, msg, sig []byte) bool {
	if len(pub) != 33 { // keys are in compressed form
		return false
	}
	h := sha256.Sum256(msg)
	return k1verifyHash(pub, h[:], sig)
}

func k1verifyHash(pub, h, sig []byte) bool {
	if len(sig) != 64 || len(h) != 32 {
		return false
	}
	q, ok := refK1.parse(pub)
	if !ok {
		return false
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	if s.Cmp(new(big.Int).Rsh(refK1.n, 1)) > 0 {
		return false
	}
	return refK1.verify(q, h, r, s)
}

// derSig parses a strict DER SEQUENCE of two non-negative INTEGERs.
func derSig(b []byte) (r, s *big.Int, ok bool) {
	body, rest, ok := derTLV(b, 0x30)
	if !ok || len(rest) != 0 {
		return nil, nil, false
	}
	rb, body, ok := derTLV(body, 2)
	if !ok {
		return nil, nil, false
	}
	sb, body, ok := derTLV(body, 2)
	if !ok || len(body) != 0 {
		return nil, nil, false
	}
	for _, v := range [][]byte{rb, sb} {
		if len(v) == 0 || v[0] >= 0x80 || (len(v) > 1 && v[0] == 0 && v[1] < 0x80) {
			return nil, nil, false
		}
	}
	return new(big.Int).SetBytes(rb), new(big.Int).SetBytes(sb), true
}

func derTLV(b []byte, tag byte) (val, rest []byte, ok bool) {
	if len(b) < 2 || b[0] != tag {
		return nil, nil, false
	}
	n, off := int(b[1]), 2
	if b[1] >= 0x80 {
		c := int(b[1] & 0x7f)
		if c == 0 || c > 2 || len(b) < 2+c {
			return nil, nil, false
		}
		n = 0
		for _, x := range b[2 : 2+c] {
			n = n<<8 | int(x)
		}
		if n < 0x80 || (c == 2 && n < 0x100) {
			return nil, nil, false
		}
		off += c
	}
	if len(b) < off+n {
		return nil, nil, false
	}
	return b[off : off+n], b[off+n:], true
}

func derInt(v *big.Int, pad int) []byte {
	b := v.Bytes()
	if len(b) == 0 || b[0] >= 0x80 {
		b = append([]byte{0}, b...)
	}
	b = append(make([]byte, pad), b...)
	return append([]byte{2, byte(len(b))}, b...)
}

func derSeq(parts ...[]byte) []byte {
	var body []byte
	for _, p := range parts {
		body = append(body, p...)
	}
	if len(body) >= 0x80 {
		return append([]byte{0x30, 0x81, byte(len(body))}, body...)
	}
	return append([]byte{0x30, byte(len(body))}, body...)
}
