package main

import (
	"bytes"
	"crypto/elliptic"
	"crypto/sha256"
	"fmt"
	"math/big"
	"math/rand"

	"github.com/cosmos/cosmos-sdk/types/bech32"
	"github.com/fdymylja/tmos/x/authn/crypto"
	"github.com/fdymylja/tmos/x/authn/crypto/secp256k1"
	"github.com/fdymylja/tmos/x/authn/crypto/zzbridge"
	"golang.org/x/crypto/ripemd160"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

func c20(c *Ctx) {
	c.Rule("a case is one key with one message and one derived or forged signature under one encoding; distinct by key, message, signature and verdict")
	c.Assume("SHA-256 and RIPEMD-160 are taken from the libraries the code itself uses", "the reference's field and curve arithmetic is math/big")
	refSelfTest()
	c.Cases("k1", c.N(2600, 30000), c20k1)
	c.Cases("k1keys", c.N(500, 4000), c20keys)
	c.Cases("nist", c.N(1500, 15000), c20nist)
	c.Expect("accepted", 500)
	c.Expect("refused", 500)
	c.Expect("nist accepted", 200)
	c.Expect("nist refused", 300)
}

// refSelfTest checks the reference against published values.
func refSelfTest() {
	for _, c := range []*refCurve{refK1, refP256, refP384, refP224} {
		if !c.on(c.g) || c.mul(c.n, c.g).x != nil || c.add(c.mul(new(big.Int).Sub(c.n, big.NewInt(1)), c.g), c.g).x != nil {
			inconclusive("reference curve broken")
		}
	}
	two := refK1.mul(big.NewInt(2), refK1.g)
	if two.x.Cmp(bigHex("c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5")) != 0 {
		inconclusive("reference doubling broken")
	}
	// deterministic signature of key 1 over "Satoshi Nakamoto"
	sig := rs(bigHex("934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d8"), bigHex("2442ce9d2b916064108014783e923ec36b49743e2ffa1c4496f01a512aafd9e5"))
	if !k1verify(refK1.compress(refK1.g), []byte("Satoshi Nakamoto"), sig) {
		inconclusive("reference verification broken")
	}
	// RFC 6979 A.2.5, SHA-256 over "sample"
	q := refPoint{bigHex("60fed4ba255a9d31c961eb74c6356d68c049b8923b61fa6ce669622e60f29fb6"), bigHex("7903fe1008b8bc99a41ae9e95628bc64f2f1b20c2d7e9f5177a3c294d4462299")}
	h := sha256.Sum256([]byte("sample"))
	if !refP256.verify(q, h[:], bigHex("efd48b2aacb6a8fd1140dd9cd45e81d69d2c877b56aaf991c34d0ea84eaf3716"), bigHex("f7cb1c942d657c41d436c7a1b6e29f65f3e900dbb9aff4064dc4ab2f843acda8")) {
		inconclusive("reference verification broken (P-256)")
	}
}

// k1vec is a secp256k1 key, message and signature.
type k1vec struct {
	kind          string
	priv          []byte
	pub, msg, sig []byte
}

func randMsg(r *rand.Rand) []byte {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return randBytes(r, 32)
	case 2:
		return make([]byte, r.Intn(100))
	default:
		return randBytes(r, r.Intn(300))
	}
}

func be32(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }

// newK1vec makes up one signature; sign is a signer to take some of them from.
func newK1vec(r *rand.Rand, sign func(priv, msg []byte) []byte) k1vec {
	c := refK1
	v := k1vec{msg: randMsg(r)}
	h := sha256.Sum256(v.msg)
	e := new(big.Int).Mod(c.e(h[:]), c.n)
	half := new(big.Int).Rsh(c.n, 1)
	d := c.scalar(r)
	var R, S *big.Int
	low := chance(r, .85)
	switch r.Intn(7) {
	case 0, 1:
		v.kind = "signed"
		v.priv, v.pub = be32(d), c.compress(c.mul(d, c.g))
		v.sig = sign(v.priv, v.msg)
		if len(v.sig) != 64 {
			return v
		}
		R, S = new(big.Int).SetBytes(v.sig[:32]), new(big.Int).SetBytes(v.sig[32:])
	case 2, 3:
		v.kind = "reference"
		for ok := false; !ok; {
			R, S, ok = c.sign(d, c.scalar(r), h[:])
		}
	case 4: // s has a chosen value
		v.kind = "chosen s"
		S = []*big.Int{big.NewInt(1), big.NewInt(2), half, new(big.Int).Add(half, big.NewInt(1)), new(big.Int).Sub(half, big.NewInt(1)), new(big.Int).Sub(c.n, big.NewInt(1)), c.scalar(r)}[r.Intn(7)]
		k := c.scalar(r)
		R = new(big.Int).Mod(c.mul(k, c.g).x, c.n)
		d = new(big.Int).Mul(S, k)
		d.Sub(d, e).Mul(d, new(big.Int).ModInverse(R, c.n)).Mod(d, c.n)
		low = false
	case 5: // both halves of the verification equation are the same point
		v.kind = "doubling"
		k := c.scalar(r)
		R = new(big.Int).Mod(c.mul(k, c.g).x, c.n)
		d = new(big.Int).Mul(e, new(big.Int).ModInverse(R, c.n))
		d.Mod(d, c.n)
		S = new(big.Int).Lsh(e, 1)
		S.Mul(S, new(big.Int).ModInverse(k, c.n)).Mod(S, c.n)
	default: // they add up to infinity
		v.kind = "infinity"
		R, S = c.scalar(r), c.scalar(r)
		d = new(big.Int).Neg(e)
		d.Mul(d, new(big.Int).ModInverse(R, c.n)).Mod(d, c.n)
	}
	if d.Sign() == 0 {
		d.SetInt64(1)
	}
	if low && S.Cmp(half) > 0 {
		S = new(big.Int).Sub(c.n, S)
	}
	q := c.mul(d, c.g)
	v.priv, v.pub, v.sig = be32(d), c.compress(q), rs(R, S)
	if chance(r, .45) {
		return v
	}
	m := ""
	switch r.Intn(14) {
	case 0:
		m, v.sig = "sig bit", flip(v.sig, r.Intn(512))
	case 1:
		if len(v.msg) == 0 {
			v.msg = []byte{0}
		} else {
			v.msg = flip(v.msg, r.Intn(8*len(v.msg)))
		}
		m = "msg bit"
	case 2:
		m, v.pub = "pub bit", flip(v.pub, r.Intn(8*33))
	case 3:
		m, v.sig = "high s", rs(R, new(big.Int).Sub(c.n, S))
	case 4:
		n := []int{0, 1, 32, 63, 65, 66, 96, 128, 200}[r.Intn(9)]
		m, v.sig = "sig length", append(append([]byte{}, v.sig...), v.sig...)
		for len(v.sig) < n {
			v.sig = append(v.sig, randBytes(r, 8)...)
		}
		v.sig = v.sig[:n]
	case 5:
		m = "sig extreme"
		x := []*big.Int{new(big.Int), new(big.Int), c.n, new(big.Int).Add(c.n, big.NewInt(1)), c.p, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)), half}[r.Intn(7)]
		switch r.Intn(3) {
		case 0:
			v.sig = rs(x, S)
		case 1:
			v.sig = rs(R, x)
		default:
			v.sig = rs(x, x)
		}
	case 6:
		m, v.sig = "swapped", rs(S, R)
	case 7:
		m, v.pub = "other parity", append([]byte{v.pub[0] ^ 1}, v.pub[1:]...)
	case 8:
		m, v.pub = "prefix", append([]byte{byte(r.Intn(256))}, v.pub[1:]...)
	case 9:
		m, v.pub = "uncompressed", c.uncompressed(q, 4)
	case 10:
		m, v.pub = "hybrid", c.uncompressed(q, byte(5+r.Intn(3)))
	case 11:
		m, v.pub = "off curve", c.uncompressed(refPoint{q.x, new(big.Int).Xor(q.y, big.NewInt(int64(1+r.Intn(7))))}, 4)
	case 12:
		n := r.Intn(70)
		m, v.pub = "pub length", append(append([]byte{}, v.pub...), randBytes(r, 40)...)[:n]
	default:
		m = "pub extreme"
		v.pub = append([]byte{byte(2 + r.Intn(2))}, [][]byte{make([]byte, 32), be32(c.p), be32(new(big.Int).Sub(c.p, big.NewInt(1))), bytes.Repeat([]byte{0xff}, 32), be32(c.n), randBytes(r, 32)}[r.Intn(6)]...)
	}
	v.kind += ", " + m
	return v
}

func repoSign(priv, msg []byte) []byte {
	s, err := (&secp256k1.PrivKey{Key: priv}).Sign(msg)
	if err != nil {
		return nil
	}
	return s
}

func c20k1(k *Case) {
	v := newK1vec(k.R, repoSign)
	if len(v.sig) == 0 && v.kind == "signed" {
		k.Fail("sign", "signing with the valid key %x failed", v.priv)
		return
	}
	pub := &secp256k1.PubKey{Key: v.pub}
	pubC, msgC, sigC := append([]byte{}, v.pub...), append([]byte{}, v.msg...), append([]byte{}, v.sig...)
	var got bool
	if pv, _ := safe(func() { got = pub.VerifySignature(v.msg, v.sig) }); pv != nil {
		k.Fail("verify-panic", "VerifySignature panics (%s): %v\npub %x\nmsg %x\nsig %x", v.kind, pv, v.pub, v.msg, v.sig)
		return
	}
	if !bytes.Equal(pubC, v.pub) || !bytes.Equal(msgC, v.msg) || !bytes.Equal(sigC, v.sig) {
		k.Fail("verify-args", "VerifySignature modifies its arguments (%s)", v.kind)
	}
	want := k1verify(v.pub, v.msg, v.sig)
	if got != want {
		k.Fail("verify", "VerifySignature says %v, reference %v (%s)\npub %x\nmsg %x\nsig %x", got, want, v.kind, v.pub, v.msg, v.sig)
	}
	if v.kind == "signed" && !want {
		k.Fail("sign", "a signature produced by Sign is not valid: key %x msg %x sig %x", v.priv, v.msg, v.sig)
	}
	if got {
		k.Count("accepted", 1)
	} else {
		k.Count("refused", 1)
	}
	k.Seen("signature kinds", v.kind)
	k.Eval(fmt.Sprintf("%x %x %x %v", v.pub, v.msg, v.sig, got))
	if k.Idx < 3 {
		k.Sample(map[string]string{"kind": v.kind, "pub": hexs(v.pub), "msg": hexs(v.msg), "sig": hexs(v.sig), "verdict": fmt.Sprint(got)})
	}
}

// otherKey is a key of another type with the bytes of some key.
type otherKey struct{ *secp256k1.PubKey }

func (o otherKey) Type() string { return "other" }

type otherPriv struct{ *secp256k1.PrivKey }

func (o otherPriv) Type() string { return "other" }

var pubResolver = crypto.NewDefaultPubKeyResolver([]crypto.PubKey{&secp256k1.PubKey{}})

func c20keys(k *Case) {
	r, c := k.R, refK1
	// secrets
	secret := randMsg(r)
	h := sha256.Sum256(secret)
	want := new(big.Int).SetBytes(h[:])
	want.Mod(want, new(big.Int).Sub(c.n, big.NewInt(1))).Add(want, big.NewInt(1))
	sk := secp256k1.GenPrivKeyFromSecret(secret)
	if !bytes.Equal(sk.Key, be32(want)) {
		k.Fail("secret-key", "the key of secret %x is %x, want %x", secret, sk.Key, be32(want))
		return
	}
	if chance(r, .5) {
		sk = &secp256k1.PrivKey{Key: be32(c.scalar(r))}
	}
	if chance(r, .3) {
		sk = secp256k1.GenPrivKey()
		if v := new(big.Int).SetBytes(sk.Key); len(sk.Key) != 32 || !c.inRange(v) {
			k.Fail("generated-key", "generated key %x is invalid", sk.Key)
		}
		k.Seen("generated keys", string(sk.Key))
	}
	d := new(big.Int).SetBytes(sk.Key)
	q := c.mul(d, c.g)
	pk := sk.PubKey()
	if !bytes.Equal(pk.Bytes(), c.compress(q)) || !bytes.Equal(sk.Bytes(), be32(d)) {
		k.Fail("public-key", "public key of %x is %x, want %x", be32(d), pk.Bytes(), c.compress(q))
		return
	}
	sh := sha256.Sum256(c.compress(q))
	rh := ripemd160.New()
	rh.Write(sh[:])
	addr := rh.Sum(nil)
	if !bytes.Equal(pk.Address(), addr) {
		k.Fail("address", "address of %x is %x, want %x", pk.Bytes(), pk.Address(), addr)
	}
	// serialisation
	b, err := proto.Marshal(pk)
	if err != nil || !bytes.Equal(b, append([]byte{0x0a, 33}, c.compress(q)...)) {
		k.Fail("serialise", "public key encodes to %x %v", b, err)
	}
	var pk2 secp256k1.PubKey
	if err := proto.Unmarshal(b, &pk2); err != nil || !pk2.Equals(pk) || !pk.Equals(&pk2) || !bytes.Equal(pk2.Address(), addr) {
		k.Fail("serialise", "public key does not round-trip: %v", err)
	}
	jb, _ := protojson.Marshal(pk)
	var pk3 secp256k1.PubKey
	if err := protojson.Unmarshal(jb, &pk3); err != nil || !pk3.Equals(pk) {
		k.Fail("serialise", "public key does not round-trip in JSON: %v", err)
	}
	sb, _ := proto.Marshal(sk)
	var sk2 secp256k1.PrivKey
	if err := proto.Unmarshal(sb, &sk2); err != nil || !sk2.Equals(sk) || !sk2.PubKey().Equals(pk) {
		k.Fail("serialise", "private key does not round-trip: %v", err)
	}
	// equality
	o := &secp256k1.PubKey{Key: flip(c.compress(q), r.Intn(8*33))}
	short := &secp256k1.PubKey{Key: c.compress(q)[:r.Intn(33)]}
	if pk.Equals(o) || o.Equals(pk) || pk.Equals(short) || short.Equals(pk) || pk.Equals(otherKey{&pk2}) {
		k.Fail("equals", "different public keys are equal")
	}
	os := &secp256k1.PrivKey{Key: flip(be32(d), r.Intn(256))}
	shortS := &secp256k1.PrivKey{Key: be32(d)[:r.Intn(32)]}
	if sk.Equals(os) || os.Equals(sk) || sk.Equals(shortS) || sk.Equals(otherPriv{&sk2}) {
		k.Fail("equals", "different private keys are equal")
	}
	// signing: twice with the same key
	for i := 0; i < 2; i++ {
		msg := randMsg(r)
		mc := append([]byte{}, msg...)
		sig, err := sk.Sign(msg)
		if err != nil || !k1verify(pk.Bytes(), msg, sig) {
			k.Fail("sign", "key %x over %x: signature %x, error %v is not valid", be32(d), msg, sig, err)
		}
		if !bytes.Equal(mc, msg) || !bytes.Equal(sk.Key, be32(d)) {
			k.Fail("sign", "signing modifies the message or key")
		}
		if !pk.VerifySignature(msg, sig) {
			k.Fail("verify", "own signature refused")
		}
		k.Count("signatures", 1)
	}
	// invalid private keys
	bad := [][]byte{nil, make([]byte, 32), be32(c.n), be32(new(big.Int).Add(c.n, big.NewInt(int64(1+r.Intn(1000))))), bytes.Repeat([]byte{0xff}, 32), be32(d)[:r.Intn(32)], append(be32(d), randBytes(r, 1+r.Intn(9))...)}
	for _, x := range bad {
		if pv, _ := safe(func() {
			if s, err := (&secp256k1.PrivKey{Key: x}).Sign([]byte("m")); err == nil {
				k.Fail("bad-key", "the invalid private key %x signs: %x", x, s)
			}
		}); pv != nil {
			k.Fail("bad-key", "signing with the invalid private key %x panics: %v", x, pv)
		}
		k.Count("invalid private keys", 1)
	}
	// resolution from a transaction's key field
	for _, url := range []string{"/cosmos.crypto.secp256k1.PubKey", "/tmos.x.authn.crypto.v1alpha1.PubKey"} {
		got, err := pubResolver.New(&anypb.Any{TypeUrl: url, Value: b})
		if err != nil || !got.Equals(pk) || got.Type() != "secp256k1" {
			k.Fail("resolve", "key of type %s resolves to %v %v", url, got, err)
		}
		prefix := pick(r, "test", "cosmos", "x", "a1b")
		w, _ := bech32.ConvertAndEncode(prefix, addr)
		if a, err := pubResolver.Address(prefix, &anypb.Any{TypeUrl: url, Value: b}); err != nil || a != w {
			k.Fail("resolve", "address %q %v, want %q", a, err, w)
		}
	}
	for _, url := range []string{"", "/", "/cosmos.crypto.secp256k1.PrivKey", "/tmos.x.authn.crypto.v1alpha1.PrivKey", "cosmos.crypto.secp256k1.PubKey", "/cosmos.crypto.ed25519.PubKey", "/tmos.bank.v1alpha1.MsgSendCoins"} {
		if pv, _ := safe(func() {
			if got, err := pubResolver.New(&anypb.Any{TypeUrl: url, Value: b}); err == nil {
				k.Fail("resolve", "a key of type %q resolves to %T", url, got)
			}
		}); pv != nil {
			k.Fail("resolve", "resolving a key of type %q panics: %v", url, pv)
		}
	}
	k.Eval(fmt.Sprintf("key %x", be32(d)))
}

func c20nist(k *Case) {
	r := k.R
	i := []int{0, 0, 0, 1, 2}[r.Intn(5)]
	c := []*refCurve{refP256, refP384, refP224}[i]
	curve := []elliptic.Curve{elliptic.P256(), elliptic.P384(), elliptic.P224()}[i]
	n := c.size()
	sk, err := zzbridge.GenPrivKey(curve)
	if err != nil {
		k.Fail("nist-generate", "%v", err)
		return
	}
	if chance(r, .8) {
		d := c.scalar(r)
		b := d.FillBytes(make([]byte, n))
		if err := sk.Unmarshal(b, curve, n); err != nil {
			k.Fail("nist-serialise", "valid private key %x refused: %v", b, err)
			return
		}
	}
	d := sk.D
	if !c.inRange(d) {
		k.Fail("nist-generate", "private key %v out of range", d)
		return
	}
	if b := sk.Bytes(); !bytes.Equal(b, d.FillBytes(make([]byte, n))) {
		k.Fail("nist-serialise", "private key %x serialises to %x", d, b)
		return
	}
	q := c.mul(d, c.g)
	pk := sk.PubKey()
	comp := c.compress(q)
	if !bytes.Equal(pk.Bytes(), comp) {
		k.Fail("nist-public-key", "public key of %x is %x, want %x", d, pk.Bytes(), comp)
		return
	}
	// addresses, also of a key object that held another key before
	nistAddr := func(p *zzbridge.PubKey, comp []byte) {
		name := pick(r, "cosmos.crypto.secp256r1.PubKey", "a.B", "", "x")
		th := sha256.Sum256([]byte(name))
		w := sha256.Sum256(append(th[:], comp...))
		if a := p.Address(name); !bytes.Equal(a, w[:]) || !bytes.Equal(zzbridge.Hash(name, comp), w[:]) {
			k.Fail("nist-address", "address of %q %x is %x, want %x", name, comp, []byte(a), w)
		}
	}
	nistAddr(&pk, comp)
	buf := make([]byte, len(comp)+r.Intn(3))
	if m, err := pk.MarshalTo(buf); err != nil || m != len(comp) || !bytes.Equal(buf[:m], comp) {
		k.Fail("nist-serialise", "MarshalTo: %d %v %x", m, err, buf)
	}
	sbuf := make([]byte, n)
	if m, err := sk.MarshalTo(sbuf); err != nil || m != n || !bytes.Equal(sbuf, sk.Bytes()) {
		k.Fail("nist-serialise", "MarshalTo: %d %v %x", m, err, sbuf)
	}
	var p2 zzbridge.PubKey
	d2 := c.scalar(r)
	comp2 := c.compress(c.mul(d2, c.g))
	if err := p2.Unmarshal(comp2, curve, n+1); err != nil {
		k.Fail("nist-serialise", "valid public key %x refused: %v", comp2, err)
		return
	}
	nistAddr(&p2, comp2)
	if err := p2.Unmarshal(comp, curve, n+1); err != nil || !bytes.Equal(p2.Bytes(), comp) {
		k.Fail("nist-serialise", "public key %x does not round-trip: %v", comp, err)
		return
	}
	nistAddr(&p2, comp)
	nistAddr(&p2, comp)
	// hostile encodings
	for i := 0; i < 4; i++ {
		b := append([]byte{}, comp...)
		switch r.Intn(6) {
		case 0:
			b = flip(b, r.Intn(8*len(b)))
		case 1:
			b[0] = byte(r.Intn(256))
		case 2:
			c.p.FillBytes(b[1:])
		case 3:
			b = append(b, randBytes(r, 70)...)[:r.Intn(n+40)]
		case 4:
			copy(b[1:], bytes.Repeat([]byte{255}, n))
		default:
			b = c.uncompressed(q, 4)
		}
		var got zzbridge.PubKey
		var err error
		if pv, _ := safe(func() { err = got.Unmarshal(b, curve, n+1) }); pv != nil {
			k.Fail("nist-panic", "Unmarshal(%x) panics: %v", b, pv)
			continue
		}
		w, ok := c.parse(b)
		ok = ok && len(b) == n+1
		if ok != (err == nil) {
			k.Fail("nist-parse", "key encoding %x: error %v, reference says valid=%v", b, err, ok)
		} else if ok && (got.X.Cmp(w.x) != 0 || got.Y.Cmp(w.y) != 0) {
			k.Fail("nist-parse", "key encoding %x reads as another point", b)
		}
		k.Count("nist key encodings", 1)
	}
	bad := [][]byte{nil, make([]byte, n), c.n.FillBytes(make([]byte, n)), bytes.Repeat([]byte{0xff}, n), append(sk.Bytes(), 1), sk.Bytes()[:n-1]}
	for _, b := range bad {
		var s zzbridge.PrivKey
		if pv, _ := safe(func() {
			if err := s.Unmarshal(b, curve, n); err == nil {
				k.Fail("nist-bad-key", "invalid private key %x accepted", b)
			}
		}); pv != nil {
			k.Fail("nist-panic", "Unmarshal(%x) of a private key panics: %v", b, pv)
		}
	}
	// signatures
	msg := randMsg(r)
	h := sha256.Sum256(msg)
	var R, S *big.Int
	var sig []byte
	kind := "reference"
	for ok := false; !ok; {
		R, S, ok = c.sign(d, c.scalar(r), h[:])
	}
	if chance(r, .4) {
		kind = "signed"
		sig, err = sk.Sign(msg)
		var ok bool
		if err == nil {
			R, S, ok = derSig(sig)
		}
		if !ok || !c.verify(q, h[:], R, S) {
			k.Fail("nist-sign", "key %x over %x: signature %x error %v is not valid", d, msg, sig, err)
			return
		}
		if !pk.VerifySignature(msg, sig) {
			k.Fail("nist-verify", "own signature refused")
		}
	}
	for i := 0; i < 6; i++ {
		sig, m, mg := derSeq(derInt(R, 0), derInt(S, 0)), "", msg
		vk := &pk
		vq := q
		switch r.Intn(16) {
		case 0, 1, 2:
		case 3:
			m, sig = "high", derSeq(derInt(R, 0), derInt(new(big.Int).Sub(c.n, S), 0))
		case 4:
			m, sig = "bit", flip(sig, r.Intn(8*len(sig)))
		case 5:
			m, mg = "msg", append(append([]byte{}, msg...), byte(r.Intn(256)))
		case 6:
			m, sig = "trailing", append(sig, randBytes(r, 1+r.Intn(5))...)
		case 7:
			m, sig = "third element", derSeq(derInt(R, 0), derInt(S, 0), derInt(big.NewInt(int64(r.Intn(300))), 0))
		case 8:
			m, sig = "padded", derSeq(derInt(R, r.Intn(2)), derInt(S, 1))
		case 9:
			x := [][]byte{derInt(new(big.Int), 0), derInt(c.n, 0), derInt(new(big.Int).Add(c.n, R), 0), {2, 0}, {2, 1, 0xff}, derInt(new(big.Int).Lsh(c.n, 64), 0)}[r.Intn(6)]
			m = "extreme"
			if chance(r, .5) {
				sig = derSeq(x, derInt(S, 0))
			} else {
				sig = derSeq(derInt(R, 0), x)
			}
		case 10:
			m, sig = "cut", sig[:r.Intn(len(sig))]
		case 11:
			m, sig = "long form", append([]byte{0x30, 0x81}, sig[1:]...)
		case 12:
			m, sig = "raw", append(R.FillBytes(make([]byte, n)), S.FillBytes(make([]byte, n))...)
		case 13:
			m, vk = "other key", &zzbridge.PubKey{}
			vq, _ = c.parse(comp2)
			_ = vk.Unmarshal(comp2, curve, n+1)
		case 14:
			m, sig = "swapped", derSeq(derInt(S, 0), derInt(R, 0))
		default:
			m, sig = "negative", derSeq(append([]byte{2, byte(len(S.Bytes()))}, S.Bytes()...), derInt(S, 0))
		}
		hh := sha256.Sum256(mg)
		rr, ss, ok := derSig(sig)
		want := ok && c.verify(vq, hh[:], rr, ss)
		var got bool
		if pv, _ := safe(func() { got = vk.VerifySignature(mg, sig) }); pv != nil {
			k.Fail("nist-panic", "VerifySignature panics (%s): %v\nsig %x", m, pv, sig)
			continue
		}
		if got != want {
			k.Fail("nist-verify", "%s: VerifySignature says %v, reference %v (%s, %s)\nkey %x\nmsg %x\nsig %x", curve.Params().Name, got, want, kind, m, comp, mg, sig)
		}
		if got {
			k.Count("nist accepted", 1)
		} else {
			k.Count("nist refused", 1)
		}
		k.Seen("nist signature kinds", kind+" "+m)
		k.Eval(fmt.Sprintf("%x %x %x %v", comp, mg, sig, got))
	}
}
