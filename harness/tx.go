package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"

	"github.com/btcsuite/btcd/btcec"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	coinpb "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	authnpb "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"golang.org/x/crypto/ripemd160"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// Key is a deterministic secp256k1 key pair of the harness.
type Key struct {
	Priv *btcec.PrivateKey
	Pub  []byte
	Addr string
}

var keyCache sync.Map

// K returns the i-th key.
func K(i int) *Key {
	if k, ok := keyCache.Load(i); ok {
		return k.(*Key)
	}
	h := sha256.Sum256([]byte(fmt.Sprintf("verif key %d", i)))
	priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), h[:])
	k := &Key{Priv: priv, Pub: pub.SerializeCompressed()}
	k.Addr = addrOf(k.Pub)
	keyCache.Store(i, k)
	return k
}

func addrOf(pub []byte) string {
	s := sha256.Sum256(pub)
	r := ripemd160.New()
	r.Write(s[:])
	a, err := bech32.ConvertAndEncode("test", r.Sum(nil))
	if err != nil {
		panic(err)
	}
	return a
}

// SignDigest signs sha256(msg): 64-byte R||S with low S.
func (k *Key) Sign(msg []byte) []byte {
	h := sha256.Sum256(msg)
	s, err := k.Priv.Sign(h[:])
	if err != nil {
		panic(err)
	}
	return rs(s.R, s.S)
}

func rs(r, s *big.Int) []byte {
	out := make([]byte, 64)
	r.FillBytes(out[:32])
	s.FillBytes(out[32:])
	return out
}

// SignerSpec is one signer entry of a transaction.
type SignerSpec struct {
	Key    *Key
	Seq    uint64
	AccNum uint64
	URL    string // key type URL, default the cosmos one
}

// TxSpec describes a transaction before encoding. The zero hooks produce a
// well-formed and correctly signed one.
type TxSpec struct {
	Signers []SignerSpec
	Msgs    []proto.Message
	Fee     []*coinpb.Coin
	NoFee   bool
	Payer   string
	Memo    string
	Timeout uint64
	Gas     uint64
	Chain   string
	Granter string

	// tampering hooks, each applied at the named point
	Body     func(b *authnpb.TxBody)
	Auth     func(a *authnpb.AuthInfo)
	RawParts func(body, auth []byte) ([]byte, []byte) // before signing
	PostSign func(raw *authnpb.TxRaw)                 // after signing
	Bytes    func(b []byte) []byte
}

func toAny(m proto.Message) *anypb.Any {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return &anypb.Any{TypeUrl: "/" + string(m.ProtoReflect().Descriptor().FullName()), Value: b}
}

func mustMarshal(m proto.Message) []byte {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

// signDoc is the independently written SIGN_MODE_DIRECT encoding.
func signDoc(body, auth []byte, chain string, acc uint64) []byte {
	var b []byte
	if len(body) > 0 {
		b = protowire.AppendTag(b, 1, protowire.BytesType)
		b = protowire.AppendBytes(b, body)
	}
	if len(auth) > 0 {
		b = protowire.AppendTag(b, 2, protowire.BytesType)
		b = protowire.AppendBytes(b, auth)
	}
	if chain != "" {
		b = protowire.AppendTag(b, 3, protowire.BytesType)
		b = protowire.AppendString(b, chain)
	}
	if acc != 0 {
		b = protowire.AppendTag(b, 4, protowire.VarintType)
		b = protowire.AppendVarint(b, acc)
	}
	return b
}

func (t *TxSpec) Encode() []byte {
	body := &authnpb.TxBody{Memo: t.Memo, TimeoutHeight: t.Timeout}
	for _, m := range t.Msgs {
		if a, ok := m.(*anypb.Any); ok {
			body.Messages = append(body.Messages, a)
			continue
		}
		body.Messages = append(body.Messages, toAny(m))
	}
	if t.Body != nil {
		t.Body(body)
	}
	auth := &authnpb.AuthInfo{}
	if !t.NoFee {
		auth.Fee = &authnpb.Fee{Amount: t.Fee, GasLimit: t.Gas, Payer: t.Payer, Granter: t.Granter}
	}
	for _, s := range t.Signers {
		url := s.URL
		if url == "" {
			url = cosmosPKURL
		}
		auth.SignerInfos = append(auth.SignerInfos, &authnpb.SignerInfo{
			PublicKey: pkAny(url, s.Key.Pub), Sequence: s.Seq,
			ModeInfo: &authnpb.ModeInfo{Sum: &authnpb.ModeInfo_Single_{Single: &authnpb.ModeInfo_Single{Mode: authnpb.SignMode_SIGN_MODE_DIRECT}}},
		})
	}
	if t.Auth != nil {
		t.Auth(auth)
	}
	bb, ab := mustMarshal(body), mustMarshal(auth)
	if t.RawParts != nil {
		bb, ab = t.RawParts(bb, ab)
	}
	raw := &authnpb.TxRaw{BodyBytes: bb, AuthInfoBytes: ab}
	for _, s := range t.Signers {
		raw.Signatures = append(raw.Signatures, s.Key.Sign(signDoc(bb, ab, t.Chain, s.AccNum)))
	}
	if t.PostSign != nil {
		t.PostSign(raw)
	}
	out := mustMarshal(raw)
	if t.Bytes != nil {
		out = t.Bytes(out)
	}
	return out
}

// ---- coins, computed with big integers independently of the code under test ----

type Coins map[string]*big.Int

func coin(amount interface{}, denom string) *coinpb.Coin {
	return &coinpb.Coin{Amount: fmt.Sprint(amount), Denom: denom}
}

// coinsOf sums a well-formed coin list; ok is false if an entry is malformed.
func coinsOf(cs []*coinpb.Coin) (Coins, bool) {
	out := Coins{}
	for _, c := range cs {
		if c == nil {
			return out, false
		}
		n, ok := new(big.Int).SetString(c.Amount, 10)
		if !ok {
			return out, false
		}
		if out[c.Denom] == nil {
			out[c.Denom] = new(big.Int)
		}
		out[c.Denom].Add(out[c.Denom], n)
	}
	return out, true
}

func (c Coins) clone() Coins {
	o := Coins{}
	for k, v := range c {
		o[k] = new(big.Int).Set(v)
	}
	return o
}
func (c Coins) add(d Coins) Coins {
	o := c.clone()
	for k, v := range d {
		if o[k] == nil {
			o[k] = new(big.Int)
		}
		o[k].Add(o[k], v)
	}
	return o
}

// sub returns c-d and whether every component is non-negative.
func (c Coins) sub(d Coins) (Coins, bool) {
	o := c.clone()
	ok := true
	for k, v := range d {
		if o[k] == nil {
			o[k] = new(big.Int)
		}
		o[k].Sub(o[k], v)
		if o[k].Sign() < 0 {
			ok = false
		}
	}
	return o, ok
}
func (c Coins) eq(d Coins) bool {
	x, _ := c.sub(d)
	for _, v := range x {
		if v.Sign() != 0 {
			return false
		}
	}
	return true
}
func (c Coins) String() string {
	var ks []string
	for k, v := range c {
		if v.Sign() != 0 {
			ks = append(ks, v.String()+k)
		}
	}
	sortStrings(ks)
	return strings.Join(ks, ",")
}
func (c Coins) zero() bool {
	for _, v := range c {
		if v.Sign() != 0 {
			return false
		}
	}
	return true
}

// canonical tells why a stored coin list is not canonical ("" if it is).
func canonical(cs []*coinpb.Coin) string {
	prev := ""
	for _, c := range cs {
		if c == nil {
			return "a coin is missing"
		}
		n, ok := new(big.Int).SetString(c.Amount, 10)
		if !ok || n.String() != c.Amount {
			return fmt.Sprintf("amount %q is not a plain integer", c.Amount)
		}
		if n.Sign() <= 0 {
			return fmt.Sprintf("amount %s%s is not positive", c.Amount, c.Denom)
		}
		if !denomOK(c.Denom) {
			return fmt.Sprintf("denomination %q is invalid", c.Denom)
		}
		if c.Denom <= prev {
			return fmt.Sprintf("denominations %q, %q out of order or duplicate", prev, c.Denom)
		}
		prev = c.Denom
	}
	return ""
}

func denomOK(d string) bool {
	if len(d) < 3 || len(d) > 128 {
		return false
	}
	for i := 0; i < len(d); i++ {
		ch := d[i]
		al := ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z'
		if al || i > 0 && (ch >= '0' && ch <= '9' || ch == '/') {
			continue
		}
		return false
	}
	return true
}

var _ = meta.Name

func sortStrings(x []string) { sort.Strings(x) }
