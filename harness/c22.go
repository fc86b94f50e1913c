package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	coinpb "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"google.golang.org/protobuf/proto"
)

func c22(c *Ctx) {
	c.Rule("one addition or subtraction of two coin lists, distinct by operation and operands")
	c.Assume("reference: math/big per denomination", "unusual spellings of a number (leading zeros, plus sign, minus zero), repeated entries of which at most one is not zero and amounts of 255 bits and more may be refused, but never computed wrongly")
	c.Cases("arith", c.N(2000, 8000), c22case)
	c.Expect("exact", 20000)
	c.Expect("negative", 3000)
	c.Expect("malformed", 5000)
	c.Expect("huge", 2000)
	c.Expect("long", 1000)
}

// coinClass tells how a list must be treated: 0 valid, 1 may be refused,
// 2 must be refused.
func coinClass(cs []*coinpb.Coin) (Coins, int) {
	out := Coins{}
	class := 0
	seen := map[string]int{}
	for _, c := range cs {
		if c == nil || !denomOK(c.Denom) {
			return nil, 2
		}
		s := c.Amount
		plain := s != ""
		for i := 0; i < len(s); i++ {
			plain = plain && s[i] >= '0' && s[i] <= '9'
		}
		n, ok := new(big.Int).SetString(s, 10)
		if !ok || strings.Contains(s, "_") || n.Sign() < 0 {
			return nil, 2
		}
		if !plain || n.String() != s || n.BitLen() > 254 {
			class = 1
		}
		if prev, dup := seen[c.Denom]; dup {
			if prev != 0 && n.Sign() != 0 {
				return nil, 2
			}
			class = 1
		}
		seen[c.Denom] |= n.Sign()
		if out[c.Denom] == nil {
			out[c.Denom] = new(big.Int)
		}
		out[c.Denom].Add(out[c.Denom], n)
	}
	return out, class
}

var c22denoms = []string{"foo", "bar", "fooo", "fo0", "Foo", "ibc/ABC", "zzz", "aaa", strings.Repeat("d", 128), "f00/1"}

func c22amount(r *rand.Rand) string {
	switch r.Intn(9) {
	case 0:
		return fmt.Sprint(r.Intn(4))
	case 1:
		return new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(254)))).String()
	case 2:
		return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(254))), big.NewInt(int64(r.Intn(2)))).String()
	case 3:
		return fmt.Sprint(uint64(1<<63) + uint64(r.Intn(3)))
	case 4:
		return new(big.Int).Lsh(big.NewInt(1), 253).String()
	}
	return fmt.Sprint(r.Intn(1000))
}

func c22list(r *rand.Rand, p float64) []*coinpb.Coin {
	var l []*coinpb.Coin
	for _, i := range r.Perm(len(c22denoms))[:r.Intn(5)] {
		l = append(l, coin(c22amount(r), c22denoms[i]))
	}
	if chance(r, .12) { // long lists
		for n, i := 0, r.Intn(30); n < 5+r.Intn(60); n++ {
			l = append(l, coin(c22amount(r), fmt.Sprintf("many%d", i)))
			i += 1 + r.Intn(3)
		}
	}
	if chance(r, .4) {
		sortCoins(l)
	}
	if !chance(r, p) {
		return l
	}
	c := coin(c22amount(r), c22denoms[r.Intn(len(c22denoms))])
	switch r.Intn(10) {
	case 0:
		c = nil
	case 1:
		c.Amount = pick(r, "", " ", "-1", "-5", "1.0", "1.5", "1e3", "0x10", "abc", "5 ", " 5", "1,000", "1_000", "٣", "５", "5\x00", "nan", "inf", "1/2", "--1", "-")
	case 2:
		c.Denom = pick(r, "", "a", "ab", strings.Repeat("d", 129), "1foo", "f o", "foo!", "/foo", "fo\x00", "föö", "foo ", " foo", "foo,bar", "-foo")
	case 3, 4:
		if len(l) > 0 {
			c.Denom = l[r.Intn(len(l))].Denom
		}
	case 5:
		c.Amount = pick(r, "007", "00", "+5", "-0", "+0", "0")
	case 6:
		c.Amount = pick(r, new(big.Int).Lsh(big.NewInt(1), 255).String(), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(1)).String(),
			new(big.Int).Lsh(big.NewInt(1), 256).String(), strings.Repeat("9", 100), strings.Repeat("9", 1000), new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 256)).String())
	case 7:
		c.Amount = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(1+r.Int63n(3))).String()
	case 8:
		c.Amount = "-" + c.Amount
	default:
		c.Amount = c.Amount + pick(r, ".", "e", "a", "\n")
	}
	i := r.Intn(len(l) + 1)
	return append(l[:i:i], append([]*coinpb.Coin{c}, l[i:]...)...)
}

func coinsText(l []*coinpb.Coin) string {
	var s []string
	for _, c := range l {
		if c == nil {
			s = append(s, "nil")
			continue
		}
		s = append(s, fmt.Sprintf("%.90q %.30q", c.Amount, c.Denom))
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func cloneCoins(l []*coinpb.Coin) (o []*coinpb.Coin) {
	for _, c := range l {
		if c == nil {
			o = append(o, nil)
		} else {
			o = append(o, proto.Clone(c).(*coinpb.Coin))
		}
	}
	return
}

func sameCoins(a, b []*coinpb.Coin) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if (a[i] == nil) != (b[i] == nil) || a[i] != nil && (a[i].Amount != b[i].Amount || a[i].Denom != b[i].Denom) {
			return false
		}
	}
	return true
}

func c22case(k *Case) {
	r := k.R
	for i := 0; i < 120 && !k.Failed(); i++ {
		a := c22list(r, .3)
		b := c22list(r, .3)
		if chance(r, .35) { // related operands
			b = cloneCoins(a)
			for _, c := range b {
				if c == nil {
					continue
				}
				if n, ok := new(big.Int).SetString(c.Amount, 10); ok && chance(r, .6) {
					c.Amount = n.Add(n, big.NewInt(int64(r.Intn(4)-2))).String()
				}
			}
			if chance(r, .3) && len(b) > 0 {
				b = append(b[:0:0], b[1:]...)
			}
			r.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
		}
		if chance(r, .03) {
			b = a // the very same list
		}
		c22one(k, a, b)
		if chance(r, .3) {
			x, y := cloneCoins(a), cloneCoins(b)
			r.Shuffle(len(x), func(i, j int) { x[i], x[j] = x[j], x[i] })
			r.Shuffle(len(y), func(i, j int) { y[i], y[j] = y[j], y[i] })
			c22one(k, x, y)
		}
	}
}

func c22one(k *Case, a, b []*coinpb.Coin) {
	ca, xa := coinClass(a)
	cb, xb := coinClass(b)
	class := xa
	if xb > class {
		class = xb
	}
	for _, op := range []string{"SafeAdd", "SafeSub"} {
		ca0, cb0 := cloneCoins(a), cloneCoins(b)
		what := fmt.Sprintf("%s(%s, %s)", op, coinsText(a), coinsText(b))
		var res []*coinpb.Coin
		var err error
		pv, st := safe(func() {
			if op == "SafeAdd" {
				res, err = coinpb.SafeAdd(a, b)
			} else {
				res, err = coinpb.SafeSub(a, b)
			}
		})
		k.Eval(what)
		if pv != nil {
			k.FailData("panic", st, "%s panics: %v", what, pv)
			return
		}
		if !sameCoins(a, ca0) || !sameCoins(b, cb0) {
			k.Fail("modified", "%s modifies its operands into %s, %s", what, coinsText(a), coinsText(b))
			return
		}
		if class == 2 {
			k.Count("malformed", 1)
			if err == nil {
				k.Fail("malformed", "%s accepts malformed, negative or duplicate coins: %s", what, coinsText(res))
			}
			continue
		}
		var want Coins
		ok := true
		if op == "SafeAdd" {
			want = ca.add(cb)
		} else {
			want, ok = ca.sub(cb)
		}
		if !ok {
			k.Count("negative", 1)
			if err == nil {
				k.Fail("negative", "%s gives %s although the result is negative", what, coinsText(res))
			}
			continue
		}
		may := class == 1
		for _, n := range want {
			if n.BitLen() > 254 {
				may = true
				k.Count("huge", 1)
			}
		}
		if err != nil {
			if !may {
				k.Fail("refused", "%s fails: %v", what, err)
			}
			continue
		}
		k.Count("exact", 1)
		if len(want) > 12 {
			k.Count("long", 1)
		}
		if why := canonical(res); why != "" {
			k.Fail("canonical", "%s gives %s: %s", what, coinsText(res), why)
			continue
		}
		got, _ := coinsOf(res)
		if !got.eq(want) {
			k.Fail("wrong", "%s gives %s instead of %v", what, coinsText(res), want)
			continue
		}
		for _, c := range res { // results are not shared with the operands
			c.Amount, c.Denom = "1", "changed"
		}
		if !sameCoins(a, ca0) || !sameCoins(b, cb0) {
			k.Fail("modified", "changing the result of %s changes its operands", what)
			return
		}
		if k.R.Intn(5000) == 0 {
			k.Sample(what)
		}
	}
}
