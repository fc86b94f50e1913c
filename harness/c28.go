package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"golang.org/x/crypto/ripemd160"
)

// nativeOp is one operation for the native backend. want is the specified
// result; it is empty if only the absence of faults is specified.
type nativeOp struct {
	line, want string
	kind       string
	goToo      bool // part of the API both backends implement
	check      func(got string) string
}

func hx(b []byte) string { return fmt.Sprintf("0x%x", b) }

func c28(c *Ctx) {
	c.Rule("a case is one operation of the native library with its arguments; distinct by operation and arguments")
	c.Assume("gcc's address and undefined-behaviour sanitizers and clang's memory sanitizer report the faults of their class on the executed paths")
	refSelfTest()
	dir := os.Getenv("VERIF_NATIVE")
	if dir == "" {
		inconclusive("VERIF_NATIVE is not set, run check.sh")
	}
	if b, err := os.ReadFile(filepath.Join(dir, "native-build-failed")); err == nil {
		c.Cases("build", 1, func(k *Case) {
			k.Eval("build")
			k.Fail("build", "the native backend does not build: %s", tail(string(b), 1500))
		})
		return
	}
	n := c.N(12000, 120000)
	const per = 500
	ops := make([][]nativeOp, (n+per-1)/per)
	var mu sync.Mutex
	c.Cases("ops", len(ops), func(k *Case) {
		var l []nativeOp
		for len(l) < per {
			l = append(l, newNativeOps(k.R)...)
		}
		for _, o := range l {
			k.Eval(o.line)
			k.Count(strings.Fields(o.line)[0], 1)
			k.Seen("operation kinds", o.kind)
		}
		if k.Idx == 0 {
			k.Sample(map[string]string{"op": l[0].line, "specified": l[0].want})
			k.Sample(map[string]string{"op": l[1].line, "specified": l[1].want})
		}
		mu.Lock()
		ops[k.Idx] = l
		mu.Unlock()
	})
	for _, v := range []string{"asan", "verify", "msan", "go"} {
		bin := filepath.Join(dir, v)
		if _, err := os.Stat(bin); err != nil {
			inconclusive("%s build is missing", v)
		}
		v := v
		c.Cases("run "+v, len(ops), func(k *Case) { nativeRun(k, v, bin, ops[k.Idx]) })
		c.Expect("operations executed by "+v, int64(len(ops)*per/15))
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func nativeRun(k *Case, variant, bin string, ops []nativeOp) {
	var in bytes.Buffer
	var l []nativeOp
	for _, o := range ops {
		if variant == "go" && !o.goToo {
			continue
		}
		l = append(l, o)
		in.WriteString(o.line)
		in.WriteByte('\n')
	}
	if len(l) == 0 { // replay of a single case elsewhere
		return
	}
	cmd := exec.Command(bin)
	cmd.Stdin = &in
	cmd.Env = append(os.Environ(), "ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99", "UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1", "MSAN_OPTIONS=exitcode=98")
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	done := time.AfterFunc(5*time.Minute, func() { _ = cmd.Process.Kill() })
	err := cmd.Run()
	done.Stop()
	e := stderr.String()
	if err != nil || strings.Contains(e, "Sanitizer") || strings.Contains(e, "runtime error") {
		// find one operation which does this on its own
		if len(ops) > 1 {
			for _, o := range l {
				before := k.failN
				nativeRun(k, variant, bin, []nativeOp{o})
				if k.failN > before {
					return
				}
			}
		}
		first := e
		if i := strings.Index(e, "goroutine "); i > 0 {
			first = e[:i]
		}
		if len(first) > 1500 {
			first = first[:1500]
		}
		k.Fail("fault-"+variant, "%s build: %v executing %s\n%s", variant, err, shortLine(l[0].line), first)
		return
	}
	res := strings.Split(strings.TrimSuffix(stdout.String(), "\n"), "\n")
	if len(res) != len(l) {
		inconclusive("%s build answered %d of %d operations: %s", variant, len(res), len(l), tail(e, 500))
	}
	for i, o := range l {
		got := res[i]
		k.Count("operations executed by "+variant, 1)
		if strings.HasPrefix(got, "BADLINE") {
			inconclusive("%s", got)
		}
		bad := ""
		if o.check != nil {
			bad = o.check(got)
		} else if o.want != "" && got != o.want {
			bad = "want " + o.want
		} else if o.want == "" && strings.HasSuffix(got, " MODIFIED") {
			bad = "modifies its arguments"
		}
		if bad != "" {
			k.Fail("result-"+strings.Fields(o.line)[0], "%s build: %s (%s) gives %s: %s", variant, o.line, o.kind, got, bad)
		}
	}
}

func shortLine(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func ptStr(q refPoint) string {
	if q.x == nil {
		return "0 0"
	}
	return fmt.Sprintf("%x %x", q.x, q.y)
}

// recoverRef is public key recovery as specified in SEC1.
func recoverRef(h, sig []byte) (refPoint, bool) {
	c := refK1
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
	if !c.inRange(r) || !c.inRange(s) {
		return refPoint{}, false
	}
	x := new(big.Int).Set(r)
	if sig[64]&2 != 0 {
		x.Add(x, c.n)
	}
	R, ok := c.lift(x, uint(sig[64]&1))
	if !ok {
		return refPoint{}, false
	}
	w := new(big.Int).ModInverse(r, c.n)
	u := new(big.Int).Mul(c.e(h), w)
	u.Neg(u).Mod(u, c.n)
	v := new(big.Int).Mul(s, w)
	v.Mod(v, c.n)
	q := c.mul2(u, v, R)
	return q, q.x != nil
}

func newNativeOps(r *rand.Rand) (l []nativeOp) {
	c := refK1
	add := func(kind, want string, goToo bool, op string, args ...[]byte) *nativeOp {
		line := op
		for _, a := range args {
			line += " " + hx(a)
		}
		l = append(l, nativeOp{line: line, want: want, kind: op + ": " + kind, goToo: goToo})
		return &l[len(l)-1]
	}
	point := func() refPoint { return c.mul(c.scalar(r), c.g) }
	hash := func() []byte {
		switch r.Intn(6) {
		case 0:
			return make([]byte, 32)
		case 1:
			return bytes.Repeat([]byte{0xff}, 32)
		case 2:
			return be32(c.n)
		case 3:
			return be32(c.scalar(r))
		}
		return randBytes(r, 32)
	}
	odd := func() []byte { return randBytes(r, []int{0, 1, 31, 33, 64, 65, 100}[r.Intn(7)]) }
	switch r.Intn(12) {
	case 0, 1, 2: // verification through the key API
		v := newK1vec(r, repoSign)
		want := fmt.Sprint(k1verify(v.pub, v.msg, v.sig))
		add(v.kind, want, true, "verify", v.pub, v.msg, v.sig)
		h := sha256.Sum256(v.msg)
		add(v.kind, fmt.Sprint(k1verifyHash(v.pub, h[:], v.sig)), false, "rverify", v.pub, h[:], v.sig)
		if len(v.sig) == 64 {
			for id := byte(0); id < 4; id++ {
				sig := append(append([]byte{}, v.sig...), id)
				w := "error"
				if q, ok := recoverRef(h[:], sig); ok {
					w = fmt.Sprintf("%x", c.uncompressed(q, 4))
				}
				add(v.kind, w, false, "recover", h[:], sig)
			}
		}
		w := "nil"
		if q, ok := c.parse(v.pub); ok && len(v.pub) == 33 {
			w = ptStr(q)
		}
		add(v.kind, w, false, "decompress", v.pub)
	case 3: // signing
		d := c.scalar(r)
		msg := randMsg(r)
		pub := c.compress(c.mul(d, c.g))
		add("", "", true, "sign", be32(d), msg).check = func(got string) string {
			var sig []byte
			fmt.Sscanf(got, "%x", &sig)
			if !k1verify(pub, msg, sig) {
				return "no valid signature"
			}
			return ""
		}
		h := hash()
		add("", "", false, "rsign", h, be32(d)).check = func(got string) string {
			var sig []byte
			fmt.Sscanf(got, "%x", &sig)
			if len(sig) != 65 || sig[64] > 3 || !k1verifyHash(pub, h, sig[:64]) {
				return "no valid signature"
			}
			if q, ok := recoverRef(h, sig); !ok || !bytes.Equal(c.compress(q), pub) {
				return "the recovery id does not recover the key"
			}
			return ""
		}
		add("", fmt.Sprintf("%x", pub), true, "pub", be32(d))
		sh := sha256.Sum256(pub)
		rh := ripemd160.New()
		rh.Write(sh[:])
		add("", fmt.Sprintf("%x", rh.Sum(nil)), true, "addr", pub)
	case 4: // invalid keys and lengths
		bad := [][]byte{nil, make([]byte, 32), be32(c.n), bytes.Repeat([]byte{255}, 32), odd(), be32(new(big.Int).Add(c.n, big.NewInt(int64(r.Intn(1000)))))}[r.Intn(6)]
		if len(bad) != 32 || new(big.Int).SetBytes(bad).Sign() == 0 || new(big.Int).SetBytes(bad).Cmp(c.n) >= 0 {
			add("invalid key", "error", true, "sign", bad, randMsg(r))
			add("invalid key", "error", false, "rsign", hash(), bad)
		}
		if o := odd(); len(o) != 32 {
			add("hash length", "error", false, "rsign", o, be32(c.scalar(r)))
			add("hash length", "false", false, "rverify", c.compress(point()), o, randBytes(r, 64))
			add("hash length", "error", false, "recover", o, append(randBytes(r, 64), byte(r.Intn(4))))
		}
		if o := odd(); len(o) != 64 {
			add("sig length", "false", false, "rverify", c.compress(point()), hash(), o)
		}
		if o := odd(); len(o) != 65 {
			add("sig length", "error", false, "recover", hash(), o)
		}
		add("recovery id", "error", false, "recover", hash(), append(rs(c.scalar(r), c.scalar(r)), byte(4+r.Intn(252))))
		add("key length", "false", false, "rverify", odd()[:0], hash(), rs(c.scalar(r), c.scalar(r)))
	case 5: // recovery of hostile signatures
		h := hash()
		R := []*big.Int{new(big.Int), c.n, new(big.Int).Sub(c.p, c.n), new(big.Int).Sub(new(big.Int).Sub(c.p, c.n), big.NewInt(int64(r.Intn(200)+1))), c.scalar(r), c.scalar(r), big.NewInt(int64(r.Intn(1 << 30))), c.p}[r.Intn(8)]
		S := []*big.Int{new(big.Int), c.n, c.scalar(r), c.scalar(r), c.scalar(r)}[r.Intn(5)]
		sig := append(rs(R, S), byte(r.Intn(4)))
		w := "error"
		if q, ok := recoverRef(h, sig); ok {
			w = fmt.Sprintf("%x", c.uncompressed(q, 4))
		}
		add("hostile", w, false, "recover", h, sig)
		// s R = e G recovers the point at infinity
		k := c.scalar(r)
		P := c.mul(k, c.g)
		s := new(big.Int).Mul(c.e(h), new(big.Int).ModInverse(k, c.n))
		s.Mod(s, c.n)
		sig = append(rs(new(big.Int).Mod(P.x, c.n), s), byte(P.y.Bit(0)))
		if P.x.Cmp(c.n) < 0 {
			add("infinity", "error", false, "recover", h, sig)
		}
	case 6, 7: // multiplication
		q := point()
		k := c.scalar(r)
		add("", ptStr(c.mul(k, q)), false, "mul", be32(q.x), be32(q.y), be32(k))
		add("short scalar", ptStr(c.mul(k, q)), false, "mul", q.x.Bytes(), q.y.Bytes(), k.Bytes())
		add("", ptStr(c.mul(k, c.g)), false, "basemul", be32(k))
		bad := [][]byte{nil, make([]byte, 32), be32(c.n), bytes.Repeat([]byte{255}, 32), make([]byte, r.Intn(32)), be32(new(big.Int).Add(c.n, big.NewInt(int64(r.Intn(1000)))))}[r.Intn(6)]
		add("scalar out of range", "nil", false, "mul", be32(q.x), be32(q.y), bad)
		add("scalar out of range", "nil", false, "basemul", bad)
		// a point which is not on the curve, coordinates of any size
		x, y := randBytes(r, r.Intn(33)), randBytes(r, r.Intn(33))
		add("off curve", "nil", false, "mul", x, y, be32(k))
		// of small order on its curve, or no field elements
		add("small order", "nil", false, "mul", nil, y, be32(k))
		add("small order", "nil", false, "mul", x, nil, be32(k))
		add("long", "", false, "mul", randBytes(r, 33+r.Intn(40)), y, be32(k))
	case 8: // group operations
		q, t := point(), point()
		switch r.Intn(5) {
		case 0:
			t = q
		case 1:
			t = c.neg(q)
		case 2:
			t = refPoint{}
		}
		b := func(v *big.Int) []byte {
			if v == nil {
				return nil
			}
			return v.Bytes()
		}
		add("", ptStr(c.add(q, t)), false, "add", b(q.x), b(q.y), b(t.x), b(t.y))
		add("swapped", ptStr(c.add(q, t)), false, "add", b(t.x), b(t.y), b(q.x), b(q.y))
		add("", ptStr(c.add(q, q)), false, "double", b(q.x), b(q.y))
	case 9: // encodings
		q := point()
		add("", fmt.Sprintf("%x", c.compress(q)), false, "compress", q.x.Bytes(), q.y.Bytes())
		add("", fmt.Sprintf("%x", c.uncompressed(q, 4)), false, "marshal", q.x.Bytes(), q.y.Bytes())
		add("", ptStr(q), false, "unmarshal", c.uncompressed(q, 4))
		add("", "true", false, "oncurve", q.x.Bytes(), q.y.Bytes())
		y := new(big.Int).Xor(q.y, big.NewInt(int64(1+r.Intn(255))))
		add("off curve", "false", false, "oncurve", q.x.Bytes(), y.Bytes())
		if o := odd(); len(o) != 65 {
			add("length", "nil", false, "unmarshal", o)
		}
		add("tag", "nil", false, "unmarshal", c.uncompressed(q, byte(5+r.Intn(250))))
	case 10: // hostile public keys
		var pub []byte
		switch r.Intn(5) {
		case 0:
			pub = randBytes(r, r.Intn(70))
		case 1:
			pub = append([]byte{byte(r.Intn(9))}, randBytes(r, 32)...)
		case 2:
			pub = append([]byte{byte(r.Intn(9))}, randBytes(r, 64)...)
		case 3:
			pub = append([]byte{byte(2 + r.Intn(2))}, be32(new(big.Int).Add(c.p, big.NewInt(int64(r.Intn(900)-450))))...)
		default:
			pub = c.uncompressed(point(), byte(r.Intn(9)))
			pub = flip(pub, r.Intn(8*len(pub)))
		}
		w := "nil"
		if q, ok := c.parse(pub); ok && len(pub) == 33 {
			w = ptStr(q)
		}
		add("hostile", w, false, "decompress", pub)
		h, sig := hash(), rs(c.scalar(r), c.scalar(r))
		add("hostile key", fmt.Sprint(k1verifyHash(pub, h, sig)), false, "rverify", pub, h, sig)
		add("hostile key", fmt.Sprint(k1verify(pub, h, sig)), true, "verify", pub, h, sig)
	default:
		secret := randMsg(r)
		h := sha256.Sum256(secret)
		v := new(big.Int).SetBytes(h[:])
		v.Mod(v, new(big.Int).Sub(c.n, big.NewInt(1))).Add(v, big.NewInt(1))
		add("", fmt.Sprintf("%x", be32(v)), true, "secret", secret)
	}
	return
}
