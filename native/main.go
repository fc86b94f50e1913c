// Command zznative executes secp256k1 operations read from standard input,
// one per line as "op hex hex ...", and prints one result per line. It is
// built with the native backend under sanitizers and with the Go backend, by
// overlay only.
package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"strings"
	"sync"

	top "github.com/fdymylja/tmos/x/authn/crypto/secp256k1"
	raw "github.com/fdymylja/tmos/x/authn/crypto/secp256k1/internal/secp256k1"
)

// exact returns a copy in an allocation of just that size, so that reading or
// writing beyond it is seen by the address sanitizer.
func exact(b []byte) []byte {
	if b == nil {
		return nil
	}
	o := make([]byte, len(b))
	copy(o, b)
	return o
}

func xy(x, y *big.Int) string {
	if x == nil || y == nil {
		return "nil"
	}
	return fmt.Sprintf("%x %x", x, y)
}

func run(line string) (out string) {
	f := strings.Split(line, " ")
	op := f[0]
	var a [][]byte
	for _, s := range f[1:] {
		b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
		if err != nil {
			return "BADLINE " + err.Error()
		}
		a = append(a, exact(b))
	}
	before := make([][]byte, len(a))
	for i := range a {
		before[i] = append([]byte{}, a[i]...)
	}
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("PANIC %v", r)
		}
		for i := range a {
			if !bytes.Equal(a[i], before[i]) {
				out += " MODIFIED"
			}
		}
	}()
	n := func(i int) *big.Int { return new(big.Int).SetBytes(a[i]) }
	switch op {
	case "sign":
		s, err := (&top.PrivKey{Key: a[0]}).Sign(a[1])
		if err != nil {
			return "error"
		}
		return fmt.Sprintf("%x", s)
	case "verify":
		return fmt.Sprint((&top.PubKey{Key: a[0]}).VerifySignature(a[1], a[2]))
	case "pub":
		return fmt.Sprintf("%x", (&top.PrivKey{Key: a[0]}).PubKey().Bytes())
	case "addr":
		return fmt.Sprintf("%x", []byte((&top.PubKey{Key: a[0]}).Address()))
	case "secret":
		return fmt.Sprintf("%x", top.GenPrivKeyFromSecret(a[0]).Key)
	case "rsign":
		s, err := raw.Sign(a[0], a[1])
		if err != nil {
			return "error"
		}
		return fmt.Sprintf("%x", s)
	case "rverify":
		return fmt.Sprint(raw.VerifySignature(a[0], a[1], a[2]))
	case "recover":
		p, err := raw.RecoverPubkey(a[0], a[1])
		if err != nil {
			return "error"
		}
		return fmt.Sprintf("%x", p)
	case "decompress":
		return xy(raw.DecompressPubkey(a[0]))
	case "compress":
		return fmt.Sprintf("%x", raw.CompressPubkey(n(0), n(1)))
	case "mul":
		return xy(raw.S256().ScalarMult(n(0), n(1), a[2]))
	case "basemul":
		return xy(raw.S256().ScalarBaseMult(a[0]))
	case "add":
		return xy(raw.S256().Add(n(0), n(1), n(2), n(3)))
	case "double":
		return xy(raw.S256().Double(n(0), n(1)))
	case "oncurve":
		return fmt.Sprint(raw.S256().IsOnCurve(n(0), n(1)))
	case "marshal":
		return fmt.Sprintf("%x", raw.S256().Marshal(n(0), n(1)))
	case "unmarshal":
		return xy(raw.S256().Unmarshal(a[0]))
	}
	return "BADLINE"
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<24)
	var lines []string
	for sc.Scan() {
		lines = append(lines, sc.Text())
	}
	out := make([]string, len(lines))
	// several threads share the library's context
	var wg sync.WaitGroup
	const workers = 4
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := w; i < len(lines); i += workers {
				out[i] = run(lines[i])
			}
		}()
	}
	wg.Wait()
	w := bufio.NewWriter(os.Stdout)
	for _, l := range out {
		fmt.Fprintln(w, l)
	}
	w.Flush()
}
