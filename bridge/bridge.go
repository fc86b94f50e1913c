// Package zzbridge gives the monitoring harness access to the internal ECDSA
// key implementation. It exists in build overlays only.
package zzbridge

import (
	"crypto/elliptic"

	"github.com/fdymylja/tmos/x/authn/crypto/internal/ecdsa"
)

type (
	PrivKey = ecdsa.PrivKey
	PubKey  = ecdsa.PubKey
)

func GenPrivKey(c elliptic.Curve) (PrivKey, error) { return ecdsa.GenPrivKey(c) }
func Hash(typ string, key []byte) []byte           { return ecdsa.Hash(typ, key) }
