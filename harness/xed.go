package main

import (
	"crypto/ed25519"
	"math/big"
)

// XEdDSA verification from its published specification, without the library.

var fieldP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))

func leInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func leBytes(x *big.Int) []byte {
	b := x.Bytes()
	out := make([]byte, 32)
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

// edOf gives the Ed25519 public key with the given sign for a Curve25519 key.
func edOf(pub []byte, sign byte) []byte {
	u := leInt(pub)
	u.SetBit(u, 255, 0)
	u.Mod(u, fieldP)
	d := new(big.Int).Add(u, big.NewInt(1))
	d.Mod(d, fieldP)
	d.ModInverse(d, fieldP)
	if d == nil {
		d = new(big.Int)
	}
	y := new(big.Int).Sub(u, big.NewInt(1))
	y.Mul(y, d).Mod(y, fieldP)
	out := leBytes(y)
	out[31] |= sign << 7
	return out
}

func xedVerify(pub, msg, sig []byte) bool {
	if len(pub) == 33 {
		pub = pub[1:]
	}
	if len(pub) != 32 || len(sig) != 64 {
		return false
	}
	s := append([]byte(nil), sig...)
	sign := s[63] >> 7
	s[63] &= 0x7F
	return ed25519.Verify(edOf(pub, sign), msg, s)
}
