package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"runtime"
	"strconv"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/identity"
)

// Signatures and key agreement.

var groupOrder, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

func mutateSig(r *rand.Rand, sig []byte, mut string) []byte {
	s := append([]byte(nil), sig...)
	switch mut {
	case "r":
		s[r.Intn(32)] ^= 1 << r.Intn(8)
	case "s":
		s[32+r.Intn(31)] ^= 1 << r.Intn(8)
	case "sign":
		s[63] ^= 0x80
	case "top":
		s[63] ^= 1 << (4 + r.Intn(3))
	case "short":
		s = s[:r.Intn(64)]
	case "long":
		s = append(s, randBytes(r, 1+r.Intn(4))...)
	case "empty":
		s = nil
	case "zero":
		s = make([]byte, 64)
	case "order":
		x := append([]byte(nil), s[32:]...)
		sign := x[31] & 0x80
		x[31] &= 0x7F
		n := leInt(x)
		n.Add(n, groupOrder)
		copy(s[32:], leBytes(n))
		s[63] = s[63]&0x7F | sign
	case "swap":
		s = append(append([]byte(nil), s[32:]...), s[:32]...)
	}
	return s
}

type keyring struct {
	r    *rand.Rand
	seed int64
	n    int
	pair map[int]*curve.KeyPair
}

func newKeyring(seed int64) *keyring {
	return &keyring{r: rand.New(rand.NewSource(seed)), seed: seed, pair: map[int]*curve.KeyPair{}}
}

func (k *keyring) get(i int) *curve.KeyPair {
	if k.pair[i] == nil {
		p, err := curve.GenerateKeyPair(newDet(k.seed, fmt.Sprint("key", i)))
		if err != nil {
			fatal(err)
		}
		k.pair[i] = p
	}
	return k.pair[i]
}

func (k *keyring) ident(i int) identity.KeyPair {
	p := k.get(i)
	id, err := identity.NewKey(p.PublicKey().Bytes())
	if err != nil {
		fatal(err)
	}
	return identity.NewKeyPair(p.PrivateKey(), id)
}

func (k *keyring) random() *detReader {
	k.n++
	return newDet(k.seed, fmt.Sprint("z", k.n))
}

func partInts(ps [][]byte) []any {
	out := []any{}
	for _, p := range ps {
		out = append(out, ints(p))
	}
	return out
}

func verdict(f func() (bool, error)) (res string) {
	defer func() {
		if p := recover(); p != nil {
			res = "panic"
		}
	}()
	ok, err := f()
	switch {
	case ok && err == nil:
		return "yes"
	case err != nil:
		return "err"
	}
	return "no"
}

// ver signs parts with one key and verifies the signature with another over
// claim.
func (k *keyring) ver(name string, by, pub int, parts, claim [][]byte, mut string, alias bool) M {
	m := M{"e": "ver", "name": name, "by": by, "pub": pub, "parts": partInts(parts), "claim": partInts(claim), "mut": mut, "alias": alias}
	var watch []*canary
	keep := func(ps [][]byte) (out [][]byte) {
		for _, p := range ps {
			c := newCanary(p)
			watch = append(watch, c)
			out = append(out, c.slice())
		}
		return
	}
	var sig []byte
	res := verdict(func() (bool, error) {
		s, err := k.get(by).Sign(k.random(), keep(parts)...)
		sig = s
		return err == nil && len(s) == 64, err
	})
	if res != "yes" {
		m["res"], m["ind"], m["same"] = "unsigned", false, true
		if res == "panic" {
			m["res"] = "panic"
		}
		return m
	}
	key := k.get(pub).PublicKey()
	m["ind"] = xedVerify(k.get(by).PublicKey().Bytes(), bytes.Join(parts, nil), sig)
	if alias {
		b := key.Bytes()
		b[32] ^= 0x80
		key, _ = curve.NewPublicKey(b)
	}
	ms := newCanary(mutateSig(k.r, sig, mut))
	watch = append(watch, ms)
	m["res"] = verdict(func() (bool, error) { return key.VerifySignature(ms.slice(), keep(claim)...) })
	same := true
	for _, c := range watch {
		same = same && c.intact()
	}
	m["same"] = same
	return m
}

func (k *keyring) alt(name string, by, pub, other, claimed int, mut string) M {
	m := M{"e": "alt", "name": name, "by": by, "pub": pub, "other": other, "claimed": claimed, "mut": mut}
	var sig []byte
	res := verdict(func() (bool, error) {
		s, err := k.ident(by).SignAlternateIdentity(k.random(), k.ident(other).IdentityKey())
		sig = s
		return err == nil && len(s) == 64, err
	})
	if res != "yes" {
		m["res"], m["ind"] = "unsigned", false
		if res == "panic" {
			m["res"] = "panic"
		}
		return m
	}
	text := append(bytes.Repeat([]byte{255}, 32), "Signal_PNI_Signature"...)
	m["ind"] = xedVerify(k.get(by).PublicKey().Bytes(), append(text, k.get(other).PublicKey().Bytes()...), sig)
	sig = mutateSig(k.r, sig, mut)
	m["res"] = verdict(func() (bool, error) {
		return k.ident(pub).IdentityKey().VerifyAlternateIdentity(sig, k.ident(claimed).IdentityKey())
	})
	return m
}

func (k *keyring) dh(name string, a int, b []byte, back int) M {
	m := M{"e": "dh", "name": name, "b": ints(b), "res": "ok", "secret": ""}
	priv := k.get(a).PrivateKey()
	var secret []byte
	res := verdict(func() (bool, error) {
		var err error
		if len(b) == 32 && k.r.Intn(4) > 0 {
			pub, err := curve.NewPublicKey(append([]byte{5}, b...))
			if err != nil {
				return false, err
			}
			if k.r.Intn(2) == 0 {
				secret, err = k.get(a).Agreement(pub)
			} else {
				secret, err = priv.Agreement(pub)
			}
			return err == nil, err
		}
		p, err := curve25519.NewPrivateKey(priv.Bytes())
		if err != nil {
			return false, err
		}
		secret, err = p.Agreement(b)
		return err == nil, err
	})
	if res != "yes" {
		m["res"] = res
		return m
	}
	m["secret"] = hex.EncodeToString(secret)
	m["ref"] = hex.EncodeToString(dh(priv.Bytes(), b))
	if back > 0 {
		s, err := k.get(back).Agreement(k.get(a).PublicKey())
		if err != nil {
			s = nil
		}
		m["back"] = hex.EncodeToString(s)
	}
	return m
}

func (k *keyring) dhs(name string, n int) M {
	x := []any{}
	for a := 1; a <= n; a++ {
		for b := 1; b <= n; b++ {
			s, err := k.get(a).Agreement(k.get(b).PublicKey())
			if err != nil {
				s = nil
			}
			x = append(x, []any{a, b, hex.EncodeToString(s)})
		}
	}
	return M{"e": "dhs", "name": name, "x": x}
}

func (k *keyring) nonce(name string, k1, k2 int, m1, m2 [][]byte, z1, z2 int) M {
	sign := func(a int, ps [][]byte, z int) []byte {
		s, err := k.get(a).Sign(newDet(k.seed, fmt.Sprint("zz", z)), ps...)
		if err != nil || len(s) != 64 {
			return nil
		}
		return s[:32]
	}
	a, b := sign(k1, m1, z1), sign(k2, m2, z2)
	return M{"e": "non", "name": name, "k1": k1, "k2": k2, "m1": partInts(m1), "m2": partInts(m2), "z1": z1, "z2": z2, "alike": a != nil && bytes.Equal(a, b)}
}

func privLine(r *rand.Rand, name string, b []byte) M {
	m := M{"e": "priv", "name": name, "b": ints(b), "res": "ok"}
	res := verdict(func() (bool, error) {
		c := newCanary(b)
		p, err := curve.NewPrivateKey(c.slice())
		if err != nil {
			return false, err
		}
		m["out"], m["pub"], m["ref"] = ints(p.Bytes()), hex.EncodeToString(p.PublicKey().Bytes()), hex.EncodeToString(pubOf(b))
		q, err := curve.NewPrivateKey(p.Bytes())
		m["again"] = err == nil && bytes.Equal(q.Bytes(), p.Bytes()) && bytes.Equal(q.PublicKey().Bytes(), p.PublicKey().Bytes()) && q.PublicKey().Equal(p.PublicKey()) && c.intact()
		return true, nil
	})
	if res != "yes" {
		m["res"] = res
	}
	return m
}

func pairLine(name string, b, pub []byte) M {
	m := M{"e": "pair", "name": name, "b": ints(b), "p": ints(pub), "res": "ok"}
	res := verdict(func() (bool, error) {
		p, err := curve.NewKeyPair(b, pub)
		if err != nil {
			return false, err
		}
		m["out"], m["pub"] = ints(p.PrivateKey().Bytes()), ints(p.PublicKey().Bytes())
		return true, nil
	})
	if res != "yes" {
		m["res"] = res
	}
	return m
}

func makeLine(name, how string, rd *detReader, seen map[string]bool) M {
	m := M{"e": "make", "name": name, "fail": rd != nil && rd.failAt > 0, "res": "ok"}
	res := verdict(func() (bool, error) {
		var priv curve.PrivateKey
		var pub []byte
		switch how {
		case "pair":
			var p *curve.KeyPair
			var err error
			if rd == nil {
				p, err = curve.GenerateKeyPair(nil)
			} else {
				p, err = curve.GenerateKeyPair(rd)
			}
			if err != nil {
				return false, err
			}
			priv, pub = p.PrivateKey(), p.PublicKey().Bytes()
		case "private":
			var err error
			if rd == nil {
				priv, err = curve.GeneratePrivateKey(nil)
			} else {
				priv, err = curve.GeneratePrivateKey(rd)
			}
			if err != nil {
				return false, err
			}
			pub = priv.PublicKey().Bytes()
		case "identity":
			var p identity.KeyPair
			var err error
			if rd == nil {
				p, err = identity.GenerateKeyPair(nil)
			} else {
				p, err = identity.GenerateKeyPair(rd)
			}
			if err != nil {
				return false, err
			}
			priv, pub = p.PrivateKey(), p.IdentityKey().Bytes()
			if !bytes.Equal(pub, p.PublicKey().Bytes()) {
				pub = nil
			}
		}
		m["pub"], m["ref"] = hex.EncodeToString(pub), hex.EncodeToString(pubOf(priv.Bytes()))
		q, err := curve.NewPrivateKey(priv.Bytes())
		x, err2 := curve.NewPublicKey(pub)
		m["again"] = err == nil && err2 == nil && bytes.Equal(q.PublicKey().Bytes(), pub) && bytes.Equal(x.Bytes(), pub) && bytes.Equal(x.KeyBytes(), pub[1:])
		m["fresh"] = !seen[string(pub)]
		seen[string(pub)] = true
		return true, nil
	})
	if res != "yes" {
		m["res"] = res
	}
	return m
}

var lowOrder = []string{
	"0000000000000000000000000000000000000000000000000000000000000000",
	"0100000000000000000000000000000000000000000000000000000000000000",
	"e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
	"5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
	"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
}

func keysCmd(focus string, seed int64, count int, out string, shards int, deep bool) {
	const batch = 10
	n := (count + batch - 1) / batch
	logs := make([][]M, n+1)
	parallel(n, runtime.NumCPU(), func(j int) {
		k := newKeyring(seed*1000003 + int64(j))
		r := k.r
		var l []M
		name := func(s string) string { return fmt.Sprintf("%s %s %d.%d", focus, s, j, len(l)) }
		text := func() []byte { return randBytes(r, pick(r, []int{0, 1, 2, 31, 32, 33, 63, 64, 65, 100, r.Intn(300)})) }
		split := func(b []byte) [][]byte {
			var ps [][]byte
			for n := r.Intn(4); n > 0; n-- {
				i := r.Intn(len(b) + 1)
				ps = append(ps, b[:i])
				b = b[i:]
			}
			return append(ps, b)
		}
		muts := []string{"r", "s", "sign", "top", "short", "long", "empty", "zero", "order", "swap"}
		for i := 0; i < batch; i++ {
			by := 1 + r.Intn(4)
			b := text()
			l = append(l, k.ver(name("sign"), by, by, split(b), split(b), "none", false))
			l = append(l, k.ver(name("changed"), by, by, split(b), split(b), pick(r, muts), false))
			c := append([]byte(nil), b...)
			switch r.Intn(4) {
			case 0:
				c = append(c, 0)
			case 1:
				if len(c) > 0 {
					c = c[:len(c)-1]
				}
			default:
				if len(c) > 0 {
					c[r.Intn(len(c))] ^= 1 << r.Intn(8)
				}
			}
			l = append(l, k.ver(name("other message"), by, by, split(b), split(c), "none", false))
			l = append(l, k.ver(name("other key"), by, 1+r.Intn(4), split(b), split(b), "none", false))
			l = append(l, k.ver(name("other form"), by, by, split(b), split(b), "none", true))
			x, y := 1+r.Intn(4), 1+r.Intn(4)
			l = append(l, k.alt(name("vouch"), by, by, x, x, "none"))
			l = append(l, k.alt(name("vouch"), by, x, x, by, "none"))
			l = append(l, k.alt(name("vouch"), by, by, x, y, pick(r, append(muts, "none"))))
			m1 := split(b)
			m2 := m1
			if r.Intn(2) == 0 {
				m2 = split(c)
			}
			l = append(l, k.nonce(name("nonce"), by, 1+r.Intn(2), m1, m2, 1+r.Intn(2), 1+r.Intn(2)))
			l = append(l, k.nonce(name("nonce"), by, by, m1, split(c), 1, 1))
			// agreement
			l = append(l, k.dh(name("agree"), by, k.get(x).PublicKey().KeyBytes(), x))
			l = append(l, k.dh(name("any point"), by, randBytes(r, 32), 0))
			low, _ := hex.DecodeString(pick(r, lowOrder))
			if r.Intn(3) == 0 {
				low[31] |= 0x80
			}
			l = append(l, k.dh(name("low order"), by, low, 0))
			if r.Intn(2) == 0 {
				low[r.Intn(31)] ^= 1 << r.Intn(8)
				l = append(l, k.dh(name("near low order"), by, low, 0))
			}
			l = append(l, k.dh(name("length"), by, randBytes(r, pick(r, []int{0, 1, 31, 33, 34, 64})), 0))
			// encodings
			p := randBytes(r, 32)
			if r.Intn(4) == 0 {
				p = bytes.Repeat([]byte{byte(r.Intn(2) * 255)}, 32)
			}
			l = append(l, privLine(r, name("private"), p))
			l = append(l, privLine(r, name("private"), randBytes(r, r.Intn(70))))
			pub := append([]byte{pick(r, []byte{5, 5, 5, 4, 0, 255})}, randBytes(r, pick(r, []int{32, 32, 32, 31, 33, 0}))...)
			l = append(l, pairLine(name("pair"), randBytes(r, pick(r, []int{32, 32, 32, 31, 33, 0})), pub))
			// equality
			u, v := randKey(r).Bytes(), randKey(r).Bytes()
			if r.Intn(2) == 0 {
				v = append([]byte(nil), u...)
				if r.Intn(2) == 0 {
					v[1+r.Intn(32)] ^= 1 << r.Intn(8)
				}
			}
			a, _ := curve.NewPublicKey(u)
			d, _ := curve.NewPublicKey(v)
			l = append(l, M{"e": "eq", "name": name("equal"), "x": ints(u), "y": ints(v), "res": a.Equal(d)})
			ia, _ := identity.NewKey(u)
			id, _ := identity.NewKey(v)
			l = append(l, M{"e": "eq", "name": name("equal"), "x": ints(u), "y": ints(v), "res": ia.Equal(id)})
			// one encoding
			w := randBytes(r, 32)
			switch r.Intn(4) {
			case 0:
				w = bytes.Repeat([]byte{255}, 32)
				w[0], w[31] = byte(228+r.Intn(28)), pick(r, []byte{127, 127, 126, 255})
			case 1:
				w = bytes.Repeat([]byte{255}, 32)
				w[31] = 127
				w[r.Intn(31)] ^= 1 << r.Intn(8)
			case 2:
				w = low
			}
			q, _ := curve.NewPublicKey(append([]byte{5}, w...))
			l = append(l, M{"e": "can", "name": name("canonical"), "b": ints(w), "res": q.IsCanonical()})
		}
		l = append(l, k.dhs(name("agreements"), 5))
		logs[j] = l
	})
	var l []M
	seen := map[string]bool{}
	for i := 0; i < 90; i++ {
		how := []string{"pair", "private", "identity"}[i%3]
		nm := fmt.Sprintf("%s make %d", focus, i)
		switch i % 5 {
		case 0:
			l = append(l, makeLine(nm, how, nil, seen))
		case 1:
			d := newDet(seed, fmt.Sprint("fail", i))
			d.failAt = 1
			l = append(l, makeLine(nm, how, d, seen))
		default:
			l = append(l, makeLine(nm, how, newDet(seed, fmt.Sprint("make", i)), seen))
		}
	}
	logs[n] = l
	print(write(logs, nil, out, shards))
}

func keysGenCmd(focus, in string, seed int64, max int, out string, shards int) {
	type tc struct {
		Op                      string
		By, Pub, Other, Claimed int
		A, B                    int
		Parts, Claim            [][]int
		Mut                     string
	}
	var all []tc
	each(in, func(line []byte) {
		if !bytes.HasPrefix(line, []byte(`"CASE `)) {
			return
		}
		s, err := strconv.Unquote(string(line))
		if err != nil {
			fatal(err)
		}
		var t tc
		if err := json.Unmarshal([]byte(s[5:]), &t); err != nil {
			fatal(err)
		}
		all = append(all, t)
	})
	total := len(all)
	to := func(ps [][]int) (out [][]byte) {
		for _, p := range ps {
			b := make([]byte, len(p))
			for i := range p {
				b[i] = byte(p[i])
			}
			out = append(out, b)
		}
		return
	}
	logs := make([][]M, len(all))
	parallel(len(all), runtime.NumCPU(), func(i int) {
		t := all[i]
		k := newKeyring(seed*7 + int64(i/50))
		k.n = i
		k.r = rand.New(rand.NewSource(seed + int64(i)))
		nm := fmt.Sprintf("%s generated %d", focus, i)
		switch t.Op {
		case "ver":
			logs[i] = []M{k.ver(nm, t.By, t.Pub, to(t.Parts), to(t.Claim), t.Mut, false)}
		case "alt":
			logs[i] = []M{k.alt(nm, t.By, t.Pub, t.Other, t.Claimed, t.Mut)}
		case "dh":
			logs[i] = []M{k.dh(nm, t.A, k.get(t.B).PublicKey().KeyBytes(), t.B)}
		}
	})
	res := write(logs, nil, out, shards)
	res.Cover["sequences"], res.Cover["sequences/all"], res.Cover["transitions"] = total, total, total
	print(res)
}
