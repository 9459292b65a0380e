package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/hkdf"
	"crypto/hmac"
	"crypto/sha256"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/prekey"
)

// The key schedule, written from the published specifications and without
// the library.

func kdf(ikm, salt []byte, info string, n int) []byte {
	out, err := hkdf.Key(sha256.New, ikm, salt, info, n)
	if err != nil {
		fatal(err)
	}
	return out
}

func mac256(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func dh(priv, pub []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		return nil
	}
	if len(pub) == 33 {
		pub = pub[1:]
	}
	p, err := ecdh.X25519().NewPublicKey(pub)
	if err != nil {
		return nil
	}
	s, err := k.ECDH(p)
	if err != nil {
		return nil
	}
	return s
}

func pubOf(priv []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		return nil
	}
	return append([]byte{5}, k.PublicKey().Bytes()...)
}

// x3dh gives the first root and chain key.
func x3dh(dhs ...[]byte) (root, chain []byte) {
	ikm := bytes.Repeat([]byte{0xFF}, 32)
	for _, d := range dhs {
		ikm = append(ikm, d...)
	}
	k := kdf(ikm, nil, "WhisperText", 64)
	return k[:32], k[32:]
}

// rootStep is one DH ratchet step.
func rootStep(root, secret []byte) (r, chain []byte) {
	k := kdf(secret, root, "WhisperRatchet", 64)
	return k[:32], k[32:]
}

func chainNext(ck []byte) []byte { return mac256(ck, []byte{2}) }

// messageKeys derives cipher key, MAC key and IV.
func messageKeys(ck []byte) (ckey, mkey, iv []byte) {
	k := kdf(mac256(ck, []byte{1}), nil, "WhisperMessageKeys", 80)
	return k[:32], k[32:64], k[64:80]
}

func chainAt(ck []byte, n int) []byte {
	for i := 0; i < n; i++ {
		ck = chainNext(ck)
	}
	return ck
}

// macOK says whether the MAC of a message is that of the key and identities.
func macOK(inner, mkey, from, to []byte) bool {
	body, tag := inner[:len(inner)-macLen], inner[len(inner)-macLen:]
	return bytes.Equal(mac256(mkey, from, to, body)[:macLen], tag)
}

// rawDecrypt is AES-256-CBC with PKCS #7.
func rawDecrypt(key, iv, ct []byte) ([]byte, bool) {
	b, err := aes.NewCipher(key)
	if err != nil || len(ct) == 0 || len(ct)%16 != 0 {
		return nil, false
	}
	out := make([]byte, len(ct))
	cipher.NewCBCDecrypter(b, iv).CryptBlocks(out, ct)
	n := int(out[len(out)-1])
	if n < 1 || n > 16 {
		return nil, false
	}
	for _, x := range out[len(out)-n:] {
		if int(x) != n {
			return nil, false
		}
	}
	return out[:len(out)-n], true
}

// fields32 lists all 32-byte values in a stored structure, wherever they are.
func fields32(m protoreflect.Message, out map[string]bool) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		one := func(v protoreflect.Value) {
			switch fd.Kind() {
			case protoreflect.BytesKind:
				if len(v.Bytes()) == 32 {
					out[string(v.Bytes())] = true
				}
			case protoreflect.MessageKind:
				fields32(v.Message(), out)
			}
		}
		if fd.IsList() {
			for i := 0; i < v.List().Len(); i++ {
				one(v.List().Get(i))
			}
		} else if !fd.IsMap() {
			one(v)
		}
		return true
	})
	if u := m.GetUnknown(); len(u) > 0 {
		for i := 0; i+32 <= len(u); i++ {
			out[string(u[i:i+32])] = true
		}
	}
}

// stolen collects all secrets in what a party has stored.
func (w *world) stolen(p *party, full bool) map[string]bool {
	out := map[string]bool{}
	add := func(b []byte) {
		var s v1.SessionStructure
		if proto.Unmarshal(b, &s) == nil {
			fields32(s.ProtoReflect(), out)
		}
	}
	for _, r := range w.names {
		rec, ok, err := p.sess.Load(bg, w.addr[r])
		if !ok || err != nil || rec == nil {
			continue
		}
		if st := rec.State(); st != nil {
			add(st.Bytes())
		}
		prev, _ := rec.PreviousStates()
		for _, s := range prev {
			add(s.Bytes())
		}
	}
	if full {
		out[string(p.kp.PrivateKey().Bytes())] = true
		for _, id := range p.spkID {
			if k, ok, _ := p.sgn.Load(bg, prekey.ID(id)); ok && k != nil {
				if kp, err := k.KeyPair(); err == nil {
					out[string(kp.PrivateKey().Bytes())] = true
				}
			}
		}
		for _, id := range p.opkID {
			if k, ok, _ := p.pre.Load(bg, prekey.ID(id)); ok && k != nil {
				if kp, err := k.KeyPair(); err == nil {
					out[string(kp.PrivateKey().Bytes())] = true
				}
			}
		}
	}
	return out
}

// doSnapshot steals what p has stored, for later use.
func (w *world) doSnapshot(p *party, c M) {
	w.snaps = append(w.snaps, w.stolen(p, c["full"] == true))
	w.log = append(w.log, c)
}

// doCompromise plays the attacker: it copies what p has stored and tries to
// read every message recorded so far with the library's key schedule: any
// stolen value may be a message key, a chain key, a root key or a private key.
//
// With "snap", the state stolen earlier is used, against all messages up to now.
func (w *world) doCompromise(p *party, c M) {
	full := c["full"] == true
	var S map[string]bool
	if k, ok := c["snap"]; ok {
		S = w.snaps[toInt(k)-1]
	} else {
		S = w.stolen(p, full)
	}
	broken := map[int]bool{}
	try := func(mkey []byte) {
		for i, m := range w.msgs {
			if broken[i+1] {
				continue
			}
			from, to := w.P[m.from].kp.PublicKey().Bytes(), w.P[m.to].kp.PublicKey().Bytes()
			if macOK(m.inner, mkey, from, to) {
				broken[i+1] = true
			}
		}
	}
	// The first block of most bodies is known, so a derived key is
	// recognised by the first block of ciphertext it gives.
	first := map[string][]int{}
	for i, m := range w.msgs {
		if ct := m.sig.GetCiphertext(); len(ct) >= 16 {
			first[string(ct[:16])] = append(first[string(ct[:16])], i+1)
		}
	}
	tryKeys := func(ck []byte) {
		ckey, mkey, iv := messageKeys(ck)
		b, _ := aes.NewCipher(ckey)
		var x [16]byte
		for i := range x {
			x[i] = bodyPrefix[i] ^ iv[i]
		}
		b.Encrypt(x[:], x[:])
		for _, mid := range first[string(x[:])] {
			m := w.msgs[mid-1]
			if macOK(m.inner, mkey, w.P[m.from].kp.PublicKey().Bytes(), w.P[m.to].kp.PublicKey().Bytes()) {
				broken[mid] = true
			}
		}
	}
	maxCtr := 0
	pubs := map[string]bool{}
	for _, m := range w.msgs {
		if n := int(m.sig.GetCounter()); n > maxCtr && n < 200 {
			maxCtr = n
		}
		pubs[string(m.sig.GetRatchetKey())] = true
	}
	for _, kp := range w.spk {
		pubs[string(kp.PublicKey().Bytes())] = true
	}
	walk := func(ck []byte) {
		for i := 0; i <= maxCtr+1; i++ {
			tryKeys(ck)
			ck = chainNext(ck)
		}
	}
	type key struct{ priv, pub string }
	secrets := map[key][]byte{}
	privs := []string{}
	for s := range S {
		try([]byte(s))
		walk([]byte(s))
		pub := pubOf([]byte(s))
		// private keys are recognised by their public key having been seen
		if pubs[string(pub)] || w.known(pub) {
			privs = append(privs, s)
		}
	}
	for _, s := range privs {
		for q := range pubs {
			if d := dh([]byte(s), []byte(q)); d != nil {
				secrets[key{s, q}] = d
			}
		}
	}
	// root keys, up to two steps forward
	level := S
	for d := 0; d < 2 && len(level)*len(secrets) < 4000; d++ {
		next := map[string]bool{}
		for r := range level {
			for _, sec := range secrets {
				r2, ck := rootStep([]byte(r), sec)
				hit := len(broken)
				walk(ck)
				if len(broken) > hit || d == 0 && len(level) < 12 {
					next[string(r2)] = true
				}
			}
		}
		level = next
	}
	// session set-up
	if full {
		w.attackSetup(privs, tryKeys)
	}
	out := []int{}
	for i := range w.msgs {
		if broken[i+1] {
			out = append(out, i+1)
		}
	}
	c["broken"] = out
	c["full"] = full
	w.cover["cmp/broken"] += len(out)
	w.cover["cmp/msgs"] += len(w.msgs)
	w.log = append(w.log, c)
}

func (w *world) known(pub []byte) bool {
	_, ok := w.labels[string(pub)]
	return ok
}

// attackSetup derives the sessions that pre-key messages set up, from the
// private keys of the responder or of the initiator.
func (w *world) attackSetup(privs []string, tryKeys func(ck []byte)) {
	by := map[string][]byte{}
	for _, s := range privs {
		by[string(pubOf([]byte(s)))] = []byte(s)
	}
	agree := func(a, b []byte) []byte {
		if k := by[string(a)]; k != nil {
			return dh(k, b)
		}
		if k := by[string(b)]; k != nil {
			return dh(k, a)
		}
		return nil
	}
	for _, m := range w.msgs {
		if m.pk == nil {
			continue
		}
		spk := w.spk[m.to+"/"+ids(m.pk.GetSignedPreKeyId())]
		if spk == nil {
			continue
		}
		sp, ik, base := spk.PublicKey().Bytes(), m.pk.GetIdentityKey(), m.pk.GetBaseKey()
		bob := w.P[m.to].kp.PublicKey().Bytes()
		dhs := [][]byte{agree(ik, sp), agree(base, bob), agree(base, sp)}
		if m.pk.PreKeyId != nil {
			opk := w.opk[m.to+"/"+ids(m.pk.GetPreKeyId())]
			if opk == nil {
				continue
			}
			dhs = append(dhs, agree(base, opk.PublicKey().Bytes()))
		}
		ok := true
		for _, d := range dhs {
			ok = ok && d != nil
		}
		if !ok {
			continue
		}
		root, ck0 := x3dh(dhs...)
		chains := [][]byte{ck0}
		if d := agree(m.sig.GetRatchetKey(), sp); d != nil {
			_, ck := rootStep(root, d)
			chains = append(chains, ck)
		}
		for _, ck := range chains {
			for n := 0; n < 30; n++ {
				tryKeys(ck)
				ck = chainNext(ck)
			}
		}
	}
}
