package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/RTann/libsignal-go/protocol/address"
	libaes "github.com/RTann/libsignal-go/protocol/crypto/aes"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/protocol"
	"github.com/RTann/libsignal-go/protocol/session"
)

// What goroutines do at the same time.  This part of the harness is compiled
// with the race detector, and run as a child process whose reports are read.

// cvalues are the values which the goroutines of a round share.  They come
// from constructors only: nothing has been asked of them before.
type cvalues struct {
	seed            int64
	alice, bob      identity.KeyPair
	akey, bkey      identity.Key
	spk             *prekey.SignedPreKey
	opk             *prekey.PreKey
	bundle          *prekey.Bundle
	sig             *canary
	pre, sgn        message.Ciphertext // messages of alice for bob
	reply           message.Ciphertext // message of bob for alice
	preB, sgnB      *canary
	dist            *message.SenderKeyDistribution
	gmsg            *message.SenderKey
	distB, gmsgB    *canary
	text            *canary
	secret, iv, box *canary
	idA, idB        *canary
	pair            *curve.KeyPair
	key             curve.PublicKey
	keyB, psig      *canary
	scan            *fingerprint.Scannable
	scanned         *canary
	fp              *fingerprint.Fingerprint
	plain           *message.Plaintext
	plainB          *canary
	did             distribution.ID
	didB            *canary
}

func must[T any](x T, err error) T {
	if err != nil {
		panic(fmt.Sprintf("set-up: %v", err))
	}
	return x
}

func check(err error) {
	if err != nil {
		panic(fmt.Sprintf("set-up: %v", err))
	}
}

var caddr = map[string]address.Address{"alice": {Name: "alice", DeviceID: 1}, "bob": {Name: "bob", DeviceID: 2}}

func cdevice(kp identity.KeyPair) protocol.Store { return protocol.NewInMemStore(kp, 77) }

func csession(s protocol.Store, with string) *session.Session {
	return &session.Session{
		RemoteAddress: caddr[with], SessionStore: s.SessionStore(), PreKeyStore: s.PreKeyStore(),
		SignedPreKeyStore: s.SignedPreKeyStore(), IdentityKeyStore: s.IdentityStore(),
	}
}

func (v *cvalues) bobDevice() protocol.Store {
	s := cdevice(v.bob)
	check(s.PreKeyStore().Store(bg, 11, v.opk))
	check(s.SignedPreKeyStore().Store(bg, 22, v.spk))
	return s
}

func (v *cvalues) groupSession(s protocol.Store) *session.GroupSession {
	return &session.GroupSession{SenderAddress: caddr["alice"], DistID: v.did, SenderKeyStore: s.GroupStore()}
}

// copyOf parses what another value encodes to, so that it is as from a constructor.
func copyOf(c message.Ciphertext, pre bool) message.Ciphertext {
	b := append([]byte(nil), c.Bytes()...)
	if pre {
		return must(message.NewPreKeyFromBytes(b))
	}
	return must(message.NewSignalFromBytes(b))
}

// newValues makes the values; the same seed makes the same ones (except for
// the chain ID of the group, which the library draws for itself).
func newValues(seed int64) *cvalues {
	rd := newDet(seed, "values")
	v := &cvalues{seed: seed}
	v.alice, v.bob = must(identity.GenerateKeyPair(rd)), must(identity.GenerateKeyPair(rd))
	spk, opk := must(curve.GenerateKeyPair(rd)), must(curve.GenerateKeyPair(rd))
	sig := must(v.bob.PrivateKey().Sign(rd, spk.PublicKey().Bytes()))
	v.sig = newCanary(sig)
	v.spk, v.opk = prekey.NewSigned(22, 1234, spk, sig), prekey.NewPreKey(11, opk)
	fresh := func(k []byte) curve.PublicKey { return must(curve.NewPublicKey(append([]byte(nil), k...))) }
	id := prekey.ID(11)
	mk := func() *prekey.Bundle {
		return &prekey.Bundle{
			RegistrationID: 77, DeviceID: 2, PreKeyID: &id, PreKeyPublic: fresh(opk.PublicKey().Bytes()),
			SignedPreKeyID: 22, SignedPreKeyPublic: fresh(spk.PublicKey().Bytes()), SignedPreKeySignature: v.sig.slice(),
			IdentityKey: must(identity.NewKey(append([]byte(nil), v.bob.IdentityKey().Bytes()...))),
		}
	}
	v.bundle = mk()
	v.text = newCanary([]byte("attack at dawn, or a little later than that"))

	// a conversation of which devices of alice and of bob take part in the rest
	a, b := cdevice(v.alice), v.bobDevice()
	check(csession(a, "bob").ProcessPreKeyBundle(bg, newDet(seed, "conv"), mk()))
	pre := must(csession(a, "bob").EncryptMessage(bg, []byte("first")))
	v.pre = copyOf(pre, true)
	v.preB = newCanary(pre.Bytes())
	must(csession(b, "alice").DecryptMessage(bg, newDet(seed, "reply"), pre))
	reply := must(csession(b, "alice").EncryptMessage(bg, []byte("reply")))
	v.reply = copyOf(reply, false)
	must(csession(a, "bob").DecryptMessage(bg, newDet(seed, "next"), reply))
	sgn := must(csession(a, "bob").EncryptMessage(bg, v.text.slice()))
	v.sgn = copyOf(sgn, false)
	v.sgnB = newCanary(sgn.Bytes())

	v.did = distribution.MustParse("d1d1d1d1-7000-11eb-b32a-33b8a8a487a6")
	v.didB = newCanary([]byte("d1d1d1d1-7000-11eb-b32a-33b8a8a487a6"))
	gs := v.groupSession(a)
	dist := must(gs.NewSenderKeyDistribution(bg, newDet(seed, "dist")))
	gm := must(gs.EncryptMessage(bg, newDet(seed, "gmsg"), v.text.slice()))
	v.distB, v.gmsgB = newCanary(dist.Bytes()), newCanary(gm.Bytes())
	v.dist = must(message.NewSenderKeyDistributionFromBytes(append([]byte(nil), dist.Bytes()...)))
	v.gmsg = must(message.NewSenderKeyFromBytes(append([]byte(nil), gm.Bytes()...)))

	sec, iv := make([]byte, 32), make([]byte, 16)
	rd.Read(sec)
	rd.Read(iv)
	v.secret, v.iv = newCanary(sec), newCanary(iv)
	v.box = newCanary(must(libaes.CBCEncrypt(append([]byte(nil), sec...), append([]byte(nil), iv...), []byte("boxed"))))
	v.idA, v.idB = newCanary([]byte("+14152222222")), newCanary([]byte("+14153333333"))
	p := must(curve.GenerateKeyPair(rd))
	v.pair = must(curve.NewKeyPair(append([]byte(nil), p.PrivateKey().Bytes()...), append([]byte(nil), p.PublicKey().Bytes()...)))
	v.key = fresh(p.PublicKey().Bytes())
	v.keyB = newCanary(p.PublicKey().Bytes())
	v.psig = newCanary(must(p.Sign(rd, []byte("part one"), []byte("part two"))))
	v.akey = must(identity.NewKey(append([]byte(nil), v.alice.IdentityKey().Bytes()...)))
	v.bkey = must(identity.NewKey(append([]byte(nil), v.bob.IdentityKey().Bytes()...)))
	h1, h2 := bytes.Repeat([]byte{3}, 64), bytes.Repeat([]byte{7}, 64)
	v.scan = must(fingerprint.NewScannable(2, h1, h2))
	v.scanned = newCanary(must(must(fingerprint.NewScannable(2, h2, h1)).Bytes()))
	v.fp = must(fingerprint.New(2, 5, v.idA.slice(), v.akey, v.idB.slice(), v.bkey))
	v.plainB = newCanary([]byte{0xC0, 1, 2, 3, 0x80})
	v.plain = must(message.NewPlaintextFromBytes([]byte{0xC0, 1, 2, 3, 0x80}))
	return v
}

func (v *cvalues) intact() bool {
	for _, c := range []*canary{v.sig, v.preB, v.sgnB, v.distB, v.gmsgB, v.text, v.secret, v.iv, v.box, v.idA, v.idB, v.keyB, v.psig, v.scanned, v.plainB, v.didB} {
		if !c.intact() {
			return false
		}
	}
	return true
}

// cjob is one goroutine's work: a device of its own, prepared, and what it does.
type cjob struct {
	kind string
	held *holder
	run  func() string
}

func hx(b []byte) string {
	if len(b) > 40 {
		h := sha256.Sum256(b)
		return fmt.Sprintf("%d:%s", len(b), hex.EncodeToString(h[:8]))
	}
	return hex.EncodeToString(b)
}

// holder keeps the byte strings which operations returned.
type holder struct{ is, was [][]byte }

func (h *holder) intact() bool {
	for i := range h.is {
		if !bytes.Equal(h.is[i], h.was[i]) {
			return false
		}
	}
	return true
}

func (h *holder) res(xs ...any) string {
	for _, x := range xs {
		if b, ok := x.([]byte); ok {
			h.is, h.was = append(h.is, b), append(h.was, append([]byte(nil), b...))
		}
	}
	var o []string
	for _, x := range xs {
		switch t := x.(type) {
		case []byte:
			o = append(o, hx(t))
		case error:
			o = append(o, "error")
		case nil:
			o = append(o, "-")
		default:
			o = append(o, fmt.Sprint(t))
		}
	}
	return strings.Join(o, " ")
}

func (h *holder) ownState(s protocol.Store, with string) string {
	rec, ok, err := s.SessionStore().Load(bg, caddr[with])
	if err != nil || !ok {
		return h.res(ok, err)
	}
	o := "none"
	if rec.State() != nil {
		o = h.res(rec.State().Bytes())
	}
	prev, err := rec.PreviousStates()
	if err != nil {
		return "error"
	}
	return fmt.Sprint(o, len(prev))
}

func (h *holder) ctext(c message.Ciphertext, err error) string {
	if err != nil || isNil(c) {
		return h.res(err)
	}
	return h.res(c.Type(), c.Bytes())
}

// job prepares a device for the kind of operation; who numbers the goroutine.
func (v *cvalues) job(kind string, who int) cjob {
	rd := newDet(v.seed, fmt.Sprint("job", who))
	h := &holder{}
	var f func() string
	// a device of alice with an answered session, and one of bob
	talked := func() protocol.Store {
		a := cdevice(v.alice)
		check(csession(a, "bob").ProcessPreKeyBundle(bg, newDet(v.seed, "conv"), v.bundleCopy()))
		must(csession(a, "bob").EncryptMessage(bg, []byte("first")))
		must(csession(a, "bob").DecryptMessage(bg, newDet(v.seed, "next"), must(message.NewSignalFromBytes(append([]byte(nil), v.reply.Bytes()...)))))
		return a
	}
	switch kind {
	case "bundle":
		s := cdevice(must(identity.GenerateKeyPair(rd)))
		f = func() string {
			err := csession(s, "bob").ProcessPreKeyBundle(bg, rd, v.bundle)
			return h.res(err, h.ownState(s, "bob"))
		}
	case "encrypt":
		s := talked()
		f = func() string {
			o := h.ctext(csession(s, "bob").EncryptMessage(bg, v.text.slice()))
			return o + h.ownState(s, "bob")
		}
	case "decrypt":
		s := v.bobDevice()
		must(csession(s, "alice").DecryptMessage(bg, newDet(v.seed, "reply"), must(message.NewPreKeyFromBytes(append([]byte(nil), v.preB.slice()...)))))
		must(csession(s, "alice").EncryptMessage(bg, []byte("reply")))
		f = func() string {
			p, err := csession(s, "alice").DecryptMessage(bg, rd, v.sgn)
			return h.res(p, err, h.ownState(s, "alice"))
		}
	case "first":
		s := v.bobDevice()
		f = func() string {
			p, err := csession(s, "alice").DecryptMessage(bg, rd, v.pre)
			_, left, e2 := s.PreKeyStore().Load(bg, 11)
			return h.res(p, err, left, e2, h.ownState(s, "alice"))
		}
	case "archive":
		s := talked()
		f = func() string {
			rec, ok, err := s.SessionStore().Load(bg, caddr["bob"])
			if err != nil || !ok {
				return h.res(ok, err)
			}
			rec.ArchiveCurrentState()
			err = s.SessionStore().Store(bg, caddr["bob"], rec)
			e2 := csession(s, "bob").ProcessPreKeyBundle(bg, rd, v.bundle)
			return h.res(err, e2, h.ownState(s, "bob"))
		}
	case "distribute":
		s := cdevice(v.alice)
		f = func() string {
			d, err := v.groupSession(s).NewSenderKeyDistribution(bg, rd)
			if err != nil {
				return h.res(err)
			}
			return h.res(d.Iteration(), d.DistributionID(), d.ChainKey(), d.SigningKey().Bytes())
		}
	case "process":
		s := cdevice(v.bob)
		f = func() string {
			err := v.groupSession(s).ProcessSenderKeyDistribution(bg, v.dist)
			_, ok, e2 := s.GroupStore().Load(bg, caddr["alice"], v.did)
			return h.res(err, ok, e2)
		}
	case "gencrypt":
		s := cdevice(v.alice)
		must(v.groupSession(s).NewSenderKeyDistribution(bg, newDet(v.seed, "own")))
		f = func() string {
			m, err := v.groupSession(s).EncryptMessage(bg, rd, v.text.slice())
			if err != nil {
				return h.res(err)
			}
			return h.res(m.Iteration(), m.DistributionID(), m.Message())
		}
	case "gdecrypt":
		s := cdevice(v.bob)
		check(v.groupSession(s).ProcessSenderKeyDistribution(bg, must(message.NewSenderKeyDistributionFromBytes(append([]byte(nil), v.distB.slice()...)))))
		f = func() string {
			p, err := v.groupSession(s).DecryptMessage(bg, v.gmsg)
			return h.res(p, err)
		}
	case "parse":
		f = func() string {
			pre, e1 := message.NewPreKeyFromBytes(v.preB.slice())
			sgn, e2 := message.NewSignalFromBytes(v.sgnB.slice())
			d, e3 := message.NewSenderKeyDistributionFromBytes(v.distB.slice())
			g, e4 := message.NewSenderKeyFromBytes(v.gmsgB.slice())
			p, e5 := message.NewPlaintextFromBytes(v.plainB.slice())
			id, e6 := distribution.ParseBytes(v.didB.slice())
			if e1 != nil || e2 != nil || e3 != nil || e4 != nil || e5 != nil {
				return h.res(e1, e2, e3, e4, e5)
			}
			x, y := pre.(*message.PreKey), sgn.(*message.Signal)
			ok, e7 := g.VerifySignature(d.SigningKey())
			return h.res(x.RegistrationID(), *x.PreKeyID(), x.SignedPreKeyID(), x.BaseKey().Bytes(), x.IdentityKey().Bytes(), x.Message().Counter(),
				y.Counter(), y.SenderRatchetKey().Bytes(), y.Message(), y.Version(), d.Iteration(), d.ChainKey(), g.Iteration(), g.Message(),
				p.Message(), id, e6, ok, e7)
		}
	case "sign":
		f = func() string {
			sig, err := v.pair.Sign(rd, v.text.slice(), v.iv.slice())
			ok, e2 := v.key.VerifySignature(sig, v.text.slice(), v.iv.slice())
			ok2, e3 := v.pair.PublicKey().VerifySignature(v.psig.slice(), []byte("part one"), []byte("part two"))
			alt, e4 := v.alice.SignAlternateIdentity(rd, v.bkey)
			ok3, e5 := v.akey.VerifyAlternateIdentity(alt, v.bkey)
			return h.res(sig, err, ok, e2, ok2, e3, e4, ok3, e5)
		}
	case "agree":
		f = func() string {
			x, err := v.pair.Agreement(v.bkey.PublicKey())
			y, e2 := v.bob.PrivateKey().Agreement(v.key)
			return h.res(x, err, y, e2)
		}
	case "keys":
		f = func() string {
			k, err := curve.NewPublicKey(v.keyB.slice())
			i, e2 := identity.NewKey(v.keyB.slice())
			if err != nil || e2 != nil {
				return h.res(err, e2)
			}
			return h.res(v.key.Bytes(), v.key.KeyBytes(), v.key.Equal(k), k.Equal(v.key), v.key.IsCanonical(), v.pair.PrivateKey().PublicKey().Bytes(),
				v.pair.PublicKey().Bytes(), v.pair.PrivateKey().Bytes(), i.Equal(v.akey), v.akey.Equal(v.akey), v.akey.Bytes(),
				v.alice.IdentityKey().Bytes(), v.alice.PublicKey().Bytes(), v.alice.PrivateKey().Bytes())
		}
	case "compare":
		f = func() string {
			ok, err := v.scan.Compare(v.scanned.slice())
			b, e2 := v.scan.Bytes()
			return h.res(ok, err, b, e2)
		}
	case "fingerprint":
		f = func() string {
			p, err := fingerprint.New(2, 5, v.idA.slice(), v.akey, v.idB.slice(), v.bkey)
			if err != nil {
				return h.res(err)
			}
			return h.res(p.String(), v.fp.String())
		}
	case "cipher":
		f = func() string {
			c, err := libaes.CBCEncrypt(v.secret.slice(), v.iv.slice(), v.text.slice())
			p, e2 := libaes.CBCDecrypt(v.secret.slice(), v.iv.slice(), v.box.slice())
			return h.res(c, err, p, e2)
		}
	case "large": // long enough for others to come in between
		s := talked()
		body := bytes.Repeat([]byte{byte(who + 1)}, 100_000)
		f = func() string {
			h := &holder{} // which need not keep that much
			var o []string
			for i := 0; i < 12; i++ {
				c, err := libaes.CBCEncrypt(v.secret.slice(), v.iv.slice(), body)
				p, e2 := libaes.CBCDecrypt(v.secret.slice(), v.iv.slice(), c)
				o = append(o, h.res(c, err, p, e2))
			}
			m, err := csession(s, "bob").EncryptMessage(bg, body)
			return strings.Join(append(o, h.ctext(m, err)), " ")
		}
	case "prekey":
		f = func() string {
			a, e1 := v.opk.KeyPair()
			b, e2 := v.spk.KeyPair()
			if e1 != nil || e2 != nil {
				return h.res(e1, e2)
			}
			pm, sm := v.pre.(*message.PreKey), v.sgn.(*message.Signal)
			mac, e3 := sm.VerifyMAC(v.secret.slice(), v.akey, v.bkey)
			return h.res(a.PublicKey().Bytes(), a.PrivateKey().Bytes(), b.PublicKey().Bytes(), b.PrivateKey().Bytes(),
				pm.BaseKey().Bytes(), pm.IdentityKey().Bytes(), pm.Message().Bytes(), pm.Bytes(), sm.Bytes(), mac, e3,
				len(v.dist.Bytes()) > 60, v.dist.SigningKey().Bytes(), v.dist.ChainID() != 0, v.gmsg.Message(), v.gmsg.ChainID() == v.dist.ChainID(), v.plain.Bytes(), v.plain.Message(),
				v.did.String(), caddr["bob"].String(), v.bundle.IdentityKey.Bytes())
		}
	default:
		fatal("unknown kind of operation", kind)
	}
	return cjob{kind: kind, held: h, run: func() (o string) {
		defer func() {
			if p := recover(); p != nil {
				o = fmt.Sprint("panic: ", p)
			}
		}()
		return f()
	}}
}

func (v *cvalues) bundleCopy() *prekey.Bundle {
	b := *v.bundle
	b.SignedPreKeyPublic = must(curve.NewPublicKey(append([]byte(nil), mustKeys(v.spk.KeyPair()).PublicKey().Bytes()...)))
	b.PreKeyPublic = must(curve.NewPublicKey(append([]byte(nil), mustKeys(v.opk.KeyPair()).PublicKey().Bytes()...)))
	b.IdentityKey = must(identity.NewKey(append([]byte(nil), v.bob.IdentityKey().Bytes()...)))
	return &b
}

func mustKeys(k *curve.KeyPair, err error) *curve.KeyPair { return must(k, err) }

const cworkers = 8

// jobs prepares what the goroutines of a round do.
func (v *cvalues) jobs(kinds []string) []cjob {
	var js []cjob
	for i := 0; i < cworkers; i++ {
		js = append(js, v.job(kinds[i%len(kinds)], i))
	}
	return js
}

func together(n int, f func(i int)) {
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			f(i)
		}(i)
	}
	close(start)
	wg.Wait()
}

func repeat(j cjob, times int) string {
	var o []string
	for i := 0; i < times; i++ {
		o = append(o, j.run())
	}
	return strings.Join(o, "; ")
}

// round does the kinds of operations at the same time, and alone.
func round(name string, seed int64, kinds []string, times int) (out []M) {
	defer func() { // not even the set-up works: nothing to compare
		if p := recover(); p != nil {
			out = nil
		}
	}()
	conc, alone := newValues(seed), newValues(seed)
	cj, aj := conc.jobs(kinds), alone.jobs(kinds)
	got, want := make([]string, len(cj)), make([]string, len(aj))
	together(len(cj), func(i int) { got[i] = repeat(cj[i], times) })
	for i := range aj {
		want[i] = repeat(aj[i], times)
	}
	kept := conc.intact()
	for i := range cj {
		out = append(out, M{"e": "op", "name": name, "k": cj[i].kind, "how": "shared", "alone": want[i], "conc": got[i], "kept": kept && cj[i].held.intact()})
	}
	return out
}

// cold has every goroutine do everything by itself, before anything else has
// happened in this process.
func cold(seed int64, kinds []string) []M {
	got, want := make([][]string, cworkers), make([][]string, cworkers)
	each := func(i int) (o []string) {
		defer func() {
			if p := recover(); p != nil {
				o = make([]string, len(kinds))
				for j := range o {
					o[j] = fmt.Sprint("panic: ", p)
				}
			}
		}()
		v := newValues(seed + int64(i))
		for j := range kinds {
			k := kinds[(i*3+j)%len(kinds)]
			o = append(o, k+" "+v.job(k, i).run())
		}
		return o
	}
	together(cworkers, func(i int) { got[i] = each(i) })
	var out []M
	for i := range want {
		want[i] = each(i)
		for j := range got[i] {
			out = append(out, M{"e": "op", "name": "cold", "k": kinds[(i*3+j)%len(kinds)], "how": "cold", "alone": want[i][j], "conc": got[i][j], "kept": true})
		}
	}
	return out
}

var conKinds = []string{"bundle", "encrypt", "decrypt", "first", "archive", "distribute", "process", "gencrypt", "gdecrypt",
	"parse", "sign", "agree", "keys", "compare", "fingerprint", "cipher", "prekey"}

// concChild runs in a process of its own.
func concChild(in string, seed int64, count int, out string, part, parts int) {
	f, err := os.Create(out)
	if err != nil {
		fatal(err)
	}
	put := func(ms []M) {
		for _, m := range ms {
			b, _ := json.Marshal(m)
			f.Write(append(b, '\n'))
		}
	}
	put(cold(seed*1000, conKinds))
	r := rand.New(rand.NewSource(seed))
	n := int64(0)
	if in != "" {
		for i, ks := range readRounds(in, count) {
			n++
			if i%parts != part {
				continue
			}
			put(round(fmt.Sprintf("round %d %s", i+1, strings.Join(ks, "+")), seed*100000+n, ks, 3))
		}
	} else {
		for i := 0; i < count; i++ {
			n++
			var ks []string
			for j := 0; j < cworkers; j++ {
				ks = append(ks, pick(r, conKinds))
			}
			if i%8 == 7 {
				put(round(fmt.Sprintf("large %d", i+1), seed*100000+70000+n, []string{"large", "large", "large", "cipher", "encrypt"}, 3))
			}
			put(round(fmt.Sprintf("mixed %d", i+1), seed*100000+50000+n, ks, 2+r.Intn(6)))
		}
	}
	f.Close()
}

func readRounds(in string, max int) [][]string {
	f, err := os.Open(in)
	if err != nil {
		fatal(err)
	}
	defer f.Close()
	var out [][]string
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		if !strings.HasPrefix(sc.Text(), `"ROUND `) {
			continue
		}
		s, err := strconv.Unquote(sc.Text())
		if err != nil {
			fatal(err)
		}
		var c struct{ Kinds []string }
		if err := json.Unmarshal([]byte(s[len("ROUND "):]), &c); err != nil {
			fatal(err)
		}
		out = append(out, c.Kinds)
	}
	sort.Slice(out, func(i, j int) bool { return strings.Join(out[i], "+") < strings.Join(out[j], "+") })
	if max > 0 && len(out) > max {
		r := rand.New(rand.NewSource(1))
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		out = out[:max]
	}
	return out
}

// concCmd runs children and reads what the race detector reported.
func concCmd(in string, seed int64, count int, out string, shards int, deep bool) {
	if !raceEnabled {
		fatal("compiled without the race detector")
	}
	n := 4
	if in == "" {
		count = (count + n - 1) / n
	}
	if deep {
		n = 16
	}
	logs := make([][]M, n)
	parallel(n, 4, func(i int) {
		logs[i] = child(in, seed*100+int64(i), count, i, n, filepath.Join(out, fmt.Sprint("child", i)))
	})
	var all [][]M
	cover := map[string]int{}
	for _, l := range logs {
		for _, m := range l {
			all = append(all, []M{m})
			cover[m["e"].(string)]++
			if in != "" && m["how"] == "shared" {
				cover["transitions"]++
			}
		}
	}
	cover["sequences"] = cover["transitions"] / cworkers
	cover["sequences/all"] = cover["sequences"]
	print(write(all, []map[string]int{cover}, out, shards))
}

func child(in string, seed int64, count, part, parts int, base string) []M {
	args := []string{"concchild", "-seed", fmt.Sprint(seed), "-count", fmt.Sprint(count), "-out", base + ".ndjson", "-part", fmt.Sprint(part), "-parts", fmt.Sprint(parts)}
	if in != "" {
		args = append(args, "-in", in)
	}
	self, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+base+".race")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	runErr := cmd.Run()
	var ms []M
	if f, err := os.Open(base + ".ndjson"); err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<24), 1<<24)
		for sc.Scan() {
			m := M{}
			if json.Unmarshal(sc.Bytes(), &m) == nil {
				ms = append(ms, m)
			}
		}
		f.Close()
		os.Remove(base + ".ndjson")
	}
	if runErr != nil {
		first := ""
		for _, l := range strings.Split(eb.String(), "\n") {
			if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") {
				first = l
				break
			}
		}
		if first == "" || !strings.Contains(eb.String(), libPath) {
			fatal("child:", runErr, eb.String())
		}
		ms = append(ms, M{"e": "op", "name": "process", "k": "process", "how": "crash", "alone": "ends", "conc": first, "kept": true})
	}
	logs, _ := filepath.Glob(base + ".race.*")
	for _, l := range logs {
		b, err := os.ReadFile(l)
		if err != nil {
			fatal(err)
		}
		os.Remove(l)
		ms = append(ms, races(string(b))...)
	}
	return ms
}

const libPath = "github.com/RTann/libsignal-go/protocol"

var accessLine = regexp.MustCompile(`^(Previous )?(atomic )?([Rr]ead|[Ww]rite) (at|of)`)

// races turns reports into lines: the two accesses of each.
func races(txt string) []M {
	var out []M
	for _, rep := range strings.Split(txt, "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		type acc struct {
			w   bool
			fns []string
		}
		var as []acc
		in := false
		for _, l := range strings.Split(rep, "\n") {
			if m := accessLine.FindStringSubmatch(l); m != nil {
				as = append(as, acc{w: strings.EqualFold(m[3], "write")})
				in = true
				continue
			}
			if strings.TrimSpace(l) == "" || strings.HasPrefix(l, "Goroutine") {
				in = false
				continue
			}
			if in && strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "      ") {
				as[len(as)-1].fns = append(as[len(as)-1].fns, strings.TrimSpace(l))
			}
		}
		if len(as) < 2 {
			fatal("cannot read a report of the race detector:", rep)
		}
		lib := false
		name := func(a acc) M {
			fn := ""
			for _, f := range a.fns {
				if strings.HasPrefix(f, libPath) {
					fn = strings.TrimPrefix(f, libPath+"/")
					break
				}
			}
			lib = lib || fn != ""
			if fn == "" && len(a.fns) > 0 {
				fn = a.fns[0]
			}
			return M{"fn": fn, "w": a.w}
		}
		a, b := name(as[0]), name(as[1])
		if !lib {
			fatal("the harness itself has a race:", rep)
		}
		out = append(out, M{"e": "race", "name": "race", "a": a, "b": b, "text": strings.TrimSpace(rep)})
		if len(out) >= 20 {
			break
		}
	}
	return out
}
