package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"fmt"
	"math/rand"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/session"
)

var bodyPrefix = []byte("constant prefix!") // one block

// plaintext makes a new body. Bodies of at least a block begin with the
// same block, so that equal message keys show as equal first blocks.
func (w *world) plaintext(n int) (int, []byte) {
	w.nbody++
	id := w.nbody
	var b []byte
	switch {
	case n < 0: // unspecified
		switch w.r.Intn(10) {
		case 0:
			n = w.r.Intn(16)
		case 1:
			n = 16 * (1 + w.r.Intn(4))
		case 2:
			n = 16*(1+w.r.Intn(4)) - 1
		case 3:
			n = 200 + w.r.Intn(3000)
		default:
			n = 20 + w.r.Intn(60)
		}
	}
	b = make([]byte, n)
	w.r.Read(b)
	if w.r.Intn(8) == 0 && n > 0 { // bodies which look like padding
		v := byte(w.r.Intn(18))
		for i := len(b) - 1; i >= 0 && i > len(b)-18; i-- {
			b[i] = v
		}
	}
	if n >= 16 {
		copy(b, bodyPrefix)
	}
	if n >= 16+10 {
		copy(b[16:], fmt.Sprintf("%010d", id))
	}
	return id, b
}

func str(x any) string { s, _ := x.(string); return s }

func flt(c M) (int, string) {
	f, ok := c["flt"].(M)
	if !ok {
		return 0, ""
	}
	return toInt(f["at"]), str(f["mode"])
}

// arm prepares fault injection for one operation on p.
func (w *world) arm(p *party, c M) {
	p.ctl.reset()
	w.rnd.failAt, w.rnd.fired, w.rnd.reads = 0, false, 0
	at, mode := flt(c)
	switch mode {
	case "":
	case "rnd":
		w.rnd.failAt = at
	default:
		p.ctl.failAt, p.ctl.mode = at, mode
	}
}

func (w *world) fired(p *party) bool { return p.ctl.fired || w.rnd.fired }

func (w *world) disarm(p *party) {
	p.ctl.failAt, w.rnd.failAt = 0, 0
}

func strs(xs []string) []string {
	if xs == nil {
		return []string{}
	}
	return xs
}

// finish completes the log entry of an operation.
func (w *world) finish(p *party, r string, c M, res, detail string, buf bool) {
	fired := w.fired(p)
	w.disarm(p)
	c["res"] = res
	if detail != "" && res != "ok" {
		c["err"] = detail
	}
	c["w"] = strs(p.ctl.writes)
	c["fired"] = fired
	c["buf"] = buf
	own, other, pre := w.settle(p, r)
	c["chg"] = own || other || pre
	c["oth"] = other
	c["v"] = w.view(p)
	w.log = append(w.log, c)
	w.cover[str(c["e"])+"/"+res]++
}

func asRef(x any) []any {
	r, ok := x.([]any)
	if !ok {
		fatal("bad reference", x)
	}
	return r
}

func list(x any) []any {
	if x == nil {
		return nil
	}
	l, _ := x.([]any)
	return l
}

func (w *world) private(ref []any) curve.PrivateKey {
	switch str(ref[0]) {
	case "id":
		return w.P[str(ref[1])].kp.PrivateKey()
	case "evil":
		return w.evil[toInt(ref[1])-1].PrivateKey()
	case "alias":
		return w.private(asRef(ref[1]))
	}
	return w.evil[0].PrivateKey()
}

// do runs a command and records it.
func (w *world) do(c M) M {
	if hangs.Load() > 0 {
		panic(stopped{w})
	}
	if w.bad != "" {
		return c
	}
	var p *party
	if n := str(c["p"]); n != "" {
		p = w.P[n]
	}
	switch str(c["e"]) {
	case "spk":
		kp, err := curve.GenerateKeyPair(w.rnd)
		if err != nil {
			fatal(err)
		}
		id := str(c["id"])
		w.spk[p.name+"/"+id] = kp
		sig, _ := p.kp.PrivateKey().Sign(w.rnd, kp.PublicKey().Bytes())
		if err := p.sgn.Store(bg, parseID(id), prekey.NewSigned(parseID(id), 1, kp, sig)); err != nil {
			fatal(err)
		}
		p.spkID = append(p.spkID, uint32(parseID(id)))
		p.dig = w.digest(p)
		c["lab"] = w.label(kp.PublicKey())
		w.log = append(w.log, c)
	case "opk":
		kp, err := curve.GenerateKeyPair(w.rnd)
		if err != nil {
			fatal(err)
		}
		id := str(c["id"])
		w.opk[p.name+"/"+id] = kp
		if err := p.pre.Store(bg, parseID(id), prekey.NewPreKey(parseID(id), kp)); err != nil {
			fatal(err)
		}
		p.opkID = append(p.opkID, uint32(parseID(id)))
		p.dig = w.digest(p)
		c["lab"] = w.label(kp.PublicKey())
		w.log = append(w.log, c)
	case "bun":
		w.doBundle(p, c)
	case "enc":
		w.doEncrypt(p, c)
	case "dec", "prb":
		w.doDecrypt(p, c)
	case "ppk":
		w.doProcess(p, c)
	case "ini":
		w.doInit(p, c)
	case "arc":
		r := str(c["r"])
		res, detail := guard(func() error {
			rec, ok, err := p.sess.Load(bg, w.addr[r])
			if err != nil || !ok {
				return err
			}
			rec.ArchiveCurrentState()
			return p.sess.Store(bg, w.addr[r], rec)
		}, w.addr[r])
		p.ctl.reset()
		w.finish(p, r, c, res, detail, true)
	case "tru":
		r := str(c["r"])
		k, err := identity.NewKey(w.key(asRef(c["k"])).Bytes())
		if err != nil {
			fatal(err)
		}
		res, detail := guard(func() error { _, err := p.ident.Store(bg, w.addr[r], k); return err }, w.addr[r])
		p.ctl.reset()
		w.finish(p, r, c, res, detail, true)
	case "clr":
		res, detail := guard(func() error { return p.ident.Clear() }, address.Address{})
		p.ctl.reset()
		w.finish(p, "", c, res, detail, true)
	case "lft":
		w.doLift(p, c)
	case "snp":
		w.doSnapshot(p, c)
	case "cmp":
		w.doCompromise(p, c)
	default:
		fatal("unknown command", c)
	}
	return c
}

func (w *world) bundle(c M) (*prekey.Bundle, *canary) {
	idk, err := identity.NewKey(w.key(asRef(c["idk"])).Bytes())
	if err != nil {
		fatal(err)
	}
	spk := w.key(asRef(c["spk"]))
	b := &prekey.Bundle{
		RegistrationID: 4242, DeviceID: w.addr[str(c["r"])].DeviceID,
		SignedPreKeyID: parseID(str(c["spkid"])), SignedPreKeyPublic: spk, IdentityKey: idk,
	}
	if q, ok := w.P[str(c["r"])]; ok {
		b.RegistrationID = q.reg
	}
	if l := list(c["opk"]); len(l) > 0 {
		b.PreKeyPublic = w.key(asRef(l[0]))
	}
	if l := list(c["opkid"]); len(l) > 0 {
		id := parseID(str(l[0]))
		b.PreKeyID = &id
	}
	priv := w.private(asRef(c["idk"]))
	data := spk.Bytes()
	var sig []byte
	if c["sig"].(bool) {
		sig, _ = priv.Sign(w.rnd, data)
	} else {
		how := str(c["how"])
		if how == "" {
			how = pick(w.r, []string{"flip", "signer", "data", "short", "long", "empty", "keybytes"})
		}
		switch how {
		case "signer":
			sig, _ = w.evil[len(w.evil)-1].PrivateKey().Sign(w.rnd, data)
		case "data":
			d2 := append([]byte(nil), data...)
			d2[1+w.r.Intn(32)] ^= 1 << w.r.Intn(8)
			sig, _ = priv.Sign(w.rnd, d2)
		case "keybytes": // signs the key without its type
			sig, _ = priv.Sign(w.rnd, data[1:])
		case "short":
			sig, _ = priv.Sign(w.rnd, data)
			sig = sig[:w.r.Intn(64)]
		case "long":
			sig, _ = priv.Sign(w.rnd, data)
			sig = append(sig, 0)
		case "empty":
			sig = []byte{}
		default:
			sig, _ = priv.Sign(w.rnd, data)
			i := w.r.Intn(512)
			if v, ok := c["pos"]; ok {
				i = toInt(v)
			}
			sig[i/8] ^= 1 << (i % 8)
		}
	}
	can := newCanary(sig)
	b.SignedPreKeySignature = can.slice()
	return b, can
}

func bundleText(b *prekey.Bundle) string {
	one := func(k curve.PublicKey) string {
		if k == nil {
			return "none"
		}
		return fmt.Sprintf("%x", k.Bytes())
	}
	id := "none"
	if b.PreKeyID != nil {
		id = fmt.Sprint(*b.PreKeyID)
	}
	return fmt.Sprint(b.RegistrationID, b.DeviceID, id, one(b.PreKeyPublic), b.SignedPreKeyID, one(b.SignedPreKeyPublic), len(b.SignedPreKeySignature), one(b.IdentityKey.PublicKey()))
}

func (w *world) doBundle(p *party, c M) {
	r := str(c["r"])
	if w.lifting && w.sameKey(w.key(asRef(c["idk"])).Bytes(), p) {
		return
	}
	b, can := w.bundle(c)
	w.arm(p, c)
	before, was := *b, bundleText(b)
	res, detail := guard(func() error {
		return w.session(p, r).ProcessPreKeyBundle(bg, w.rnd, b)
	}, w.addr[r])
	// the bundle remains as it was
	w.finish(p, r, c, res, detail, can.intact() && bundleText(b) == was && bundleText(&before) == was)
}

func (w *world) doEncrypt(p *party, c M) {
	r := str(c["r"])
	n := toInt(c["n"])
	keep := map[int]bool{}
	for _, k := range list(c["keep"]) {
		keep[toInt(k)] = true
	}
	plen := -1
	if v, ok := c["len"]; ok {
		plen = toInt(v)
	}
	first := w.nbody + 1
	w.arm(p, c)
	var out []message.Ciphertext
	var plains [][]byte
	var under []sealing
	res, detail, buf := "ok", "", true
	distinct := true
	kbs := map[string]bool{}
	s := w.session(p, r)
	seq := true
	var firstCtr uint32
	for i := 0; i < n && res == "ok"; i++ {
		var b []byte
		if keep[i] {
			_, b = w.plaintext(plen)
		} else {
			b = bodyPrefix
		}
		var seal sealing
		if keep[i] {
			seal = w.sealing(p, r)
		}
		can := newCanary(b)
		var ct message.Ciphertext
		res, detail = guard(func() error {
			var err error
			ct, err = s.EncryptMessage(bg, can.slice())
			return err
		}, w.addr[r])
		buf = buf && can.intact()
		if res != "ok" {
			if !isNil(ct) {
				c["leak"] = true
			}
			break
		}
		if isNil(ct) {
			res, detail = "panic", "no message"
			break
		}
		for j := range can.full { // the caller may reuse its buffer
			can.full[j] = 0x5A
		}
		_, sg, _, err := dissect(ct.Bytes(), ct.Type() == message.PreKeyType)
		if err != nil {
			res, detail = "panic", "undecodable message: "+err.Error()
			break
		}
		if i == 0 {
			firstCtr = sg.GetCounter()
		} else if sg.GetCounter() != firstCtr+uint32(i) {
			seq = false
		}
		if len(b) >= 16 && len(sg.GetCiphertext()) >= 16 {
			kb := string(sg.GetCiphertext()[:16])
			if kbs[kb] || w.kbs[kb] {
				distinct = false
			}
			kbs[kb] = true
		}
		if keep[i] {
			out = append(out, ct)
			plains = append(plains, b)
			under = append(under, seal)
		}
	}
	for kb := range kbs {
		w.kbs[kb] = true
	}
	c["body"] = first
	c["uniq"] = distinct
	c["seq"] = seq
	obs := []M{}
	if res == "ok" {
		for i, ct := range out {
			obs = append(obs, w.observe(p, r, ct, plains[i], first+i))
			w.msgs[len(w.msgs)-1].seal(under[i])
		}
	}
	c["o"] = obs
	w.finish(p, r, c, res, detail, buf)
}

// sealing is what a device encrypts and authenticates its next message with.
type sealing struct {
	keys *ratchet.MessageKeys
	mac  func(key, body []byte) []byte
}

func (w *world) sealing(p *party, r string) (out sealing) {
	defer func() {
		if recover() != nil {
			out = sealing{}
		}
	}()
	rec, ok, err := p.sess.Load(bg, w.addr[r])
	if !ok || err != nil || rec == nil || rec.State() == nil {
		return
	}
	ck, err := rec.SenderChainKey()
	if err != nil {
		return
	}
	mk, err := ck.MessageKeys()
	if err != nil {
		return
	}
	own, err := rec.State().LocalIdentityKey()
	if err != nil {
		return
	}
	peer, ok, err := rec.State().RemoteIdentityKey()
	if !ok || err != nil {
		return
	}
	return sealing{&mk, func(key, body []byte) []byte { return mac256(key, own.Bytes(), peer.Bytes(), body)[:macLen] }}
}

// seal notes what a message was made with, if so.
func (m *msg) seal(s sealing) {
	if s.keys == nil {
		return
	}
	k := len(m.inner) - macLen
	if bytes.Equal(s.mac(s.keys.MACKey(), m.inner[:k]), m.inner[k:]) {
		m.keys, m.mac = s.keys, s.mac
	}
}

// unreadable gives a ciphertext which does not decrypt.
func unreadable(r *rand.Rand, key, iv, ct []byte) []byte {
	ct = append([]byte(nil), ct...)
	pad := func(tail ...byte) []byte {
		blk, err := aes.NewCipher(key)
		if err != nil {
			fatal(err)
		}
		b := make([]byte, 16*(1+r.Intn(4)))
		r.Read(b)
		copy(b[len(b)-len(tail):], tail)
		cipher.NewCBCEncrypter(blk, iv).CryptBlocks(b, b)
		return b
	}
	switch r.Intn(8) {
	case 0:
		return []byte{}
	case 1:
		return ct[:len(ct)-1]
	case 2:
		return append(ct, 7)
	case 3:
		return pad(0)
	case 4:
		return pad(17)
	case 5:
		return pad(byte(18 + r.Intn(238)))
	case 6:
		return pad(2, 3, 3)
	}
	return pad(1, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16)
}

// observe adds a produced message and describes what can be seen of it.
func (w *world) observe(p *party, r string, ct message.Ciphertext, plain []byte, body int) M {
	pre := ct.Type() == message.PreKeyType
	b := append([]byte(nil), ct.Bytes()...)
	pk, sg, inner, err := dissect(b, pre)
	if err != nil {
		fatal(err)
	}
	m := &msg{ct: ct, bytes: b, body: body, from: p.name, to: r, seen: map[string]bool{}, pk: pk, sig: sg, inner: inner, plain: plain, isPK: pre}
	w.msgs = append(w.msgs, m)
	w.learnRatchet(p, r, m)
	o := M{"ctr": cc(sg.GetCounter()), "pc": cc(sg.GetPreviousCounter()), "ver": int(inner[0]), "typ": "sig"}
	rk, err := curve.NewPublicKey(sg.GetRatchetKey())
	if err != nil {
		o["rk"] = -1
	} else {
		o["rk"] = w.label(rk)
	}
	back, err := parse(append([]byte(nil), b...), pre)
	rt := err == nil && sameMessage(ct, back)
	switch x := ct.(type) {
	case *message.Signal:
		rt = rt && x.Counter() == sg.GetCounter() && bytes.Equal(x.Message(), sg.GetCiphertext())
	case *message.PreKey:
		o["typ"] = "pk"
		o["pver"] = int(b[0])
		o["reg"] = ids(pk.GetRegistrationId())
		o["spk"] = ids(pk.GetSignedPreKeyId())
		o["opk"] = []string{}
		if pk.PreKeyId != nil {
			o["opk"] = []string{ids(pk.GetPreKeyId())}
		}
		o["base"], o["idk"] = -1, -1
		if k, err := curve.NewPublicKey(pk.GetBaseKey()); err == nil {
			o["base"] = w.label(k)
		}
		if k, err := curve.NewPublicKey(pk.GetIdentityKey()); err == nil {
			o["idk"] = w.label(k)
		}
		rt = rt && x.RegistrationID() == pk.GetRegistrationId() && uint32(x.SignedPreKeyID()) == pk.GetSignedPreKeyId()
	}
	o["rt"] = rt
	o["hash"] = fmt.Sprintf("%x", sha256.Sum256(b))[:16]
	o["clen"] = len(sg.GetCiphertext()) == (len(plain)/16+1)*16
	return o
}

// deliverable builds the bytes which a "dec" command delivers.
func (w *world) deliverable(c M) ([]byte, bool, bool) {
	m := w.msgs[toInt(c["m"])-1]
	d, _ := c["d"].(M)
	if len(d) == 0 {
		return append([]byte(nil), m.bytes...), m.isPK, true
	}
	inner := append([]byte(nil), m.inner...)
	mac := inner[len(inner)-macLen:]
	_, hrk := d["rk"]
	_, hctr := d["ctr"]
	bad := false
	if ok, has := d["ok"].(bool); has && !ok {
		bad = true
	}
	if bad {
		sg := proto.Clone(m.sig).(*v1.SignalMessage)
		reenc := func() {
			body, err := proto.Marshal(sg)
			if err != nil {
				fatal(err)
			}
			inner = append(append([]byte{m.inner[0]}, body...), mac...)
		}
		switch {
		case hrk || hctr:
			if hrk {
				sg.RatchetKey = w.key(asRef(d["rk"])).Bytes()
			}
			if hctr {
				v := uncc(toInt(d["ctr"]))
				sg.Counter = &v
			}
			reenc()
		default:
			how := str(d["how"])
			if how == "" {
				how = pick(w.r, []string{"mac", "mac", "ctext", "ctext", "ctext", "body", "flip", "flip", "splice", "trunc", "pc", "append", "ver", "macof", "lastmac", "field"})
			}
			if how == "ctext" && m.keys == nil {
				how = "mac"
			}
			switch how {
			case "ctext": // what the peer itself could make
				ver := inner[0]
				if w.r.Intn(6) == 0 {
					ver = pick(w.r, []byte{0x03, 0x13, 0x23, 0x43, 0x44, 0xF3})
				} else {
					sg.Ciphertext = unreadable(w.r, m.keys.CipherKey(), m.keys.IV(), sg.Ciphertext)
				}
				body, err := proto.Marshal(sg)
				if err != nil {
					fatal(err)
				}
				inner = append([]byte{ver}, body...)
				inner = append(inner, m.mac(m.keys.MACKey(), inner)...)
			case "bit": // a given bit
				n := toInt(d["pos"]) % (8 * len(inner))
				inner[n/8] ^= 1 << (n % 8)
			case "cut": // a given length
				inner = inner[:toInt(d["pos"])%len(inner)]
			case "mac":
				inner[len(inner)-1-w.r.Intn(macLen)] ^= 1 << w.r.Intn(8)
			case "lastmac":
				inner[len(inner)-1] ^= 1
			case "body":
				sg.Ciphertext[w.r.Intn(len(sg.Ciphertext))] ^= 1 << w.r.Intn(8)
				reenc()
			case "flip":
				inner[w.r.Intn(len(inner))] ^= 1 << w.r.Intn(8)
			case "splice":
				o := w.msgs[w.r.Intn(len(w.msgs))]
				if o != m && !bytes.Equal(o.sig.Ciphertext, sg.Ciphertext) {
					sg.Ciphertext = append([]byte(nil), o.sig.Ciphertext...)
				} else {
					sg.Ciphertext = append(append([]byte(nil), sg.Ciphertext...), sg.Ciphertext[:16]...)
				}
				reenc()
			case "trunc":
				inner = inner[:w.r.Intn(len(inner))]
			case "pc":
				v := sg.GetPreviousCounter() + 1 + uint32(w.r.Intn(3))
				sg.PreviousCounter = &v
				reenc()
			case "append":
				inner = append(inner, byte(w.r.Intn(256)))
			case "ver":
				inner[0] ^= byte(1 + w.r.Intn(15))
			case "macof": // the MAC of another message
				o := w.msgs[w.r.Intn(len(w.msgs))]
				om := o.inner[len(o.inner)-macLen:]
				if bytes.Equal(om, mac) {
					inner[len(inner)-3] ^= 0x10
				} else {
					copy(inner[len(inner)-macLen:], om)
				}
			case "field": // an unknown field is covered by the MAC too
				body := append([]byte(nil), inner[1:len(inner)-macLen]...)
				body = append(body, 0x7a, 0x01, 0x41)
				inner = append(append([]byte{m.inner[0]}, body...), mac...)
			}
		}
	}
	if bad && bytes.Equal(inner, m.inner) { // no change after all
		inner[len(inner)-1] ^= 0x40
	}
	typ := "sig"
	if m.isPK {
		typ = "pk"
	}
	if t := str(d["typ"]); t != "" {
		typ = t
	}
	if typ == "sig" {
		return inner, false, false
	}
	pk := &v1.PreKeySignalMessage{}
	if m.isPK {
		pk = proto.Clone(m.pk).(*v1.PreKeySignalMessage)
	} else {
		v := uint32(77)
		pk.RegistrationId = &v
	}
	pk.Message = inner
	if v, ok := d["opk"]; ok {
		pk.PreKeyId = nil
		if l := list(v); len(l) > 0 {
			id := uint32(parseID(str(l[0])))
			pk.PreKeyId = &id
		}
	}
	if v, ok := d["spk"]; ok {
		id := uint32(parseID(str(v)))
		pk.SignedPreKeyId = &id
	}
	if v, ok := d["base"]; ok {
		pk.BaseKey = w.key(asRef(v)).Bytes()
	}
	if v, ok := d["idk"]; ok {
		pk.IdentityKey = w.key(asRef(v)).Bytes()
	}
	if v, ok := d["reg"]; ok {
		id := uint32(parseID(str(v)))
		pk.RegistrationId = &id
	}
	body, err := proto.Marshal(pk)
	if err != nil {
		fatal(err)
	}
	return append([]byte{0x33}, body...), true, false
}

// unsupported gives a message of a kind which sessions do not decrypt.
func (w *world) unsupported(m *msg) message.Ciphertext {
	if w.r.Intn(3) == 0 {
		pt, err := message.NewPlaintextFromBytes(append([]byte{0xC0}, m.plain...))
		if err != nil {
			fatal(err)
		}
		return pt
	}
	kp, err := curve.GenerateKeyPair(w.rnd)
	if err != nil {
		fatal(err)
	}
	sk, err := message.NewSenderKey(w.rnd, message.SenderKeyConfig{Version: 3, ChainID: 1, Ciphertext: m.sig.GetCiphertext(), SignatureKey: kp.PrivateKey()})
	if err != nil {
		fatal(err)
	}
	return sk
}

func (w *world) doDecrypt(p *party, c M) {
	r := str(c["r"])
	m := w.msgs[toInt(c["m"])-1]
	if _, ok := c["d"]; !ok {
		c["d"] = M{}
	}
	b, pre, plain := w.deliverable(c)
	if w.lifting && pre {
		var pk v1.PreKeySignalMessage
		if proto.Unmarshal(b[1:], &pk) == nil && w.sameKey(pk.GetIdentityKey(), p) {
			return
		}
	}
	can := newCanary(b)
	p.ctl.dry = str(c["e"]) == "prb"
	w.arm(p, c)
	var pt []byte
	direct := plain && w.r.Intn(3) == 0
	res, detail := guard(func() error {
		var ct message.Ciphertext
		var err error
		if d, _ := c["d"].(M); str(d["typ"]) == "other" {
			ct = w.unsupported(m)
		} else if direct {
			ct = m.ct
		} else if ct, err = parse(can.slice(), pre); err != nil {
			return err
		}
		pt, err = w.session(p, r).DecryptMessage(bg, w.rnd, ct)
		return err
	}, w.addr[r])
	p.ctl.dry = false
	c["body"] = 0
	if res == "ok" {
		if bytes.Equal(pt, m.plain) {
			c["body"] = m.body
		} else {
			c["body"] = -1
		}
		if str(c["e"]) == "dec" {
			m.seen[p.name] = true
		}
		for i := range pt { // the caller may reuse what it got
			pt[i] ^= 0xFF
		}
	} else if len(pt) != 0 {
		c["leak"] = true
	}
	w.finish(p, r, c, res, detail, can.intact() && bytes.Equal(m.ct.Bytes(), m.bytes))
}

// loadOr loads what the party has stored for r, or makes a fresh record.
func (w *world) loadOr(p *party, r string) (*session.Record, error) {
	rec, ok, err := p.sess.Load(bg, w.addr[r])
	if err == nil && !ok {
		rec = session.NewRecord(nil)
	}
	return rec, err
}

// doProcess lets the application do on its own what the decryption of a
// pre-key message begins with, and store the outcome.
func (w *world) doProcess(p *party, c M) {
	r := str(c["r"])
	m := w.msgs[toInt(c["m"])-1]
	if _, ok := c["d"]; !ok {
		c["d"] = M{}
	}
	b, pre, _ := w.deliverable(c)
	if !pre || w.lifting {
		return
	}
	can := newCanary(b)
	rec, err := w.loadOr(p, r)
	if err != nil {
		return
	}
	before := recDigest(rec)
	w.arm(p, c)
	var id *prekey.ID
	res, detail := guard(func() error {
		ct, err := parse(can.slice(), true)
		if err != nil {
			return err
		}
		id, err = w.session(p, r).ProcessPreKey(bg, rec, ct.(*message.PreKey))
		return err
	}, w.addr[r])
	// the caller is expected to throw its record away if a store failed
	same := res == "ok" || p.ctl.fired || recDigest(rec) == before
	used := []any{}
	if res == "ok" {
		if err := p.sess.Store(bg, w.addr[r], rec); err != nil {
			fatal(err)
		}
		if id != nil {
			used = append(used, ids(uint32(*id)))
			if err := p.pre.Delete(bg, *id); err != nil {
				fatal(err)
			}
		}
	}
	c["used"] = used
	w.finish(p, r, c, res, detail, same && can.intact() && bytes.Equal(m.ct.Bytes(), m.bytes))
}

// doInit makes both ends of a session out of keys the application has.
func (w *world) doInit(p *party, c M) {
	r := str(c["r"])
	q := w.P[r]
	if w.lifting && bytes.Equal(p.kp.IdentityKey().Bytes(), q.kp.IdentityKey().Bytes()) {
		return
	}
	spk := w.spk[r+"/"+str(c["spkid"])]
	base, err := curve.GenerateKeyPair(w.rnd)
	if err != nil {
		fatal(err)
	}
	c["lab"] = w.label(base.PublicKey())
	ap := &ratchet.AliceParameters{
		OurIdentityKeyPair: p.kp, OurBaseKeyPair: base,
		TheirIdentityKey: q.kp.IdentityKey(), TheirSignedPreKey: spk.PublicKey(), TheirRatchetKey: spk.PublicKey(),
	}
	bp := &ratchet.BobParameters{
		OurIdentityKeyPair: q.kp, OurSignedPreKeyPair: spk, OurRatchetKeyPair: spk,
		TheirIdentityKey: p.kp.IdentityKey(), TheirBaseKey: base.PublicKey(),
	}
	if l := list(c["opk"]); len(l) > 0 {
		opk := w.opk[r+"/"+str(asRef(l[0])[2])]
		ap.TheirOneTimePreKey, bp.OurOneTimePreKeyPair = opk.PublicKey(), opk
	}
	put := func(p *party, r string, made *session.Record) error {
		rec, err := w.loadOr(p, r)
		if err != nil {
			return err
		}
		rec.PromoteState(made.State())
		return p.sess.Store(bg, w.addr[r], rec)
	}
	res, detail := guard(func() error {
		a, err := session.InitializeAliceSessionRecord(w.rnd, ap)
		if err != nil {
			return err
		}
		b, err := session.InitializeBobSessionRecord(bp)
		if err != nil {
			return err
		}
		if err := put(p, r, a); err != nil {
			return err
		}
		return put(q, p.name, b)
	}, w.addr[r])
	p.ctl.reset()
	q.dig = w.digest(q)
	c["v2"] = w.view(q)
	w.finish(p, r, c, res, detail, true)
}
