package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"strconv"
	"strings"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
)

// Encodings: messages which the library builds, and byte strings which it
// parses, with everything it says about them.

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func le32(x uint32) []int {
	return []int{int(x & 255), int(x >> 8 & 255), int(x >> 16 & 255), int(x >> 24)}
}

func didInts(d distribution.ID) []int {
	b, err := hex.DecodeString(strings.ReplaceAll(d.String(), "-", ""))
	if err != nil {
		return []int{}
	}
	return ints(b)
}

func signalFields(s *message.Signal) M {
	return M{"type": int(s.Type()), "ver": int(s.Version()), "rk": ints(s.SenderRatchetKey().Bytes()), "ctr": le32(s.Counter()), "ct": ints(s.Message())}
}

func preKeyFields(p *message.PreKey) M {
	opk := []any{}
	if p.PreKeyID() != nil {
		opk = append(opk, le32(uint32(*p.PreKeyID())))
	}
	return M{"type": int(p.Type()), "ver": int(p.Version()), "opk": opk, "spk": le32(uint32(p.SignedPreKeyID())), "reg": le32(p.RegistrationID()),
		"base": ints(p.BaseKey().Bytes()), "idk": ints(p.IdentityKey().Bytes()), "msg": ints(p.Message().Bytes()), "inner": signalFields(p.Message())}
}

func senderKeyFields(s *message.SenderKey) M {
	return M{"type": int(s.Type()), "ver": int(s.Version()), "did": didInts(s.DistributionID()), "cid": le32(s.ChainID()), "it": le32(s.Iteration()), "ct": ints(s.Message())}
}

func distFields(s *message.SenderKeyDistribution) M {
	return M{"type": 0, "ver": int(s.Version()), "did": didInts(s.DistributionID()), "cid": le32(s.ChainID()), "it": le32(s.Iteration()), "ck": ints(s.ChainKey()), "sk": ints(s.SigningKey().Bytes())}
}

// parse gives b to the library's parser.
func parseWire(kind string, b []byte) (f M, ser []byte, err error, panicked any) {
	defer func() {
		if r := recover(); r != nil {
			panicked = r
		}
	}()
	switch kind {
	case "signal":
		var c message.Ciphertext
		if c, err = message.NewSignalFromBytes(b); err == nil {
			f, ser = signalFields(c.(*message.Signal)), c.Bytes()
		}
	case "prekey":
		var c message.Ciphertext
		if c, err = message.NewPreKeyFromBytes(b); err == nil {
			f, ser = preKeyFields(c.(*message.PreKey)), c.Bytes()
		}
	case "senderkey":
		var c *message.SenderKey
		if c, err = message.NewSenderKeyFromBytes(b); err == nil {
			f, ser = senderKeyFields(c), c.Bytes()
		}
	case "distribution":
		var c *message.SenderKeyDistribution
		if c, err = message.NewSenderKeyDistributionFromBytes(b); err == nil {
			f, ser = distFields(c), c.Bytes()
		}
	case "plaintext":
		var c *message.Plaintext
		if c, err = message.NewPlaintextFromBytes(b); err == nil {
			f, ser = M{"type": int(c.Type()), "ver": 3, "ct": ints(c.Message())}, c.Bytes()
		}
	case "key":
		var k curve.PublicKey
		if k, err = curve.NewPublicKey(b); err == nil {
			f, ser = M{"type": 0, "ver": 3, "key": ints(k.Bytes())}, b
		}
	case "idkey":
		var k identity.Key
		if k, err = identity.NewKey(b); err == nil {
			f, ser = M{"type": 0, "ver": 3, "key": ints(k.Bytes())}, b
		}
	case "uuid":
		var d distribution.ID
		if d, err = distribution.ParseBytes(b); err == nil {
			f, ser = M{"type": 0, "ver": 3, "did": didInts(d)}, b
		}
	case "uuidtext":
		var d distribution.ID
		if d, err = distribution.Parse(string(b)); err == nil {
			f, ser = M{"type": 0, "ver": 3, "did": didInts(d)}, b
		}
	default:
		fatal("kind", kind)
	}
	return
}

func wireCase(name, kind string, b []byte) M {
	c := newCanary(b)
	f, ser, err, p := parseWire(kind, c.slice())
	m := M{"e": "case", "name": name, "kind": kind, "b": ints(b)}
	switch {
	case p != nil:
		m["res"] = "panic"
	case err != nil:
		m["res"] = "err"
	default:
		m["res"], m["f"] = "ok", f
		m["ser"] = bytes.Equal(ser, b)
	}
	m["same"] = c.intact()
	return m
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func rand32(r *rand.Rand) uint32 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return uint32(r.Intn(3))
	case 2:
		return 1<<32 - 1 - uint32(r.Intn(2))
	case 3:
		return 1<<uint(r.Intn(32)) - uint32(r.Intn(2))
	}
	return r.Uint32() >> uint(r.Intn(32))
}

func randKey(r *rand.Rand) curve.PublicKey {
	raw := randBytes(r, 32)
	switch r.Intn(8) {
	case 0:
		raw = make([]byte, 32)
	case 1:
		raw = bytes.Repeat([]byte{255}, 32)
	}
	k, err := curve.NewPublicKey(append([]byte{5}, raw...))
	if err != nil {
		fatal(err)
	}
	return k
}

func randDid(r *rand.Rand) distribution.ID {
	b := randBytes(r, 16)
	if r.Intn(6) == 0 {
		b = make([]byte, 16)
	}
	s := fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
	return distribution.MustParse(s)
}

func randText(r *rand.Rand) []byte {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return randBytes(r, 126+r.Intn(5))
	}
	return randBytes(r, 1+r.Intn(48))
}

// build makes a message of the given kind with the library.
func build(name, kind string, r *rand.Rand) (M, []byte) {
	m := M{"e": "build", "name": name, "kind": kind, "res": "ok"}
	var b []byte
	var watch []*canary
	keep := func(x []byte) []byte {
		if x == nil {
			return nil
		}
		c := newCanary(x)
		watch = append(watch, c)
		return c.slice()
	}
	fail := func(err error) (M, []byte) {
		m["res"] = "err"
		m["b"] = []int{}
		m["same"] = true
		return m, nil
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				m["res"] = "panic"
			}
		}()
		switch kind {
		case "signal":
			s, cfg, auth, err := buildSignal(r, keep)
			if err != nil {
				m["res"] = "err"
				return
			}
			m["cfg"], m["acc"], m["auth"], b = cfg, signalFields(s), auth, s.Bytes()
		case "prekey":
			s, _, _, err := buildSignal(r, keep)
			if err != nil {
				m["res"] = "err"
				return
			}
			c := message.PreKeyConfig{Version: 3, RegistrationID: rand32(r), SignedPreKeyID: prekey.ID(rand32(r)), BaseKey: randKey(r), Message: s}
			c.IdentityKey, _ = identity.NewKey(randKey(r).Bytes())
			opk := []any{}
			if r.Intn(3) > 0 {
				id := prekey.ID(rand32(r))
				c.PreKeyID = &id
				opk = append(opk, le32(uint32(id)))
			}
			x, err := message.NewPreKey(c)
			if err != nil {
				m["res"] = "err"
				return
			}
			m["cfg"] = M{"type": 3, "ver": 3, "opk": opk, "spk": le32(uint32(c.SignedPreKeyID)), "reg": le32(c.RegistrationID), "base": ints(c.BaseKey.Bytes()),
				"idk": ints(c.IdentityKey.Bytes()), "msg": ints(s.Bytes()), "inner": signalFields(s)}
			m["acc"], m["auth"], b = preKeyFields(x.(*message.PreKey)), true, x.Bytes()
		case "senderkey":
			pair, err := curve.GenerateKeyPair(newDet(r.Int63(), "sign"))
			if err != nil {
				fatal(err)
			}
			c := message.SenderKeyConfig{Version: 3, DistID: randDid(r), ChainID: rand32(r), Iteration: rand32(r), Ciphertext: keep(randText(r)), SignatureKey: pair.PrivateKey()}
			x, err := message.NewSenderKey(newDet(r.Int63(), "sig"), c)
			if err != nil {
				m["res"] = "err"
				return
			}
			m["cfg"] = M{"type": 7, "ver": 3, "did": didInts(c.DistID), "cid": le32(c.ChainID), "it": le32(c.Iteration), "ct": ints(c.Ciphertext)}
			m["acc"], b = senderKeyFields(x), x.Bytes()
			auth := len(b) > 64 && xedVerify(pair.PublicKey().Bytes(), b[:len(b)-64], b[len(b)-64:])
			// every copy of it with a changed byte has another opinion
			ok, err := x.VerifySignature(pair.PublicKey())
			auth = auth && ok && err == nil
			bad := append([]byte(nil), b...)
			bad[1+r.Intn(len(bad)-1)] ^= 1 << r.Intn(8)
			if y, err := message.NewSenderKeyFromBytes(bad); err == nil {
				ok, err := y.VerifySignature(pair.PublicKey())
				auth = auth && !(ok && err == nil)
			}
			m["auth"] = auth
		case "distribution":
			c := message.SenderKeyDistConfig{Version: 3, DistID: randDid(r), ChainID: rand32(r), Iteration: rand32(r), ChainKey: keep(randBytes(r, 32)), SigningKey: randKey(r)}
			x, err := message.NewSenderKeyDistribution(c)
			if err != nil {
				m["res"] = "err"
				return
			}
			m["cfg"] = M{"type": 0, "ver": 3, "did": didInts(c.DistID), "cid": le32(c.ChainID), "it": le32(c.Iteration), "ck": ints(c.ChainKey), "sk": ints(c.SigningKey.Bytes())}
			m["acc"], m["auth"], b = distFields(x), true, x.Bytes()
		}
	}()
	if m["res"] != "ok" {
		return fail(nil)
	}
	out := append([]byte(nil), b...)
	m["b"] = ints(out)
	f, _, err, p := parseWire(kind, out)
	switch {
	case p != nil:
		m["again"] = "panic"
	case err != nil:
		m["again"] = "err"
	default:
		m["again"], m["re"] = "ok", f
	}
	same := true
	for _, c := range watch {
		same = same && c.intact()
	}
	m["same"] = same
	return m, out
}

func buildSignal(r *rand.Rand, keep func([]byte) []byte) (*message.Signal, M, bool, error) {
	id1, _ := identity.NewKey(randKey(r).Bytes())
	id2, _ := identity.NewKey(randKey(r).Bytes())
	c := message.SignalConfig{Version: 3, MACKey: keep(randBytes(r, 32)), SenderRatchetKey: randKey(r), PreviousCounter: rand32(r), Counter: rand32(r),
		Ciphertext: keep(randText(r)), SenderIdentityKey: id1, ReceiverIdentityKey: id2}
	x, err := message.NewSignal(c)
	if err != nil {
		return nil, nil, false, err
	}
	s := x.(*message.Signal)
	b := s.Bytes()
	auth := len(b) > 8 && macOK(b, c.MACKey, id1.Bytes(), id2.Bytes())
	ok, err := s.VerifyMAC(c.MACKey, id1, id2)
	auth = auth && ok && err == nil
	no := func(m *message.Signal, k []byte, a, b identity.Key) {
		ok, err := m.VerifyMAC(k, a, b)
		auth = auth && !(ok && err == nil)
	}
	other := append([]byte(nil), c.MACKey...)
	other[r.Intn(32)] ^= 1 << r.Intn(8)
	no(s, other, id1, id2)
	if !bytes.Equal(id1.Bytes(), id2.Bytes()) {
		no(s, c.MACKey, id2, id1)
		no(s, c.MACKey, id1, id1)
		no(s, c.MACKey, id2, id2)
	}
	bad := append([]byte(nil), b...)
	bad[1+r.Intn(len(bad)-1)] ^= 1 << r.Intn(8)
	if y, err := message.NewSignalFromBytes(bad); err == nil {
		no(y.(*message.Signal), c.MACKey, id1, id2)
	}
	return s, M{"type": 2, "ver": 3, "rk": ints(c.SenderRatchetKey.Bytes()), "ctr": le32(c.Counter), "pc": le32(c.PreviousCounter), "ct": ints(c.Ciphertext)}, auth, nil
}

var wireKinds = []string{"signal", "prekey", "senderkey", "distribution"}

// damage changes an encoding somewhere.
func damage(r *rand.Rand, b []byte, pool [][]byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + r.Intn(3); n > 0; n-- {
		switch r.Intn(9) {
		case 0:
			if len(b) > 0 {
				b[r.Intn(len(b))] ^= 1 << r.Intn(8)
			}
		case 1:
			b = b[:r.Intn(len(b)+1)]
		case 2:
			if len(b) > 0 {
				b[r.Intn(len(b))] = byte(r.Intn(256))
			}
		case 3:
			i := r.Intn(len(b) + 1)
			b = append(b[:i:i], append(randBytes(r, 1+r.Intn(4)), b[i:]...)...)
		case 4:
			if len(b) > 2 {
				i := r.Intn(len(b))
				j := i + r.Intn(len(b)-i)
				b = append(b[:i:i], b[j:]...)
			}
		case 5:
			o := pick(r, pool)
			if len(o) > 0 && len(b) > 0 {
				b = append(b[:r.Intn(len(b)):len(b)], o[r.Intn(len(o)):]...)
			}
		case 6: // among the tags and lengths at the front
			if len(b) > 3 {
				b[r.Intn(len(b))%44] = pick(r, []byte{0, 1, 2, 5, 8, 10, 11, 12, 16, 18, 24, 26, 33, 34, 36, 40, 42, 48, 51, 127, 128, 255})
			}
		case 7:
			b = append(b, b...)
		case 8:
			i := r.Intn(len(b) + 1)
			b = append(append([]byte(nil), b[i:]...), b[:i]...)
		}
		if len(b) > 1200 {
			b = b[:1200]
		}
	}
	return b
}

func wireCmd(focus string, seed int64, count int, out string, shards int, deep bool) {
	r := rand.New(rand.NewSource(seed*7919 + 5))
	var logs [][]M
	var pool [][]byte
	by := map[string][][]byte{}
	for i := 0; i < count; i++ {
		kind := wireKinds[i%4]
		m, b := build(fmt.Sprintf("%s build %d", focus, i), kind, r)
		logs = append(logs, []M{m})
		if b != nil {
			pool = append(pool, b)
			by[kind] = append(by[kind], b)
		}
	}
	if len(pool) == 0 {
		pool = [][]byte{{51}}
	}
	var cases []M
	add := func(kind string, b []byte) {
		cases = append(cases, wireCase(fmt.Sprintf("%s %s %d", focus, kind, len(cases)), kind, b))
	}
	for i := 0; i < count*3; i++ {
		kind := wireKinds[i%4]
		b := pick(r, pool)
		if xs := by[kind]; len(xs) > 0 && r.Intn(8) > 0 {
			b = pick(r, xs)
		}
		if r.Intn(20) > 0 {
			b = damage(r, b, pool)
		}
		add(kind, b)
	}
	// every prefix of one message of each kind, and every byte changed
	for _, kind := range wireKinds {
		if len(by[kind]) == 0 {
			continue
		}
		b := by[kind][0]
		for i := range b {
			add(kind, b[:i])
			c := append([]byte(nil), b...)
			c[i] ^= 1 << r.Intn(8)
			add(kind, c)
		}
	}
	// the small ones
	for i := 0; i < 256; i++ {
		add("plaintext", append([]byte{byte(i)}, randText(r)...))
		k := append([]byte{byte(i)}, randBytes(r, 32)...)
		add(pick(r, []string{"key", "idkey"}), k)
	}
	for _, kind := range []string{"signal", "prekey", "senderkey", "distribution", "plaintext", "key", "idkey", "uuid", "uuidtext"} {
		add(kind, nil)
		add(kind, []byte{})
		for i := 0; i < 80; i++ {
			b := randBytes(r, i)
			add(kind, b)
			if i > 0 {
				c := append([]byte(nil), b...)
				c[0] = map[string]byte{"plaintext": 0xC0, "key": 5, "idkey": 5, "uuid": '{', "uuidtext": '{'}[kind]
				if c[0] == 0 {
					c[0] = 51
				}
				add(kind, c)
			}
		}
	}
	for i := 0; i < 300; i++ {
		s := []byte(randDid(r).String())
		switch r.Intn(5) {
		case 0:
			s = []byte(strings.ReplaceAll(string(s), "-", ""))
		case 1:
			s = append([]byte("urn:uuid:"), s...)
		case 2:
			s = append(append([]byte{'{'}, s...), '}')
		}
		if r.Intn(3) > 0 {
			s[r.Intn(len(s))] = pick(r, []byte("0123456789abcdefABCDEFgG-:{}_/@`\x00\xff"))
		}
		add(pick(r, []string{"uuid", "uuidtext"}), s)
	}
	for _, c := range cases {
		logs = append(logs, []M{c})
	}
	print(write(logs, nil, out, shards))
}

// wireGenCmd gives the messages which WireGen printed to the parsers, and
// mixtures of them.
func wireGenCmd(focus, in string, seed int64, max int, out string, shards int) {
	type tc struct {
		Kind string `json:"kind"`
		B    []int  `json:"b"`
	}
	var all []tc
	each(in, func(line []byte) {
		if !bytes.HasPrefix(line, []byte(`"CASE `)) {
			return
		}
		s, err := strconv.Unquote(string(line))
		if err != nil {
			fatal(err)
		}
		var t tc
		if err := json.Unmarshal([]byte(s[5:]), &t); err != nil {
			fatal(err)
		}
		all = append(all, t)
	})
	total := len(all)
	if max > 0 && len(all) > max {
		r := rand.New(rand.NewSource(seed))
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		all = all[:max]
	}
	logs := make([][]M, len(all))
	parallel(len(all), runtime.NumCPU(), func(i int) {
		b := make([]byte, len(all[i].B))
		for j, x := range all[i].B {
			b[j] = byte(x)
		}
		logs[i] = []M{wireCase(fmt.Sprintf("%s generated %d", focus, i), all[i].Kind, b)}
	})
	res := write(logs, nil, out, shards)
	res.Cover["sequences"], res.Cover["sequences/all"], res.Cover["transitions"] = len(all), total, total
	print(res)
}
