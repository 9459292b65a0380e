package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"os"
	"strings"

	"google.golang.org/protobuf/proto"

	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
)

// For C23, the keys of messages are evaluated from the terms that the
// specification gives, with the key schedule of attack.go and the private
// keys of the parties, and compared with the messages.

var wantSide bool

// side is what evaluation needs to know about a history.
type side struct {
	Pubs  map[int]string    `json:"pubs,omitempty"`  // label to public key
	Privs map[string]string `json:"privs,omitempty"` // public to private key
	Dists []string          `json:"dists,omitempty"` // chain keys distributed
	Msgs  []sideMsg         `json:"msgs"`
}

type sideMsg struct {
	Raw   string `json:"raw"`
	Plain string `json:"plain"`
	Sk    string `json:"sk,omitempty"`
}

// learnRatchet notes the private ratchet key of the message just produced.
func (w *world) learnRatchet(p *party, r string, m *msg) {
	if !wantSide {
		return
	}
	if w.privs == nil {
		w.privs = map[string]string{}
	}
	pub := hex.EncodeToString(m.sig.GetRatchetKey())
	if _, ok := w.privs[pub]; ok {
		return
	}
	rec, ok, err := p.sess.Load(bg, w.addr[r])
	if !ok || err != nil || rec == nil || rec.State() == nil {
		return
	}
	var s v1.SessionStructure
	if proto.Unmarshal(rec.State().Bytes(), &s) != nil {
		return
	}
	vals := map[string]bool{}
	fields32(s.ProtoReflect(), vals)
	for v := range vals {
		if bytes.Equal(pubOf([]byte(v)), m.sig.GetRatchetKey()) {
			w.privs[pub] = hex.EncodeToString([]byte(v))
		}
	}
}

func (w *world) side() {
	if !wantSide {
		return
	}
	s := side{Pubs: map[int]string{}, Privs: map[string]string{}}
	for k, v := range w.privs {
		s.Privs[k] = v
	}
	for pub, l := range w.labels {
		s.Pubs[l] = hex.EncodeToString([]byte(pub))
	}
	add := func(priv, pub []byte) { s.Privs[hex.EncodeToString(pub)] = hex.EncodeToString(priv) }
	for _, p := range w.P {
		add(p.kp.PrivateKey().Bytes(), p.kp.PublicKey().Bytes())
	}
	for _, k := range w.spk {
		add(k.PrivateKey().Bytes(), k.PublicKey().Bytes())
	}
	for _, k := range w.opk {
		add(k.PrivateKey().Bytes(), k.PublicKey().Bytes())
	}
	for _, k := range w.evil {
		add(k.PrivateKey().Bytes(), k.PublicKey().Bytes())
	}
	for _, m := range w.msgs {
		s.Msgs = append(s.Msgs, sideMsg{Raw: hex.EncodeToString(m.inner), Plain: hex.EncodeToString(m.plain)})
	}
	b, _ := json.Marshal(s)
	w.log[0]["side"] = string(b)
}

func (w *gworld) side() {
	if !wantSide {
		return
	}
	s := side{}
	for _, d := range w.dists {
		var pb v1.SenderKeyDistributionMessage
		if len(d.bytes) < 1 || proto.Unmarshal(d.bytes[1:], &pb) != nil {
			fatal("distribution")
		}
		s.Dists = append(s.Dists, hex.EncodeToString(pb.GetChainKey()))
	}
	for _, m := range w.msgs {
		s.Msgs = append(s.Msgs, sideMsg{Raw: hex.EncodeToString(m.bytes), Plain: hex.EncodeToString(m.plain), Sk: hex.EncodeToString(m.sk)})
	}
	b, _ := json.Marshal(s)
	w.log[0]["side"] = string(b)
}

type termLine struct {
	H     int      `json:"h"`
	Names [][2]int `json:"names"`
	Dists [][]any  `json:"dists"`
	Msgs  []any    `json:"msgs"`
}

// evalCmd evaluates the terms in a TLC log for the histories of a trace.
func evalCmd(trace, terms string) {
	sides := []*side{nil}
	each(trace, func(line []byte) {
		if !bytes.Contains(line, []byte(`"e":"init"`)) {
			return
		}
		var in struct {
			Side string `json:"side"`
		}
		if err := json.Unmarshal(line, &in); err != nil {
			fatal(err)
		}
		var s side
		if err := json.Unmarshal([]byte(in.Side), &s); err != nil {
			fatal(err)
		}
		sides = append(sides, &s)
	})
	res := result{Cover: map[string]int{}}
	each(terms, func(line []byte) {
		if !bytes.HasPrefix(line, []byte(`"TERM `)) {
			return
		}
		var str string
		if err := json.Unmarshal(line, &str); err != nil {
			fatal(err)
		}
		var t termLine
		if err := json.Unmarshal([]byte(strings.TrimPrefix(str, "TERM ")), &t); err != nil {
			fatal(err, str)
		}
		if t.H < 1 || t.H >= len(sides) {
			fatal("term of unknown history")
		}
		res.Histories++
		s := sides[t.H]
		if len(t.Dists) > 0 || len(s.Dists) > 0 {
			evalGroup(&t, s, &res)
		} else if len(t.Msgs) > 0 {
			evalSession(&t, s, &res)
		}
	})
	print(res)
}

func each(path string, f func(line []byte)) {
	h, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer h.Close()
	sc := bufio.NewScanner(h)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		f(sc.Bytes())
	}
	if sc.Err() != nil {
		fatal(sc.Err())
	}
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		fatal(err)
	}
	return b
}

type evaluator struct {
	pub   map[int][]byte
	privs map[string]string
	memo  map[string][]byte
}

func (e *evaluator) dh(a, b int) []byte {
	pa, pb := e.pub[a], e.pub[b]
	if pa == nil || pb == nil {
		return nil
	}
	if k, ok := e.privs[hex.EncodeToString(pa)]; ok {
		return dh(unhex(k), pb)
	}
	if k, ok := e.privs[hex.EncodeToString(pb)]; ok {
		return dh(unhex(k), pa)
	}
	return nil
}

// eval gives the bytes of a term, nil if a private key is missing.
func (e *evaluator) eval(t any) []byte {
	b, _ := json.Marshal(t)
	if v, ok := e.memo[string(b)]; ok {
		return v
	}
	v := e.eval1(t.([]any))
	e.memo[string(b)] = v
	return v
}

func (e *evaluator) eval1(t []any) []byte {
	pair := func(x any) []byte {
		p := x.([]any)
		return e.dh(toInt(p[0]), toInt(p[1]))
	}
	switch op := t[0].(string); op {
	case "r0", "c0":
		dhs := [][]byte{}
		for _, x := range t[1].([]any)[1].([]any) {
			d := pair(x)
			if d == nil {
				return nil
			}
			dhs = append(dhs, d)
		}
		root, chain := x3dh(dhs...)
		if op == "r0" {
			return root
		}
		return chain
	case "r", "c":
		d, root := pair(t[1]), e.eval(t[2])
		if d == nil || root == nil {
			return nil
		}
		r, c := rootStep(root, d)
		if op == "r" {
			return r
		}
		return c
	}
	fatal("term", t)
	return nil
}

func evalSession(t *termLine, s *side, res *result) {
	e := &evaluator{pub: map[int][]byte{}, privs: s.Privs, memo: map[string][]byte{}}
	for _, p := range t.Names {
		if pub, ok := s.Pubs[p[0]]; ok && p[1] > 0 {
			e.pub[p[1]] = unhex(pub)
		}
	}
	for i, x := range t.Msgs {
		m := x.(M)
		if i >= len(s.Msgs) {
			fatal("more messages in the specification than were made")
		}
		ck := e.eval(m["ck"])
		from, to := e.pub[toInt(m["from"])], e.pub[toInt(m["to"])]
		if ck == nil || from == nil || to == nil {
			res.Cover["terms/unknown"]++
			continue
		}
		raw := unhex(s.Msgs[i].Raw)
		ckey, mkey, iv := messageKeys(chainAt(ck, toInt(m["n"])))
		what := ""
		var sg v1.SignalMessage
		switch {
		case len(raw) < 1+macLen || raw[0] != 0x33 || proto.Unmarshal(raw[1:len(raw)-macLen], &sg) != nil:
			what = "not a version 3 message"
		case !macOK(raw, mkey, from, to):
			what = "MAC"
		default:
			plain, ok := rawDecrypt(ckey, iv, sg.GetCiphertext())
			if !ok || hex.EncodeToString(plain) != s.Msgs[i].Plain {
				what = "plaintext"
			}
		}
		if what != "" {
			res.Problems = append(res.Problems, M{"h": t.H, "m": i + 1, "what": what})
		}
		res.Cover["terms/session"]++
	}
}

func evalGroup(t *termLine, s *side, res *result) {
	type start struct {
		off int
		ck  []byte
	}
	from := map[int][]start{}
	for i, d := range t.Dists {
		if i >= len(s.Dists) {
			fatal("more distributions in the specification than were made")
		}
		from[toInt(d[0])] = append(from[toInt(d[0])], start{toInt(d[1]), unhex(s.Dists[i])})
	}
	bad := func(i int, what string) {
		res.Problems = append(res.Problems, M{"h": t.H, "m": i, "what": what})
	}
	// distributions of one sender key are on one chain
	for _, l := range from {
		for _, x := range l[1:] {
			if x.off >= l[0].off && !bytes.Equal(chainAt(l[0].ck, x.off-l[0].off), x.ck) {
				bad(0, "chain key distributed")
			}
			res.Cover["terms/dists"]++
		}
	}
	for i, x := range t.Msgs {
		m := x.([]any)
		l := from[toInt(m[0])]
		if i >= len(s.Msgs) {
			fatal("more messages in the specification than were made")
		}
		if len(l) == 0 || l[0].off > toInt(m[1]) {
			res.Cover["terms/unknown"]++
			continue
		}
		ck := chainAt(l[0].ck, toInt(m[1])-l[0].off)
		k := kdf(mac256(ck, []byte{1}), nil, "WhisperGroup", 48)
		raw := unhex(s.Msgs[i].Raw)
		var pb v1.SenderKeyMessage
		if len(raw) < 1+sigLen || raw[0] != 0x33 || proto.Unmarshal(raw[1:len(raw)-sigLen], &pb) != nil {
			bad(i+1, "not a version 3 message")
		} else if plain, ok := rawDecrypt(k[16:], k[:16], pb.GetCiphertext()); !ok || hex.EncodeToString(plain) != s.Msgs[i].Plain {
			bad(i+1, "plaintext")
		} else if !xedVerify(unhex(s.Msgs[i].Sk), raw[:len(raw)-sigLen], raw[len(raw)-sigLen:]) {
			bad(i+1, "signature")
		}
		res.Cover["terms/group"]++
	}
}
