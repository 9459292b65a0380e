package main

import (
	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/curve"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"
)

// TLC's integers have 32 bits with sign. Counters are logged such that three
// windows of them, around 0, 2^31 and 2^32, follow one another: differences
// within a window, and the order, are as they are.
const (
	win   = 1 << 29
	half  = 1 << 31
	whole = 1 << 32
)

func cc(u uint32) int {
	n := int64(u)
	switch {
	case n < win:
		return int(n)
	case n < half-win: // in no window
		return win - 1
	case n < half+win:
		return int(n - half/2)
	case n < whole-win:
		return 3*win - 1
	}
	return int(n - half)
}

func uncc(c int) uint32 {
	n := int64(c)
	switch {
	case n < win:
		return uint32(n)
	case n < 3*win:
		return uint32(n + half/2)
	}
	return uint32(n + half)
}

// liftTo chooses a counter near the limit of signed, or the end of unsigned, integers.
func (w *world) liftTo() uint32 { return liftTo(w.r.Intn) }

func liftTo(n func(int) int) uint32 {
	switch n(4) {
	case 0:
		return uint32(half - 1 - n(4))
	case 1:
		return uint32(half - 26000 + n(30000))
	case 2:
		return uint32(half + n(10000))
	}
	return uint32(whole - 60000 + n(20000))
}

func editState(rec *session.Record, f func(s *v1.SessionStructure)) {
	if rec == nil || rec.State() == nil {
		return
	}
	s := &v1.SessionStructure{}
	if err := proto.Unmarshal(rec.State().Bytes(), s); err != nil {
		fatal(err)
	}
	f(s)
	rec.SetSessionState(session.NewState(s))
}

// doLift moves p's sending chain to r, and r's receiving chain for it, ahead
// to counter c.to as if that many messages had been sent and received.
func (w *world) doLift(p *party, c M) {
	r := str(c["r"])
	q, ok := w.P[r]
	if !ok {
		return
	}
	seen := map[string]bool{}
	for _, x := range w.P { // between devices of one user there is no limit
		k := string(x.kp.PublicKey().Bytes())
		if seen[k] {
			return
		}
		seen[k] = true
	}
	rec, has, err := p.sess.Load(bg, w.addr[r])
	if err != nil || !has || rec == nil || rec.State() == nil {
		return
	}
	to := uint32(toInt(c["to"]))
	delete(c, "to")
	var rk []byte
	var by uint32
	editState(rec, func(s *v1.SessionStructure) {
		ch := s.GetSenderChain()
		rk = ch.GetSenderRatchetKey()
		old := ch.GetChainKey().GetIndex()
		if to < old {
			to = old
		}
		if old >= win { // once only
			to = old
		}
		by = to - old
		ch.ChainKey.Index = to
		c["by"] = cc(to) - cc(old)
	})
	if err := p.sess.Store(bg, w.addr[r], rec); err != nil {
		fatal(err)
	}
	if rec, has, err := q.sess.Load(bg, w.addr[p.name]); err == nil && has && rec != nil {
		editState(rec, func(s *v1.SessionStructure) {
			for _, ch := range s.GetReceiverChains() {
				if string(ch.GetSenderRatchetKey()) == string(rk) {
					ch.ChainKey.Index += by
				}
			}
		})
		if err := q.sess.Store(bg, w.addr[p.name], rec); err != nil {
			fatal(err)
		}
	}
	p.dig, q.dig = w.digest(p), w.digest(q)
	p.ctl.reset()
	w.log = append(w.log, c)
}

// doLift moves p's sender key, wherever it is held, ahead to iteration c.to.
func sameSigner(st *session.GroupState, sk curve.PublicKey) bool {
	k, err := st.PublicSigningKey()
	return err == nil && k.Equal(sk)
}

func (w *gworld) doLift(p *gparty, c M) {
	did := str(c["did"])
	rec, ok, err := p.grp.Load(bg, w.addr[p.name], w.did[did])
	if err != nil || !ok || rec == nil {
		return
	}
	st, err := rec.State()
	if err != nil || st == nil {
		return
	}
	to := uint32(toInt(c["to"]))
	delete(c, "to")
	sk, err := st.PublicSigningKey()
	if err != nil {
		fatal(err)
	}
	cid, old := st.ChainID(), st.SenderChainKey().Iteration()
	if to < old {
		to = old
	}
	if old >= win { // once only
		to = old
	}
	by := to - old
	c["by"] = cc(to) - cc(old)
	for _, n := range w.names {
		q := w.P[n]
		rec, ok, err := q.grp.Load(bg, w.addr[p.name], w.did[did])
		if err != nil || !ok || rec == nil {
			continue
		}
		if st := rec.StateForChainID(cid); st != nil && sameSigner(st, sk) {
			k := st.SenderChainKey()
			st.SetSenderChainKey(senderkey.NewChainKey(k.Seed(), k.Iteration()+by))
			if err := q.grp.Store(bg, w.addr[p.name], w.did[did], rec); err != nil {
				fatal(err)
			}
		}
		q.dig = w.digest(q)
	}
	w.log = append(w.log, c)
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// sameKey says whether a key is that of p. A session with oneself may skip
// any number of messages, which takes too long where counters are high.
func (w *world) sameKey(k []byte, p *party) bool {
	o := p.kp.PublicKey().Bytes()
	return len(k) == len(o) && string(k[:len(k)-1]) == string(o[:len(o)-1]) && k[len(k)-1]&0x7F == o[len(o)-1]&0x7F
}
