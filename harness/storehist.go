package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strconv"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/protocol"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"
)

// stworld runs commands on stores and records and logs them for StoresTrace.
type stworld struct {
	seed   int64
	stores []protocol.Store
	kps    []identity.KeyPair
	H      map[string]*session.Record
	G      map[string]*session.GroupRecord
	addr   map[string]address.Address
	did    map[string]distribution.ID
	akeys  []string // addresses
	gkeys  []string // address/group
	pids   []string // pre-key IDs
	toks   []string // pre-keys, identities
	cids   []string
	its    map[string][]string // chain -> iterations of keys ever added
	lab    map[string]string
	kp     map[string]*curve.KeyPair
	raw    map[string][]byte
	seen   map[string]string // digests
	log    []M
	cover  map[string]int
	failed bool
}

// parts is a store put together from the packages' own stores.
type parts struct {
	s session.Store
	i identity.Store
	p prekey.Store
	n prekey.SignedStore
	g session.GroupStore
}

func (p *parts) SessionStore() session.Store           { return p.s }
func (p *parts) IdentityStore() identity.Store         { return p.i }
func (p *parts) PreKeyStore() prekey.Store             { return p.p }
func (p *parts) SignedPreKeyStore() prekey.SignedStore { return p.n }
func (p *parts) GroupStore() session.GroupStore        { return p.g }

func newStWorld(seed int64, ns int, flavor string, addrs []address.Address, dids []string, pids []string) *stworld {
	w := &stworld{
		seed: seed, H: map[string]*session.Record{}, G: map[string]*session.GroupRecord{}, addr: map[string]address.Address{},
		did: map[string]distribution.ID{}, lab: map[string]string{}, kp: map[string]*curve.KeyPair{}, raw: map[string][]byte{},
		seen: map[string]string{}, its: map[string][]string{}, cover: map[string]int{},
	}
	current.Store(goid(), w)
	for i, a := range addrs {
		k := fmt.Sprintf("x%d", i+1)
		w.akeys = append(w.akeys, k)
		w.addr[k] = a
	}
	for i, d := range dids {
		g := fmt.Sprintf("g%d", i+1)
		w.did[g] = distribution.MustParse(didPool[d])
		for _, a := range w.akeys {
			w.gkeys = append(w.gkeys, a+"/"+g)
		}
	}
	w.pids = pids
	w.lab[""] = ""
	var st []M
	regs := []uint32{1, 0x3FFF, 0, 0xFFFFFFFF, 0x80000001}
	for i := 0; i < ns; i++ {
		l := fmt.Sprintf("i%d", i+1)
		kp := w.pair(l)
		id := identity.KeyPair{}
		pub, err := identity.NewKey(kp.PublicKey().Bytes())
		if err != nil {
			fatal(err)
		}
		id = identity.NewKeyPair(kp.PrivateKey(), pub)
		reg := regs[int(seed+int64(i))%len(regs)]
		w.kps = append(w.kps, id)
		if flavor == "parts" {
			w.stores = append(w.stores, &parts{session.NewInMemStore(), identity.NewInMemStore(id, reg), prekey.NewInMemStore(), prekey.NewInMemSignedStore(), session.NewInMemGroupStore()})
		} else {
			w.stores = append(w.stores, protocol.NewInMemStore(id, reg))
		}
		st = append(st, M{"kp": l, "reg": fmt.Sprint(reg)})
	}
	w.log = append(w.log, M{"e": "init", "stores": st, "flavor": flavor, "seed": fmt.Sprint(seed)})
	w.note()
	return w
}

// pair gives the key pair with a label, making it if needed.
func (w *stworld) pair(l string) *curve.KeyPair {
	kp := w.kp[l]
	if kp == nil {
		var err error
		kp, err = curve.GenerateKeyPair(newDet(w.seed, "pair "+l))
		if err != nil {
			fatal(err)
		}
		w.kp[l] = kp
		w.lab[string(kp.PublicKey().Bytes())] = l
		w.lab[string(kp.PrivateKey().Bytes())] = l + "'"
	}
	return kp
}

// bytes32 gives the 32 bytes with a label.
func (w *stworld) bytes32(l string) []byte {
	b := w.raw[l]
	if b == nil {
		h := sha256.Sum256([]byte(fmt.Sprintf("%d %s", w.seed, l)))
		b = h[:]
		w.raw[l] = b
		w.lab[string(b)] = l
	}
	return append([]byte(nil), b...)
}

func (w *stworld) label(b []byte) string {
	if l, ok := w.lab[string(b)]; ok {
		return l
	}
	return fmt.Sprintf("?%x", b)
}

func u32(s string) uint32 {
	n, err := strconv.ParseUint(s, 10, 32)
	if err != nil {
		fatal(err)
	}
	return uint32(n)
}

func (w *stworld) msgKeys(k, counter string) ratchet.MessageKeys {
	mk, err := ratchet.DeriveMessageKeys(w.bytes32("mk "+k+" "+counter), u32(counter))
	if err != nil {
		fatal(err)
	}
	return mk
}

func (w *stworld) newState(base, lid, rid string) *session.State {
	return session.NewState(&v1.SessionStructure{
		SessionVersion: 3, AliceBaseKey: w.baseKey(base),
		LocalIdentityPublic: w.pair(lid).PublicKey().Bytes(), RemoteIdentityPublic: w.pair(rid).PublicKey().Bytes(),
	})
}

func (w *stworld) baseKey(l string) []byte {
	if l == "" {
		return nil
	}
	return w.pair(l).PublicKey().Bytes()
}

func (w *stworld) chain(c any) ratchet.ChainKey {
	x := c.([]any)
	ck, err := ratchet.NewChainKey(w.bytes32(str(x[0])), u32(str(x[1])))
	if err != nil {
		fatal(err)
	}
	return ck
}

func (w *stworld) seeChain(ck ratchet.ChainKey) []string {
	return []string{w.label(ck.Key()), fmt.Sprint(ck.Index())}
}

func briefly(ks []string) []string {
	if len(ks) <= 20 {
		return ks
	}
	return []string{"#", fmt.Sprint(len(ks)), ks[0], ks[len(ks)-1]}
}

// see gives all that is in a session state.
func (w *stworld) see(s *session.State) M {
	var pb v1.SessionStructure
	if err := proto.Unmarshal(s.Bytes(), &pb); err != nil {
		return M{"bad": err.Error()}
	}
	m := M{"base": w.label(s.AliceBaseKey()), "ver": fmt.Sprint(s.Version()), "prev": fmt.Sprint(s.PreviousCounter()),
		"lreg": fmt.Sprint(s.LocalRegistrationID()), "rreg": fmt.Sprint(pb.GetRemoteRegistrationId()), "root": "", "snd": []any{}, "pend": []any{}}
	if id, err := s.LocalIdentityKey(); err != nil {
		m["lid"] = "error"
	} else {
		m["lid"] = w.label(id.Bytes())
	}
	if id, ok, err := s.RemoteIdentityKey(); err != nil || !ok {
		m["rid"] = "error"
	} else {
		m["rid"] = w.label(id.Bytes())
	}
	if rk, err := s.RootKey(); err == nil {
		m["root"] = w.label(rk.Bytes())
	}
	if k, err := s.SenderRatchetKey(); err == nil {
		l := w.label(k.Bytes())
		priv, err := s.SenderRatchetPrivateKey()
		if err != nil || w.label(priv.Bytes()) != l+"'" {
			l = "mismatch"
		}
		x := M{"k": l, "ck": []string{"error"}}
		if ck, err := s.SenderChainKey(); err == nil {
			x["ck"] = w.seeChain(ck)
		}
		m["snd"] = []any{x}
	}
	rcv := []any{}
	for i, c := range pb.GetReceiverChains() {
		x := M{"k": w.label(c.GetSenderRatchetKey()), "ck": []string{"error"}}
		if k, err := curve.NewPublicKey(c.GetSenderRatchetKey()); err == nil {
			if ck, ok, err := s.ReceiverChainKey(k); err == nil && ok {
				x["ck"] = w.seeChain(ck)
			}
			if j, _ := s.ReceiverChain(k); j != i {
				x["k"] = "mislaid"
			}
		}
		ks := []string{}
		for _, mk := range c.GetMessageKeys() {
			ks = append(ks, fmt.Sprint(mk.GetIndex()))
		}
		x["mks"] = briefly(ks)
		rcv = append(rcv, x)
	}
	m["rcv"] = rcv
	if p, err := s.UnacknowledgedPreKeyMessages(); err != nil {
		m["pend"] = []any{"error"}
	} else if p != nil {
		opk := []any{}
		if p.PreKeyID() != nil {
			opk = append(opk, fmt.Sprint(uint32(*p.PreKeyID())))
		}
		m["pend"] = []any{M{"opk": opk, "spk": fmt.Sprint(uint32(p.SignedPreKeyID())), "base": w.label(p.BaseKey().Bytes())}}
	}
	return m
}

func (w *stworld) seeRec(r *session.Record) M {
	cur, old := []any{}, []any{}
	if s := r.State(); s != nil {
		cur = append(cur, w.see(s))
	}
	prev, err := r.PreviousStates()
	if err != nil {
		return M{"cur": cur, "old": []any{"error"}, "acc": []any{}}
	}
	for _, s := range prev {
		old = append(old, w.see(s))
	}
	return M{"cur": cur, "old": old, "acc": w.ask(r)}
}

// ask gives what the record itself tells about its current state: nothing if
// there is none, which every accessor reports.
func (w *stworld) ask(r *session.Record) []any {
	failed := 0
	a := M{"ver": "error", "lid": "error", "rid": "error", "sck": []any{}, "rck": []any{}}
	got := func(err error) bool {
		if err == nil {
			return true
		}
		if errors.Is(err, perrors.ErrNoCurrentSession) {
			failed++
		}
		return false
	}
	if v, err := r.Version(); got(err) {
		a["ver"] = fmt.Sprint(v)
	}
	if id, err := r.LocalIdentityKey(); got(err) {
		a["lid"] = w.label(id.Bytes())
	}
	if id, ok, err := r.RemoteIdentityKey(); got(err) && ok {
		a["rid"] = w.label(id.Bytes())
	}
	if ck, err := r.SenderChainKey(); got(err) {
		a["sck"] = []any{w.seeChain(ck)}
	}
	unknown := w.pair("nobody").PublicKey()
	if _, ok, err := r.ReceiverChainKey(unknown); got(err) && ok {
		a["rck"] = "of nobody"
		return []any{a}
	}
	if failed == 5 && r.State() == nil {
		return []any{}
	}
	rck := []any{}
	if s := r.State(); s != nil {
		var pb v1.SessionStructure
		if err := proto.Unmarshal(s.Bytes(), &pb); err == nil {
			for _, c := range pb.GetReceiverChains() {
				x := []string{"error"}
				if k, err := curve.NewPublicKey(c.GetSenderRatchetKey()); err == nil {
					if ck, ok, err := r.ReceiverChainKey(k); err == nil && ok {
						x = w.seeChain(ck)
					}
				}
				rck = append(rck, x)
			}
		}
	}
	a["rck"] = rck
	return []any{a}
}

// keptKeys are the iterations of the keys which a state keeps, found by
// taking them from a copy.
func (w *stworld) keptKeys(s *session.GroupState, cid string) []string {
	out := []string{}
	for _, i := range w.its[cid] {
		if _, ok, err := s.RemoveMessageKeys(u32(i)); ok && err == nil {
			out = append(out, i)
		}
	}
	return out
}

func (w *stworld) copyGroup(g *session.GroupRecord) *session.GroupRecord {
	st := session.NewInMemGroupStore()
	if st.Store(context.Background(), w.addr["x1"], w.did["g1"], g) != nil {
		return nil
	}
	c, _, _ := st.Load(context.Background(), w.addr["x1"], w.did["g1"])
	return c
}

func (w *stworld) seeGroup(g *session.GroupRecord) []any {
	out := []any{}
	g = w.copyGroup(g)
	if g == nil {
		return out
	}
	for _, cid := range w.cids {
		s := g.StateForChainID(u32(cid))
		if s == nil {
			continue
		}
		ks := w.keptKeys(s, cid)
		if len(ks) > 20 {
			ks = []string{"#", fmt.Sprint(len(ks))}
		}
		m := M{"cid": fmt.Sprint(s.ChainID()), "seed": w.label(s.SenderChainKey().Seed()), "it": fmt.Sprint(s.SenderChainKey().Iteration()), "sk": "error", "priv": false, "mks": ks, "cur": false}
		if cur, err := g.State(); err == nil && cur != nil {
			m["cur"] = cur.ChainID() == s.ChainID() && bytes.Equal(cur.SenderChainKey().Seed(), s.SenderChainKey().Seed())
		}
		if k, err := s.PublicSigningKey(); err == nil {
			m["sk"] = w.label(k.Bytes())
		}
		if k, err := s.PrivateSigningKey(); err == nil {
			m["priv"] = w.label(k.Bytes()) == str(m["sk"])+"'"
		}
		if s.Version() != 3 {
			m["version"] = s.Version()
		}
		out = append(out, m)
	}
	return out
}

func hashOf(x any) string {
	h := sha256.New()
	deep(reflect.ValueOf(x), func(b []byte) { fmt.Fprintf(h, "%d:", len(b)); h.Write(b) }, 0)
	return string(h.Sum(nil))
}

func recDigest(r *session.Record) string {
	h := sha256.New()
	if s := r.State(); s != nil {
		fmt.Fprintf(h, "cur %x", s.Bytes())
	}
	prev, err := r.PreviousStates()
	fmt.Fprint(h, err, len(prev))
	for _, s := range prev {
		fmt.Fprintf(h, "old %x", s.Bytes())
	}
	return string(h.Sum(nil))
}

func (w *stworld) gkey(k string) (address.Address, distribution.ID) {
	i := bytes.IndexByte([]byte(k), '/')
	return w.addr[k[:i]], w.did[k[i+1:]]
}

// digests of all records in hand and all entries of the stores
func (w *stworld) look() map[string]string {
	ctx := context.Background()
	out := map[string]string{}
	for n, r := range w.H {
		out["H "+n] = recDigest(r)
	}
	for n, g := range w.G {
		out["G "+n] = hashOf(g)
	}
	for i, s := range w.stores {
		at := func(m, k string) string { return fmt.Sprintf("S %d %s %s", i+1, m, k) }
		for _, k := range w.akeys {
			if r, ok, err := s.SessionStore().Load(ctx, w.addr[k]); err == nil && ok {
				out[at("sess", k)] = recDigest(r)
			}
			if id, ok, err := s.IdentityStore().Load(ctx, w.addr[k]); err == nil && ok {
				out[at("ids", k)] = w.label(id.Bytes())
			}
		}
		for _, k := range w.gkeys {
			a, d := w.gkey(k)
			if g, ok, err := s.GroupStore().Load(ctx, a, d); err == nil && ok {
				out[at("grp", k)] = hashOf(g)
			}
		}
		for _, k := range w.pids {
			id := prekey.ID(u32(k))
			if p, ok, err := s.PreKeyStore().Load(ctx, id); err == nil && ok {
				out[at("pre", k)] = w.seePre(p)
			}
			if p, ok, err := s.SignedPreKeyStore().Load(ctx, id); err == nil && ok {
				out[at("sgn", k)] = w.seeSigned(p)
			}
		}
	}
	return out
}

func (w *stworld) seePre(p *prekey.PreKey) string {
	if p == nil {
		return "nil"
	}
	kp, err := p.KeyPair()
	if err != nil {
		return "error"
	}
	return w.label(kp.PublicKey().Bytes())
}

func (w *stworld) seeSigned(p *prekey.SignedPreKey) string {
	if p == nil {
		return "nil"
	}
	kp, err := p.KeyPair()
	if err != nil {
		return "error"
	}
	return w.label(kp.PublicKey().Bytes())
}

// note gives what looks different since the last time.
func (w *stworld) note() (hs []string, es [][]any) {
	hs, es = []string{}, [][]any{}
	now := w.look()
	var ks []string
	for k, v := range now {
		if w.seen[k] != v {
			ks = append(ks, k)
		}
	}
	for k := range w.seen {
		if _, ok := now[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		var s int
		var m, key string
		if k[0] == 'S' {
			fmt.Sscanf(k, "S %d %s %s", &s, &m, &key)
			es = append(es, []any{s, m, key})
		} else {
			hs = append(hs, k[2:])
		}
	}
	w.seen = now
	return hs, es
}

func one(x any) []any { return []any{x} }

// do runs a command and logs it.
func (w *stworld) do(c M) {
	if w.failed {
		return
	}
	c = copyCmd(c)
	c["val"] = []any{}
	func() {
		defer func() {
			if p := recover(); p != nil {
				c["res"], c["val"] = "panic", []any{}
				w.failed = true
			}
		}()
		v, err := w.call(c)
		c["res"] = "ok"
		if err != nil {
			c["res"], v = "err", nil
		}
		if v != nil {
			c["val"] = v
		}
		h := str2(c["h"])
		switch c["e"] {
		case "new", "copy", "chg", "arch", "promo", "set", "old":
			if r := w.H[h]; r != nil && err == nil {
				c["rec"] = w.seeRec(r)
			}
		case "gnew", "gchg":
			if g := w.G[h]; g != nil && err == nil {
				c["rec"] = w.seeGroup(g)
			}
		}
		hs, es := w.note()
		c["hs"], c["es"] = hs, es
	}()
	if c["hs"] == nil {
		c["hs"], c["es"] = []string{}, []any{}
	}
	w.cover[str(c["e"])]++
	w.log = append(w.log, c)
}

func str2(x any) string {
	s, _ := x.(string)
	return s
}

func (w *stworld) addCid(cid string) {
	for _, c := range w.cids {
		if c == cid {
			return
		}
	}
	w.cids = append(w.cids, cid)
}

func (w *stworld) addIt(cid, it string) {
	for _, i := range w.its[cid] {
		if i == it {
			return
		}
	}
	w.its[cid] = append(w.its[cid], it)
}

func (w *stworld) call(c M) ([]any, error) {
	ctx := context.Background()
	var st protocol.Store
	if c["s"] != nil {
		st = w.stores[toInt(c["s"])-1]
	}
	k, h, x := str2(c["k"]), str2(c["h"]), str2(c["x"])
	first := func(v any) (string, bool) {
		l := strList(v)
		if len(l) == 0 {
			return "", false
		}
		return l[0], true
	}
	switch c["e"] {
	case "sload":
		r, ok, err := st.SessionStore().Load(ctx, w.addr[k])
		if err != nil || !ok {
			return nil, err
		}
		w.H[h] = r
		return one(w.seeRec(r)), nil
	case "sstore":
		return nil, st.SessionStore().Store(ctx, w.addr[k], w.H[h])
	case "gload":
		a, d := w.gkey(k)
		g, ok, err := st.GroupStore().Load(ctx, a, d)
		if err != nil || !ok {
			return nil, err
		}
		w.G[h] = g
		return one(w.seeGroup(g)), nil
	case "gstore":
		a, d := w.gkey(k)
		return nil, st.GroupStore().Store(ctx, a, d, w.G[h])
	case "pload":
		p, ok, err := st.PreKeyStore().Load(ctx, prekey.ID(u32(k)))
		if err != nil || !ok {
			return nil, err
		}
		return one(w.seePre(p)), nil
	case "pstore":
		return nil, st.PreKeyStore().Store(ctx, prekey.ID(u32(k)), prekey.NewPreKey(prekey.ID(u32(k)), w.pair(x)))
	case "pdel":
		return nil, st.PreKeyStore().Delete(ctx, prekey.ID(u32(k)))
	case "nload":
		p, ok, err := st.SignedPreKeyStore().Load(ctx, prekey.ID(u32(k)))
		if err != nil || !ok {
			return nil, err
		}
		return one(w.seeSigned(p)), nil
	case "nstore":
		return nil, st.SignedPreKeyStore().Store(ctx, prekey.ID(u32(k)), prekey.NewSigned(prekey.ID(u32(k)), 1234567, w.pair(x), w.bytes32("sig "+x)))
	case "iload":
		id, ok, err := st.IdentityStore().Load(ctx, w.addr[k])
		if err != nil || !ok {
			return nil, err
		}
		return one(w.label(id.Bytes())), nil
	case "istore":
		id, err := identity.NewKey(w.pair(x).PublicKey().Bytes())
		if err != nil {
			fatal(err)
		}
		r, err := st.IdentityStore().Store(ctx, w.addr[k], id)
		return one(r), err
	case "itrust":
		id, err := identity.NewKey(w.pair(x).PublicKey().Bytes())
		if err != nil {
			fatal(err)
		}
		dir := direction.Direction(direction.Sending)
		if c["dir"] == "in" {
			dir = direction.Receiving
		}
		r, err := st.IdentityStore().IsTrustedIdentity(ctx, w.addr[k], id, dir)
		return one(r), err
	case "iclear":
		return nil, st.IdentityStore().Clear()
	case "kp":
		kp := st.IdentityStore().KeyPair(ctx)
		l := w.label(kp.PublicKey().Bytes())
		if w.label(kp.PrivateKey().Bytes()) != l+"'" {
			l = "mismatch"
		}
		return one(l), nil
	case "reg":
		return one(fmt.Sprint(st.IdentityStore().LocalRegistrationID(ctx))), nil
	case "new":
		var s *session.State
		if v, ok := first(c["x"]); ok {
			s = w.newState(v, str(c["lid"]), str(c["rid"]))
		}
		w.H[h] = session.NewRecord(s)
		return nil, nil
	case "copy":
		s := w.H[str(c["from"])].State()
		if s == nil {
			return nil, fmt.Errorf("no state")
		}
		r, err := session.NewRecordBytes(s.Bytes())
		if err != nil {
			return nil, err
		}
		w.H[h] = r
		return nil, nil
	case "chg":
		s := w.H[h].State()
		if s == nil {
			return nil, fmt.Errorf("no state")
		}
		return w.change(s, c)
	case "arch":
		w.H[h].ArchiveCurrentState()
		return nil, nil
	case "promo":
		w.H[h].PromoteState(w.newState(x, str(c["lid"]), str(c["rid"])))
		return nil, nil
	case "set":
		var s *session.State
		if v, ok := first(c["x"]); ok {
			s = w.newState(v, str(c["lid"]), str(c["rid"]))
		}
		w.H[h].SetSessionState(s)
		return nil, nil
	case "old":
		prev, err := w.H[h].PreviousStates()
		if err != nil {
			return nil, err
		}
		i := toInt(c["i"]) - 1
		s := w.newState("b0", "k1", "k2")
		if i >= 0 && i < len(prev) {
			s = prev[i]
		}
		w.H[h].PromoteOldState(i, s)
		return nil, nil
	case "has":
		r, err := w.H[h].HasSessionState(u32(str(c["ver"])), w.baseKey(x))
		return one(r), err
	case "look":
		return one(w.seeRec(w.H[h])), nil
	case "gnew":
		w.G[h] = session.NewGroupRecord()
		return nil, nil
	case "gchg":
		return w.gchange(w.G[h], c)
	case "glook":
		return one(w.seeGroup(w.G[h])), nil
	}
	fatal("unknown command", c)
	return nil, nil
}

func (w *stworld) change(s *session.State, c M) ([]any, error) {
	k, x := str2(c["k"]), str2(c["x"])
	pub := func() curve.PublicKey { return w.pair(k).PublicKey() }
	switch c["op"] {
	case "base":
		s.SetAliceBaseKey(w.baseKey(x))
	case "prev":
		s.SetPreviousCounter(u32(x))
	case "root":
		rk, err := ratchet.NewRootKey(w.bytes32(x))
		if err != nil {
			fatal(err)
		}
		s.SetRootKey(rk)
	case "lreg":
		s.SetLocalRegistrationID(u32(x))
	case "rreg":
		s.SetRemoteRegistrationID(u32(x))
	case "snd":
		s.SetSenderChain(w.pair(k), w.chain(c["ck"]))
	case "sck":
		s.SetSenderChainKey(w.chain(c["ck"]))
	case "pend":
		var opk *prekey.ID
		if l := strList(c["opk"]); len(l) > 0 {
			id := prekey.ID(u32(l[0]))
			opk = &id
		}
		s.SetUnacknowledgedPreKeyMessage(opk, prekey.ID(u32(str(c["spk"]))), w.pair(x).PublicKey())
	case "ack":
		s.ClearUnacknowledgedPreKeyMessage()
	case "rcv":
		s.AddReceiverChain(pub(), w.chain(c["ck"]))
	case "rck":
		return nil, s.SetReceiverChainKey(pub(), w.chain(c["ck"]))
	case "smk":
		for _, i := range strList(c["xs"]) {
			if err := s.SetMessageKeys(pub(), w.msgKeys(k, i)); err != nil {
				return nil, err
			}
		}
	case "mk":
		mk, ok, err := s.MessageKeys(pub(), u32(x))
		if err != nil || !ok {
			return nil, err
		}
		want := w.msgKeys(k, x)
		if mk.Counter() != want.Counter() || !bytes.Equal(mk.CipherKey(), want.CipherKey()) || !bytes.Equal(mk.MACKey(), want.MACKey()) || !bytes.Equal(mk.IV(), want.IV()) {
			return one("other keys"), nil
		}
		return one(fmt.Sprint(mk.Counter())), nil
	case "qck":
		ck, ok, err := s.ReceiverChainKey(pub())
		if err != nil || !ok {
			return nil, err
		}
		return one(w.seeChain(ck)), nil
	default:
		fatal("unknown change", c)
	}
	return nil, nil
}

func (w *stworld) gchange(g *session.GroupRecord, c M) ([]any, error) {
	cid := str(c["cid"])
	w.addCid(cid)
	x := str2(c["x"])
	s := g.StateForChainID(u32(cid))
	switch c["op"] {
	case "add":
		kp := w.pair(str(c["sk"]))
		cfg := session.GroupStateConfig{MessageVersion: 3, ChainID: u32(cid), Iteration: u32(str(c["it"])), ChainKey: w.bytes32(str(c["seed"])), SignatureKey: kp.PublicKey()}
		if c["priv"] == true {
			cfg.SignaturePrivateKey = kp.PrivateKey()
		}
		return nil, g.AddState(session.NewGroupState(cfg))
	case "ck":
		if s != nil {
			s.SetSenderChainKey(senderkey.NewChainKey(w.bytes32(str(c["seed"])), u32(str(c["it"]))))
		}
	case "smk":
		if s != nil {
			for _, i := range strList(c["xs"]) {
				mk, err := senderkey.DeriveMessageKey(w.bytes32("gk "+cid+" "+i), u32(i))
				if err != nil {
					fatal(err)
				}
				s.AddMessageKey(mk)
				w.addIt(cid, i)
			}
		}
	case "mk":
		if s == nil {
			return nil, nil
		}
		mk, ok, err := s.RemoveMessageKeys(u32(x))
		if err != nil || !ok {
			return nil, err
		}
		want, err := senderkey.DeriveMessageKey(w.bytes32("gk "+cid+" "+x), u32(x))
		if err != nil {
			fatal(err)
		}
		if mk.Iteration() != want.Iteration() || !bytes.Equal(mk.CipherKey(), want.CipherKey()) || !bytes.Equal(mk.IV(), want.IV()) {
			return one("other keys"), nil
		}
		return one(fmt.Sprint(mk.Iteration())), nil
	case "rm":
		s, ok := g.RemoveState(u32(cid), w.pair(str(c["sk"])).PublicKey())
		if !ok {
			return nil, nil
		}
		k, err := s.PublicSigningKey()
		if err != nil {
			return nil, err
		}
		return one(w.label(k.Bytes())), nil
	case "rmall":
		return one(fmt.Sprint(g.RemoveStates(u32(cid)))), nil
	default:
		fatal("unknown change", c)
	}
	return nil, nil
}

var (
	stIDs = [][]string{{"1", "2", "11"}, {"0", "1", "4294967295"}, {"255", "256", "65536"}, {"1", "65537", "2147483649"}, {"7", "8", "2147483648"}}
)

func addrsOf(ms []member) []address.Address {
	var out []address.Address
	for _, m := range ms {
		out = append(out, m.addr)
	}
	return out
}

func storesGenCmd(focus, in string, seed int64, max int, out string, shards int) {
	ts := transitions(in)
	ss := suites(ts)
	r := rand.New(rand.NewSource(seed))
	total := len(ss)
	r.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
	if max > 0 && len(ss) > max {
		ss = ss[:max]
	}
	logs := make([][]M, len(ss))
	covers := make([]map[string]int, len(ss))
	parallel(len(ss), runtime.NumCPU(), func(i int) {
		s := seed*7919 + int64(i)
		mr := rand.New(rand.NewSource(s))
		ms := addrsOf(alike(mr))
		ids := pick(mr, stIDs)
		w := newStWorld(s, 2, []string{"mem", "parts"}[i%2], ms[1:3], []string{"g1", "g2"}, ids)
		w.log[0]["focus"], w.log[0]["name"] = focus, fmt.Sprintf("generated %d", i)
		settled(func() *stworld {
			for _, c := range ss[i] {
				d := copyCmd(c)
				e := str(d["e"])
				switch e {
				case "gload", "gstore":
					// keys which differ in one part only
					d["k"] = map[string]string{"x1": "x1/g1", "x2": []string{"x2/g1", "x1/g2"}[i%2]}[str(d["k"])]
				case "pload", "pstore", "pdel", "nload", "nstore":
					d["k"] = map[string]string{"x1": ids[0], "x2": ids[1+i%2]}[str(d["k"])]
				case "gchg":
					d["cid"] = map[string]string{"1": "1", "2": "2147483649", "v1": "0", "v2": "1", "v3": "4294967295"}[str(d["cid"])]
				}
				w.do(d)
			}
			return w
		})
		logs[i], covers[i] = w.log, w.cover
	})
	res := write(logs, covers, out, shards)
	res.Cover["transitions"] = len(ts)
	res.Cover["sequences"] = len(ss)
	res.Cover["sequences/all"] = total
	print(res)
}

func storesCmd(focus string, seed int64, count int, out string, shards int, deep bool) {
	full := stFull(focus, seed)
	n := len(full) + count
	logs := make([][]M, n)
	covers := make([]map[string]int, n)
	parallel(n, runtime.NumCPU(), func(i int) {
		var w *stworld
		if i < len(full) {
			w = settled(full[i].run)
			if w == nil {
				return
			}
			w.log[0]["name"] = full[i].name
		} else {
			w = settled(func() *stworld { return stRandom(focus, seed*1000003+int64(i)) })
			if w == nil {
				return
			}
			w.log[0]["name"] = fmt.Sprintf("%s random %d", focus, i-len(full))
		}
		w.log[0]["focus"] = focus
		logs[i], covers[i] = w.log, w.cover
	})
	print(write(logs, covers, out, shards))
}

type stCase struct {
	name string
	run  func() *stworld
}

func ck(l string, i int) []any { return []any{l, fmt.Sprint(i)} }

// stFull are histories which fill the windows.
func stFull(focus string, seed int64) (out []stCase) {
	one := func() *stworld {
		return newStWorld(seed, 1, "mem", []address.Address{{Name: "bob", DeviceID: 1}}, []string{"g1"}, []string{"1"})
	}
	add := func(name string, f func(w *stworld)) {
		out = append(out, stCase{name, func() *stworld { w := one(); f(w); return w }})
	}
	for _, reload := range []bool{false, true} {
		reload := reload
		again := func(w *stworld, g bool) {
			if !reload {
				return
			}
			if g {
				w.do(M{"e": "gstore", "s": 1, "k": "x1/g1", "h": "h1"})
				w.do(M{"e": "gload", "s": 1, "k": "x1/g1", "h": "h1"})
			} else {
				w.do(M{"e": "sstore", "s": 1, "k": "x1", "h": "h1"})
				w.do(M{"e": "sload", "s": 1, "k": "x1", "h": "h1"})
			}
		}
		t := map[bool]string{false: "", true: " stored"}[reload]
		add("archive full"+t, func(w *stworld) {
			w.do(M{"e": "new", "h": "h1", "x": []any{}, "lid": "k1", "rid": "k2"})
			for i := 0; i < 44; i++ {
				w.do(M{"e": "promo", "h": "h1", "x": fmt.Sprintf("b%d", i), "lid": "k1", "rid": "k2"})
				if i%11 == 3 {
					again(w, false)
				}
			}
			for _, b := range []int{0, 1, 2, 3, 4, 42, 43, 44} {
				w.do(M{"e": "has", "h": "h1", "ver": "3", "x": fmt.Sprintf("b%d", b)})
			}
			again(w, false)
			for _, i := range []int{40, 1, 20, 41, 0, 38, 40} {
				w.do(M{"e": "old", "h": "h1", "i": i})
			}
			w.do(M{"e": "arch", "h": "h1"})
			w.do(M{"e": "arch", "h": "h1"})
			again(w, false)
			w.do(M{"e": "promo", "h": "h1", "x": "b50", "lid": "k1", "rid": "k2"})
			w.do(M{"e": "promo", "h": "h1", "x": "b51", "lid": "k1", "rid": "k2"})
			w.do(M{"e": "copy", "h": "h2", "from": "h1"})
		})
		add("chains full"+t, func(w *stworld) {
			w.do(M{"e": "new", "h": "h1", "x": []any{"b1"}, "lid": "k1", "rid": "k2"})
			for i := 0; i < 8; i++ {
				k := fmt.Sprintf("r%d", i)
				w.do(M{"e": "chg", "h": "h1", "op": "rcv", "k": k, "ck": ck("c"+k, i)})
				w.do(M{"e": "chg", "h": "h1", "op": "smk", "k": k, "xs": []any{"0", "4294967295", "7"}})
				again(w, false)
				for j := 0; j <= i; j++ {
					w.do(M{"e": "chg", "h": "h1", "op": "qck", "k": fmt.Sprintf("r%d", j)})
				}
			}
			for j := 0; j < 8; j++ {
				k := fmt.Sprintf("r%d", j)
				w.do(M{"e": "chg", "h": "h1", "op": "mk", "k": k, "x": "4294967295"})
				w.do(M{"e": "chg", "h": "h1", "op": "rck", "k": k, "ck": ck("d"+k, j+1)})
			}
		})
		for _, total := range []int{1999, 2000, 2001, 2003} {
			total := total
			var xs []any
			for i := 0; i < total; i++ {
				xs = append(xs, fmt.Sprint(i))
			}
			add(fmt.Sprintf("keys full %d%s", total, t), func(w *stworld) {
				w.do(M{"e": "new", "h": "h1", "x": []any{"b1"}, "lid": "k1", "rid": "k2"})
				w.do(M{"e": "chg", "h": "h1", "op": "rcv", "k": "r1", "ck": ck("c1", total)})
				w.do(M{"e": "chg", "h": "h1", "op": "rcv", "k": "r2", "ck": ck("c1", total)})
				w.do(M{"e": "chg", "h": "h1", "op": "smk", "k": "r2", "xs": []any{"3", "5"}})
				w.do(M{"e": "chg", "h": "h1", "op": "smk", "k": "r1", "xs": xs})
				again(w, false)
				for _, i := range []int{0, 1, 2, 3, 1000, total - 1, 1000, total - 2} {
					w.do(M{"e": "chg", "h": "h1", "op": "mk", "k": "r1", "x": fmt.Sprint(i)})
				}
				w.do(M{"e": "chg", "h": "h1", "op": "smk", "k": "r1", "xs": []any{"5000", "5001", "5002", "5003", "5004", "5005", "5006"}})
				for _, i := range []int{4, 5, 6, 7, 5000, 5006} {
					w.do(M{"e": "chg", "h": "h1", "op": "mk", "k": "r1", "x": fmt.Sprint(i)})
				}
				w.do(M{"e": "chg", "h": "h1", "op": "mk", "k": "r2", "x": "3"})
			})
			add(fmt.Sprintf("group keys full %d%s", total, t), func(w *stworld) {
				w.do(M{"e": "gnew", "h": "h1"})
				w.do(M{"e": "gchg", "h": "h1", "op": "add", "cid": "7", "sk": "k1", "priv": false, "seed": "s1", "it": "0"})
				w.do(M{"e": "gchg", "h": "h1", "op": "add", "cid": "8", "sk": "k2", "priv": false, "seed": "s2", "it": "0"})
				w.do(M{"e": "gchg", "h": "h1", "op": "smk", "cid": "7", "xs": xs})
				w.do(M{"e": "gchg", "h": "h1", "op": "smk", "cid": "8", "xs": []any{"3"}})
				again(w, true)
				for _, i := range []int{0, 1, 2, 3, 1000, total - 1, 1000, total - 2} {
					w.do(M{"e": "gchg", "h": "h1", "op": "mk", "cid": "7", "x": fmt.Sprint(i)})
				}
				w.do(M{"e": "gchg", "h": "h1", "op": "smk", "cid": "7", "xs": []any{"5000", "5001", "5002", "5003", "5004", "5005", "5006"}})
				for _, i := range []int{4, 5, 6, 7, 5000, 5006} {
					w.do(M{"e": "gchg", "h": "h1", "op": "mk", "cid": "7", "x": fmt.Sprint(i)})
				}
				w.do(M{"e": "gchg", "h": "h1", "op": "mk", "cid": "8", "x": "3"})
			})
		}
		add("sender keys full"+t, func(w *stworld) {
			w.do(M{"e": "gnew", "h": "h1"})
			for i := 0; i < 9; i++ {
				w.do(M{"e": "gchg", "h": "h1", "op": "add", "cid": fmt.Sprint(i), "sk": fmt.Sprintf("k%d", i%4), "priv": i%2 == 0, "seed": fmt.Sprintf("s%d", i), "it": fmt.Sprint(i)})
				if i >= 4 {
					// an older one comes again and is now the newest
					w.do(M{"e": "gchg", "h": "h1", "op": "add", "cid": fmt.Sprint(i - 3), "sk": fmt.Sprintf("k%d", (i-3)%4), "priv": false, "seed": "s9", "it": "99"})
				}
				again(w, true)
			}
			// the same chain with another key
			w.do(M{"e": "gchg", "h": "h1", "op": "add", "cid": "8", "sk": "k9", "priv": false, "seed": "s9", "it": "99"})
			for i := 0; i < 9; i++ {
				w.do(M{"e": "gchg", "h": "h1", "op": "rm", "cid": fmt.Sprint(i), "sk": "k3"})
				w.do(M{"e": "gchg", "h": "h1", "op": "rmall", "cid": fmt.Sprint(i)})
			}
			again(w, true)
		})
	}
	return out
}

// stRandom is a random history.
func stRandom(focus string, seed int64) *stworld {
	r := rand.New(rand.NewSource(seed))
	ids := pick(r, stIDs)
	dids := []string{"g1", "g2", "g3", "g4", "g5"}
	r.Shuffle(len(dids), func(i, j int) { dids[i], dids[j] = dids[j], dids[i] })
	w := newStWorld(seed&0x7FFFFFFF, 1+r.Intn(2), []string{"mem", "parts"}[r.Intn(2)], addrsOf(alike(r)), dids[:2], ids)
	hs := []string{"h1", "h2", "h3"}
	gs := []string{"g1", "g2", "g3"}
	toks := []string{"v1", "v2", "v3"}
	cids := []string{"0", "1", "256", "2147483649", "4294967295", "77"}
	nums := []string{"0", "1", "2", "255", "256", "2147483648", "4294967295"}
	given := map[string]bool{}
	chains := map[string]int{}
	st := func() int { return r.Intn(len(w.stores)) + 1 }
	lenC := 40 + r.Intn(100)
	states := focus == "C27"
	maps := 7
	if states {
		maps = 2
		lenC += r.Intn(200)
		n := 1 + r.Intn(3)
		hs, gs = hs[:n], gs[:n]
	}
	// at gives a store and a key, often one where there is something
	at := func(m string, keys []string) (int, string) {
		if r.Intn(4) > 0 {
			var have [][]any
			for i := range w.stores {
				for _, k := range keys {
					if _, ok := w.seen[fmt.Sprintf("S %d %s %s", i+1, m, k)]; ok {
						have = append(have, []any{i + 1, k})
					}
				}
			}
			if len(have) > 0 {
				x := pick(r, have)
				return x[0].(int), x[1].(string)
			}
		}
		return st(), pick(r, keys)
	}
	fresh := func() string { return fmt.Sprintf("b%d", r.Intn(6)) }
	for n := 0; n < lenC && !w.failed; n++ {
		h, g := pick(r, hs), pick(r, gs)
		switch x := r.Intn(12); {
		case x < maps && r.Intn(2) == 0: // pre-keys and identities
			id := pick(r, ids)
			switch r.Intn(12) {
			case 0:
				w.do(M{"e": "pstore", "s": st(), "k": id, "x": pick(r, toks)})
			case 1:
				s, id := at("pre", ids)
				w.do(M{"e": "pload", "s": s, "k": id})
			case 2:
				s, id := at("pre", ids)
				w.do(M{"e": "pdel", "s": s, "k": id})
			case 3:
				w.do(M{"e": "nstore", "s": st(), "k": id, "x": pick(r, toks)})
			case 4:
				s, id := at("sgn", ids)
				w.do(M{"e": "nload", "s": s, "k": id})
			case 5, 6:
				s, k := at("ids", w.akeys)
				w.do(M{"e": "istore", "s": s, "k": k, "x": pick(r, toks)})
			case 7:
				s, k := at("ids", w.akeys)
				w.do(M{"e": "iload", "s": s, "k": k})
			case 8, 9:
				s, k := at("ids", w.akeys)
				w.do(M{"e": "itrust", "s": s, "k": k, "x": pick(r, toks), "dir": pick(r, []string{"in", "out"})})
			case 10:
				if r.Intn(4) == 0 {
					w.do(M{"e": "iclear", "s": st()})
				}
			case 11:
				w.do(M{"e": pick(r, []string{"kp", "reg"}), "s": st()})
			}
		case x < maps: // records into and out of stores
			k, gk := pick(r, w.akeys), pick(r, w.gkeys)
			switch r.Intn(4) {
			case 0:
				if w.H[h] != nil {
					w.do(M{"e": "sstore", "s": st(), "k": k, "h": h})
					given[h] = true
				}
			case 1:
				s, k := at("sess", w.akeys)
				if _, ok := w.seen[fmt.Sprintf("S %d sess %s", s, k)]; ok {
					delete(given, h)
				}
				w.do(M{"e": "sload", "s": s, "k": k, "h": h})
			case 2:
				if w.G[g] != nil {
					w.do(M{"e": "gstore", "s": st(), "k": gk, "h": g})
					given[g] = true
				}
			case 3:
				s, gk := at("grp", w.gkeys)
				if _, ok := w.seen[fmt.Sprintf("S %d grp %s", s, gk)]; ok {
					delete(given, g)
				}
				w.do(M{"e": "gload", "s": s, "k": gk, "h": g})
			}
		case r.Intn(5) < 3: // session records
			if w.H[h] == nil || (given[h] && r.Intn(3) == 0) {
				x := []any{fresh()}
				if r.Intn(4) == 0 {
					x = []any{}
				}
				w.do(M{"e": "new", "h": h, "x": x, "lid": "k1", "rid": pick(r, []string{"k2", "k3"})})
				delete(given, h)
				continue
			}
			if r.Intn(5) == 0 {
				w.do(M{"e": "has", "h": h, "ver": pick(r, []string{"3", "3", "3", "2", "4"}), "x": fresh()})
				continue
			}
			if r.Intn(8) == 0 {
				t := pick(r, hs)
				if t != h && w.H[h].State() != nil {
					w.do(M{"e": "copy", "h": t, "from": h})
					delete(given, t)
				}
				continue
			}
			if given[h] {
				continue
			}
			switch y := r.Intn(14); {
			case y == 0:
				w.do(M{"e": "arch", "h": h})
			case y == 1:
				w.do(M{"e": "promo", "h": h, "x": fresh(), "lid": "k1", "rid": "k2"})
			case y == 2:
				x := []any{fresh()}
				if r.Intn(2) == 0 {
					x = []any{}
				}
				w.do(M{"e": "set", "h": h, "x": x, "lid": "k1", "rid": "k2"})
			case y == 3:
				w.do(M{"e": "old", "h": h, "i": r.Intn(5)})
			default:
				s := w.H[h].State()
				if s == nil {
					w.do(M{"e": "promo", "h": h, "x": fresh(), "lid": "k1", "rid": "k2"})
					continue
				}
				k := fmt.Sprintf("r%d", r.Intn(8))
				if r.Intn(3) > 0 { // one of those there are
					for j := 0; j < 8; j++ {
						if i, _ := s.ReceiverChain(w.pair(fmt.Sprintf("r%d", j)).PublicKey()); i >= 0 && r.Intn(2) == 0 {
							k = fmt.Sprintf("r%d", j)
						}
					}
				}
				i, chain := s.ReceiverChain(w.pair(k).PublicKey())
				c := M{"e": "chg", "h": h, "op": pick(r, []string{"rcv", "rcv", "rcv", "rck", "qck", "smk", "smk", "smk", "smk", "mk", "mk", "mk", "snd", "sck", "pend", "ack", "prev", "root", "lreg", "rreg", "base"})}
				num := pick(r, nums)
				if r.Intn(2) == 0 {
					num = fmt.Sprint(r.Intn(30))
				}
				chains[k]++
				cc := ck(fmt.Sprintf("c%s%d", k, chains[k]), r.Intn(3))
				switch c["op"] {
				case "rcv":
					if i >= 0 {
						continue
					}
					c["k"], c["ck"] = k, cc
				case "rck":
					c["k"], c["ck"] = k, cc
				case "qck":
					c["k"] = k
				case "smk":
					have := map[string]bool{}
					for _, mk := range chain.GetMessageKeys() {
						have[fmt.Sprint(mk.GetIndex())] = true
					}
					xs := []any{}
					for j := r.Intn(4) + 1; j > 0; j-- {
						if v := pick(r, append(nums, fmt.Sprint(r.Intn(30)))); !have[v] {
							have[v] = true
							xs = append(xs, v)
						}
					}
					if len(xs) == 0 {
						continue
					}
					c["k"], c["xs"] = k, xs
				case "mk":
					if ks := chain.GetMessageKeys(); len(ks) > 0 && r.Intn(3) > 0 {
						num = fmt.Sprint(pick(r, ks).GetIndex())
					}
					c["k"], c["x"] = k, num
				case "snd":
					c["k"], c["ck"] = k, cc
				case "sck":
					if _, err := s.SenderRatchetKey(); err != nil {
						continue
					}
					c["ck"] = cc
				case "pend":
					opk := []any{}
					if r.Intn(2) == 0 {
						opk = []any{pick(r, nums[1:])}
					}
					c["opk"], c["spk"], c["x"] = opk, pick(r, nums), fresh()
				case "prev", "lreg", "rreg":
					c["x"] = num
				case "root":
					c["x"] = fmt.Sprintf("root%d", r.Intn(4))
				case "base":
					c["x"] = fresh()
				}
				w.do(c)
			}
		default: // group records
			if w.G[g] == nil || (given[g] && r.Intn(3) == 0) {
				w.do(M{"e": "gnew", "h": g})
				delete(given, g)
				continue
			}
			if given[g] {
				continue
			}
			cid := pick(r, cids)
			if r.Intn(3) > 0 {
				for _, x := range cids {
					if w.G[g].StateForChainID(u32(x)) != nil && r.Intn(2) == 0 {
						cid = x
					}
				}
			}
			c := M{"e": "gchg", "h": g, "cid": cid, "op": pick(r, []string{"add", "add", "add", "ck", "smk", "smk", "mk", "mk", "rm", "rmall"})}
			switch c["op"] {
			case "add":
				c["sk"], c["priv"], c["seed"], c["it"] = pick(r, []string{"k1", "k2"}), r.Intn(2) == 0, pick(r, toks), pick(r, nums)
			case "ck":
				c["seed"], c["it"] = pick(r, toks), pick(r, nums)
			case "smk":
				have := map[string]bool{}
				for _, k := range w.its[cid] {
					have[k] = true
				}
				xs := []any{}
				for j := r.Intn(4) + 1; j > 0; j-- {
					if v := pick(r, append(nums, fmt.Sprint(r.Intn(30)))); !have[v] {
						have[v] = true
						xs = append(xs, v)
					}
				}
				if len(xs) == 0 {
					continue
				}
				c["xs"] = xs
			case "mk":
				c["x"] = pick(r, nums)
				if ks := w.its[cid]; len(ks) > 0 && r.Intn(3) > 0 {
					c["x"] = pick(r, ks)
				}
			case "rm":
				c["sk"] = pick(r, []string{"k1", "k2"})
			}
			w.do(c)
		}
	}
	for _, h := range hs {
		if w.H[h] != nil {
			w.do(M{"e": "look", "h": h})
		}
	}
	for _, g := range gs {
		if w.G[g] != nil {
			w.do(M{"e": "glook", "h": g})
		}
	}
	return w
}

func strList(x any) []string {
	var out []string
	if l, ok := x.([]any); ok {
		for _, v := range l {
			out = append(out, str(v))
		}
	}
	return out
}
