package main

import (
	"bytes"
	"crypto/aes"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"unsafe"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"
)

const sigLen = 64

type gparty struct {
	name string
	grp  session.GroupStore
	ctl  *ctl
	dig  map[string]string
}

type gdist struct {
	d     *message.SenderKeyDistribution
	bytes []byte
	did   string
	from  string
}

type gmsg struct {
	m      *message.SenderKey
	bytes  []byte
	pb     *v1.SenderKeyMessage
	plain  []byte
	body   int
	did    string
	from   string
	sk     []byte // public signing key
	seen   map[string]bool
	filler bool
	key    *senderkey.MessageKey // if known, what it was encrypted
	priv   curve.PrivateKey      // and signed with
}

// gworld runs commands on group sessions and logs them for GroupTrace.
type gworld struct {
	r      *rand.Rand
	rnd    *detReader
	names  []string
	addr   map[string]address.Address
	dids   []string
	did    map[string]distribution.ID
	P      map[string]*gparty
	cids   []uint32 // chain ids seen anywhere
	evilK  []*curve.KeyPair
	evilS  [][]byte
	labels map[string]int
	dists  []*gdist
	msgs   []*gmsg
	kbs    map[string]bool
	nbody  int
	log    []M
	cover  map[string]int
	snaps  []map[string]bool
	seeds  [][]byte // 32-byte random reads, candidate chain keys
}

// groups whose identifiers are easily confused
var didPool = map[string]string{
	"g1": "d1d1d1d1-7000-11eb-b32a-33b8a8a487a6",
	"g2": "d1d1d1d1-7000-11eb-b32a-33b8a8a487a7",
	"g3": "00000000-0000-0000-0000-000000000000",
	"g4": "d1d1d1d1-7000-11eb-b32a-43b8a8a487a6",
	"g5": "e1d1d1d1-7000-11eb-b32a-33b8a8a487a6",
}

func newGroupWorld(seed int64, members []member, dids []string, nevil int) *gworld {
	w := &gworld{
		r: rand.New(rand.NewSource(seed)), rnd: newDet(seed, "group"), addr: map[string]address.Address{},
		did: map[string]distribution.ID{}, P: map[string]*gparty{}, labels: map[string]int{}, dids: dids,
		kbs: map[string]bool{}, cover: map[string]int{},
	}
	current.Store(goid(), w)
	for _, m := range members {
		w.names = append(w.names, m.name)
		w.addr[m.name] = m.addr
		w.P[m.name] = &gparty{name: m.name, grp: session.NewInMemGroupStore(), ctl: &ctl{}, dig: map[string]string{}}
	}
	for _, d := range dids {
		w.did[d] = distribution.MustParse(didPool[d])
	}
	for i := 0; i < nevil; i++ {
		kp, err := curve.GenerateKeyPair(w.rnd)
		if err != nil {
			fatal(err)
		}
		w.evilK = append(w.evilK, kp)
		b := make([]byte, 32)
		w.rnd.Read(b)
		w.evilS = append(w.evilS, b)
	}
	w.log = append(w.log, M{"e": "init", "ps": w.names, "focus": ""})
	for _, n := range w.names {
		w.P[n].dig = w.digest(w.P[n])
	}
	return w
}

func (w *gworld) focus(f, name string, seed int64) *gworld {
	w.log[0]["focus"], w.log[0]["name"], w.log[0]["seed"] = f, name, fmt.Sprint(seed)
	return w
}

func (w *gworld) label(kind string, b []byte) int {
	s := kind + string(b)
	if l, ok := w.labels[s]; ok {
		return l
	}
	l := len(w.labels) + 1
	w.labels[s] = l
	return l
}

func (w *gworld) session(p *gparty, from, did string) *session.GroupSession {
	return &session.GroupSession{SenderAddress: w.addr[from], DistID: w.did[did], SenderKeyStore: groupStore{p.grp, p.ctl}}
}

func (w *gworld) sawCid(c uint32) {
	for _, x := range w.cids {
		if x == c {
			return
		}
	}
	w.cids = append(w.cids, c)
}

// deep hashes or collects everything reachable from x.
func deep(x reflect.Value, f func(b []byte), depth int) {
	if depth > 24 || !x.IsValid() {
		return
	}
	switch x.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !x.IsNil() {
			deep(x.Elem(), f, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			t := x.Type().Field(i)
			if t.Name == "sizeCache" || t.Type.Name() == "MessageState" { // caches of the protobuf library
				continue
			}
			v := x.Field(i)
			if !v.CanInterface() && v.CanAddr() {
				v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
			}
			deep(v, f, depth+1)
		}
	case reflect.Slice:
		if x.Type().Elem().Kind() == reflect.Uint8 {
			f(x.Bytes())
			return
		}
		for i := 0; i < x.Len(); i++ {
			deep(x.Index(i), f, depth+1)
		}
	case reflect.Array:
		if x.Type().Elem().Kind() == reflect.Uint8 && x.CanAddr() {
			f(x.Slice(0, x.Len()).Bytes())
			return
		}
		for i := 0; i < x.Len(); i++ {
			deep(x.Index(i), f, depth+1)
		}
	case reflect.Map:
		it := x.MapRange()
		for it.Next() {
			deep(it.Key(), f, depth+1)
			deep(it.Value(), f, depth+1)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		f([]byte(strconv.FormatUint(x.Uint(), 10)))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		f([]byte(strconv.FormatInt(x.Int(), 10)))
	case reflect.Bool:
		f([]byte(fmt.Sprint(x.Bool())))
	case reflect.String:
		f([]byte(x.String()))
	}
}

// digest summarises every record p holds.
func (w *gworld) digest(p *gparty) map[string]string {
	d := map[string]string{}
	for _, r := range w.names {
		for _, g := range w.dids {
			h := sha256.New()
			rec, ok, err := p.grp.Load(bg, w.addr[r], w.did[g])
			fmt.Fprint(h, ok, err)
			if ok && rec != nil {
				deep(reflect.ValueOf(rec), func(b []byte) { fmt.Fprintf(h, "%d:%x", len(b), b) }, 0)
			}
			d[r+"/"+g] = string(h.Sum(nil))
		}
	}
	return d
}

func (w *gworld) settle(p *gparty, r, did string) (own, other bool) {
	now := w.digest(p)
	for k, v := range now {
		if p.dig[k] != v {
			if k == r+"/"+did {
				own = true
			} else {
				other = true
			}
		}
	}
	p.dig = now
	return
}

// view lists, for each record, the chain ids held and their iterations.
func (w *gworld) view(p *gparty) []M {
	out := []M{}
	for _, r := range w.names {
		for _, g := range w.dids {
			rec, ok, err := p.grp.Load(bg, w.addr[r], w.did[g])
			if !ok || err != nil || rec == nil {
				continue
			}
			ss := [][]any{}
			for _, c := range w.cids {
				if st := rec.StateForChainID(c); st != nil {
					ss = append(ss, []any{ids(c), cc(st.SenderChainKey().Iteration())})
				}
			}
			first := ""
			if st, err := rec.State(); err == nil && st != nil {
				first = ids(st.ChainID())
			}
			out = append(out, M{"r": r, "did": g, "s": ss, "first": first})
		}
	}
	return out
}

func (w *gworld) arm(p *gparty, c M) {
	p.ctl.reset()
	w.rnd.failAt, w.rnd.fired, w.rnd.reads = 0, false, 0
	at, mode := flt(c)
	switch mode {
	case "":
	case "rnd":
		w.rnd.failAt = at
	default:
		p.ctl.failAt, p.ctl.mode = at, mode
	}
}

func (w *gworld) finish(p *gparty, r, did string, c M, res, detail string, buf bool) {
	c["fired"] = p.ctl.fired || w.rnd.fired
	p.ctl.failAt, w.rnd.failAt = 0, 0
	c["res"] = res
	if res != "ok" && detail != "" {
		c["err"] = detail
	}
	c["w"] = strs(p.ctl.writes)
	c["buf"] = buf
	own, other := w.settle(p, r, did)
	c["chg"], c["oth"] = own || other, other
	c["v"] = w.view(p)
	w.log = append(w.log, c)
	w.cover["g"+str(c["e"])+"/"+res]++
}

func (w *gworld) do(c M) M {
	if hangs.Load() > 0 {
		panic(stopped{w})
	}
	p := w.P[str(c["p"])]
	if p == nil {
		fatal("no party", c)
	}
	if _, ok := c["d"]; !ok && (c["e"] == "prc" || c["e"] == "dec" || c["e"] == "prb") {
		c["d"] = M{}
	}
	switch str(c["e"]) {
	case "skd":
		w.doDistribute(p, c)
	case "prc":
		w.doProcess(p, c)
	case "enc":
		w.doEncrypt(p, c)
	case "dec", "prb":
		w.doDecrypt(p, c)
	case "rst":
		w.doReset(p, c)
	case "rot":
		w.doRotate(p, c)
	case "lft":
		w.doLift(p, c)
	case "snp":
		w.snaps = append(w.snaps, w.stolen(p))
		w.log = append(w.log, c)
	case "cmp":
		w.doCompromise(p, c)
	default:
		fatal("unknown group command", c)
	}
	return c
}

func (w *gworld) doDistribute(p *gparty, c M) {
	did := str(c["did"])
	w.arm(p, c)
	var d *message.SenderKeyDistribution
	res, detail := guard(func() error {
		var err error
		d, err = w.session(p, p.name, did).NewSenderKeyDistribution(bg, w.rnd)
		return err
	}, address.Address{})
	if res != "ok" && d != nil {
		c["leak"] = true
	}
	if res == "ok" && d == nil {
		res, detail = "panic", "no distribution"
	}
	c["cid"] = ""
	if rec, ok, err := p.grp.Load(bg, w.addr[p.name], w.did[did]); ok && err == nil && rec != nil {
		if st, err := rec.State(); err == nil && st != nil {
			w.sawCid(st.ChainID())
			c["cid"] = ids(st.ChainID())
		}
	}
	if res == "ok" {
		b := append([]byte(nil), d.Bytes()...)
		var pb v1.SenderKeyDistributionMessage
		if len(b) < 1 || proto.Unmarshal(b[1:], &pb) != nil {
			res, detail = "panic", "undecodable distribution"
		} else {
			w.dists = append(w.dists, &gdist{d, b, did, p.name})
			w.sawCid(pb.GetChainId())
			c["cid"] = ids(pb.GetChainId())
			c["it"] = cc(pb.GetIteration())
			c["odid"] = w.didName(pb.GetDistributionUuid())
			c["ckl"] = w.label("ck", pb.GetChainKey())
			c["skl"] = w.label("sk", pb.GetSigningKey())
			c["ver"] = int(b[0])
			back, err := message.NewSenderKeyDistributionFromBytes(append([]byte(nil), b...))
			same := func(x *message.SenderKeyDistribution) bool {
				return x.ChainID() == pb.GetChainId() && x.Iteration() == pb.GetIteration() && bytes.Equal(x.ChainKey(), pb.GetChainKey()) &&
					bytes.Equal(x.SigningKey().Bytes(), pb.GetSigningKey()) && x.DistributionID() == w.did[did] && x.Version() == 3
			}
			c["rt"] = err == nil && same(back) && same(d) && bytes.Equal(back.Bytes(), b)
		}
	}
	w.finish(p, p.name, did, c, res, detail, true)
}

func (w *gworld) didName(b []byte) string {
	for n, s := range didPool {
		if s == string(b) {
			return n
		}
	}
	return "?"
}

// crafted applies the changes of a "prc" command.
func (w *gworld) crafted(c M) ([]byte, string) {
	x := w.dists[toInt(c["x"])-1]
	d, _ := c["d"].(M)
	did := x.did
	if len(d) == 0 {
		return append([]byte(nil), x.bytes...), did
	}
	var pb v1.SenderKeyDistributionMessage
	if err := proto.Unmarshal(x.bytes[1:], &pb); err != nil {
		fatal(err)
	}
	if v, ok := d["did"]; ok {
		did = str(v)
		pb.DistributionUuid = []byte(didPool[did])
	}
	if v, ok := d["cid"]; ok {
		id := uint32(parseID(str(v)))
		w.sawCid(id)
		pb.ChainId = &id
	}
	if v, ok := d["it"]; ok {
		it := uncc(toInt(v))
		pb.Iteration = &it
	}
	if v, ok := d["sk"]; ok {
		pb.SigningKey = w.evilK[toInt(asRef(v)[1])-1].PublicKey().Bytes()
	}
	if v, ok := d["seed"]; ok {
		pb.ChainKey = w.evilS[toInt(asRef(v)[1])-1]
	}
	b, err := proto.Marshal(&pb)
	if err != nil {
		fatal(err)
	}
	return append([]byte{x.bytes[0]}, b...), did
}

func (w *gworld) doProcess(p *gparty, c M) {
	r := str(c["r"])
	b, did := w.crafted(c)
	direct := len(c["d"].(M)) == 0 && w.r.Intn(3) == 0
	can := newCanary(b)
	w.arm(p, c)
	res, detail := guard(func() error {
		var d *message.SenderKeyDistribution
		var err error
		if direct {
			d = w.dists[toInt(c["x"])-1].d
		} else if d, err = message.NewSenderKeyDistributionFromBytes(can.slice()); err != nil {
			return err
		}
		return w.session(p, r, did).ProcessSenderKeyDistribution(bg, d)
	}, address.Address{})
	ok := can.intact()
	for i := range can.full { // the caller may reuse its buffer
		can.full[i] = 0x5A
	}
	w.finish(p, r, did, c, res, detail, ok)
}

func (w *gworld) plaintext(n int) (int, []byte) {
	w.nbody++
	switch {
	case n >= 0:
	case w.r.Intn(5) == 0:
		n = w.r.Intn(16)
	case w.r.Intn(3) == 0:
		n = 16 * (1 + w.r.Intn(3))
	default:
		n = 26 + w.r.Intn(60)
	}
	b := make([]byte, n)
	w.r.Read(b)
	if w.r.Intn(8) == 0 && n > 0 {
		v := byte(w.r.Intn(18))
		for i := n - 1; i >= 0 && i > n-18; i-- {
			b[i] = v
		}
	}
	if n >= 16 {
		copy(b, bodyPrefix)
	}
	if n >= 26 {
		copy(b[16:], fmt.Sprintf("%010d", w.nbody))
	}
	return w.nbody, b
}

func (w *gworld) doEncrypt(p *gparty, c M) {
	did := str(c["did"])
	n := toInt(c["n"])
	keep := map[int]bool{}
	for _, k := range list(c["keep"]) {
		keep[toInt(k)] = true
	}
	plen := -1
	if v, ok := c["len"]; ok {
		plen = toInt(v)
	}
	first := w.nbody + 1
	w.arm(p, c)
	res, detail, buf, uniq, seq := "ok", "", true, true, true
	s := w.session(p, p.name, did)
	// the key which must have signed
	var pub curve.PublicKey
	if rec, ok, err := p.grp.Load(bg, w.addr[p.name], w.did[did]); ok && err == nil && rec != nil {
		if st, err := rec.State(); err == nil && st != nil {
			pub, _ = st.PublicSigningKey()
		}
	}
	var out []*gmsg
	kbs := map[string]bool{}
	var it0 uint32
	for i := 0; i < n && res == "ok"; i++ {
		b := bodyPrefix
		body := 0
		if keep[i] {
			body, b = w.plaintext(plen)
		}
		var key *senderkey.MessageKey
		var priv curve.PrivateKey
		if keep[i] {
			if rec, ok, err := p.grp.Load(bg, w.addr[p.name], w.did[did]); ok && err == nil && rec != nil {
				if st, err := rec.State(); err == nil && st != nil {
					if k, err := st.SenderChainKey().MessageKey(); err == nil {
						key = &k
					}
					priv, _ = st.PrivateSigningKey()
				}
			}
			if isNil(priv) {
				key = nil
			}
		}
		can := newCanary(b)
		var m *message.SenderKey
		res, detail = guard(func() error {
			var err error
			m, err = s.EncryptMessage(bg, w.rnd, can.slice())
			return err
		}, address.Address{})
		buf = buf && can.intact()
		if res != "ok" {
			if m != nil {
				c["leak"] = true
			}
			break
		}
		for j := range can.full {
			can.full[j] = 0x5A
		}
		pb := &v1.SenderKeyMessage{}
		if m == nil || len(m.Bytes()) < 1+sigLen || proto.Unmarshal(m.Bytes()[1:len(m.Bytes())-sigLen], pb) != nil {
			res, detail = "panic", "undecodable message"
			break
		}
		if i == 0 {
			it0 = pb.GetIteration()
		} else if pb.GetIteration() != it0+uint32(i) {
			seq = false
		}
		if len(b) >= 16 && len(pb.GetCiphertext()) >= 16 {
			kb := string(pb.GetCiphertext()[:16])
			if kbs[kb] || w.kbs[kb] {
				uniq = false
			}
			kbs[kb] = true
		}
		if keep[i] {
			g := &gmsg{m: m, bytes: append([]byte(nil), m.Bytes()...), pb: pb, plain: b, body: body, did: did, from: p.name, seen: map[string]bool{}}
			if pub != nil {
				g.sk = pub.Bytes()
			}
			if key != nil && key.Iteration() == pb.GetIteration() {
				g.key, g.priv = key, priv
			}
			out = append(out, g)
		}
	}
	for kb := range kbs {
		w.kbs[kb] = true
	}
	obs := []M{}
	if res == "ok" {
		for _, g := range out {
			back, err := message.NewSenderKeyFromBytes(append([]byte(nil), g.bytes...))
			same := func(x *message.SenderKey) bool {
				return x.ChainID() == g.pb.GetChainId() && x.Iteration() == g.pb.GetIteration() && bytes.Equal(x.Message(), g.pb.GetCiphertext()) &&
					x.DistributionID() == w.did[did] && x.Version() == 3 && x.Type() == message.SenderKeyType
			}
			signed := false
			if pub != nil {
				k := len(g.bytes) - sigLen
				signed, _ = pub.VerifySignature(g.bytes[k:], g.bytes[:k])
			}
			w.sawCid(g.pb.GetChainId())
			obs = append(obs, M{"cid": ids(g.pb.GetChainId()), "it": cc(g.pb.GetIteration()), "did": w.didName(g.pb.GetDistributionUuid()),
				"ver": int(g.bytes[0]), "rt": err == nil && same(back) && same(g.m) && bytes.Equal(back.Bytes(), g.bytes),
				"clen": len(g.pb.GetCiphertext()) == (len(g.plain)/16+1)*16, "signed": signed})
			w.msgs = append(w.msgs, g)
		}
	}
	c["body"], c["uniq"], c["seq"], c["o"] = first, uniq, seq, obs
	w.finish(p, p.name, did, c, res, detail, buf)
}

// altered applies the changes of a "dec" command.
func (w *gworld) altered(c M) ([]byte, string) {
	m := w.msgs[toInt(c["m"])-1]
	d, _ := c["d"].(M)
	if len(d) == 0 {
		return append([]byte(nil), m.bytes...), m.did
	}
	did := m.did
	pb := proto.Clone(m.pb).(*v1.SenderKeyMessage)
	sig := append([]byte(nil), m.bytes[len(m.bytes)-sigLen:]...)
	changed := false
	if v, ok := d["did"]; ok {
		did, changed = str(v), true
		pb.DistributionUuid = []byte(didPool[did])
	}
	if v, ok := d["cid"]; ok {
		id := uint32(parseID(str(v)))
		pb.ChainId, changed = &id, true
	}
	if v, ok := d["it"]; ok {
		it := uncc(toInt(v))
		pb.Iteration, changed = &it, true
	}
	b := append([]byte(nil), m.bytes...)
	build := func() {
		body, err := proto.Marshal(pb)
		if err != nil {
			fatal(err)
		}
		b = append(append([]byte{m.bytes[0]}, body...), sig...)
	}
	if changed {
		build()
	}
	if v, ok := d["sk"]; ok {
		k := len(b) - sigLen
		s, err := w.evilK[toInt(asRef(v)[1])-1].PrivateKey().Sign(newDet(int64(w.r.Int31()), "evil"), b[:k])
		if err != nil {
			fatal(err)
		}
		copy(b[k:], s)
	}
	if ok, has := d["ok"].(bool); has && !ok {
		how := str(d["how"])
		if how == "" {
			how = pick(w.r, []string{"sig", "body", "flip", "splice", "trunc", "append", "sigof", "ver", "field", "zero", "highbit", "ctext", "ctext", "ctext"})
		}
		if how == "ctext" && (m.key == nil || changed || d["sk"] != nil) {
			how = "sig"
		}
		switch how {
		case "ctext": // what the sender itself could make
			ver := b[0]
			if w.r.Intn(6) == 0 {
				ver = pick(w.r, []byte{0x03, 0x13, 0x23, 0x43, 0x44, 0xF3})
			} else {
				pb.Ciphertext = unreadable(w.r, m.key.CipherKey(), m.key.IV(), pb.Ciphertext)
			}
			body, err := proto.Marshal(pb)
			if err != nil {
				fatal(err)
			}
			b = append([]byte{ver}, body...)
			s, err := m.priv.Sign(newDet(int64(w.r.Int31()), "ctext"), b)
			if err != nil {
				fatal(err)
			}
			b = append(b, s...)
		case "bit":
			n := toInt(d["pos"]) % (8 * len(b))
			b[n/8] ^= 1 << (n % 8)
		case "cut":
			b = b[:toInt(d["pos"])%len(b)]
		case "sig":
			b[len(b)-1-w.r.Intn(sigLen)] ^= 1 << w.r.Intn(8)
		case "highbit": // the top bit of a signature holds the sign of the key
			b[len(b)-1] ^= 0x80
		case "zero":
			for i := len(b) - sigLen; i < len(b); i++ {
				b[i] = 0
			}
		case "body":
			if len(pb.Ciphertext) > 0 {
				pb.Ciphertext[w.r.Intn(len(pb.Ciphertext))] ^= 1 << w.r.Intn(8)
			}
			build()
		case "flip":
			b[w.r.Intn(len(b))] ^= 1 << w.r.Intn(8)
		case "splice":
			pb.Ciphertext = append([]byte(nil), pick(w.r, w.msgs).pb.Ciphertext...)
			build()
		case "trunc":
			b = b[:w.r.Intn(len(b))]
		case "append":
			b = append(b, byte(w.r.Intn(256)))
		case "sigof":
			o := pick(w.r, w.msgs)
			copy(b[len(b)-sigLen:], o.bytes[len(o.bytes)-sigLen:])
		case "ver":
			b[0] ^= byte(1 + w.r.Intn(15))
		case "field":
			k := len(b) - sigLen
			b = append(append(append([]byte(nil), b[:k]...), 0x7a, 0x01, 0x41), sig...)
		}
		if bytes.Equal(b, m.bytes) {
			b[len(b)-9] ^= 0x04
		}
	}
	return b, did
}

func (w *gworld) doDecrypt(p *gparty, c M) {
	r := str(c["r"])
	m := w.msgs[toInt(c["m"])-1]
	b, did := w.altered(c)
	can := newCanary(b)
	p.ctl.dry = str(c["e"]) == "prb"
	w.arm(p, c)
	direct := len(c["d"].(M)) == 0 && w.r.Intn(3) == 0
	var pt []byte
	res, detail := guard(func() error {
		var x *message.SenderKey
		var err error
		if direct {
			x = m.m
		} else if x, err = message.NewSenderKeyFromBytes(can.slice()); err != nil {
			return err
		}
		pt, err = w.session(p, r, did).DecryptMessage(bg, x)
		return err
	}, address.Address{})
	p.ctl.dry = false
	c["body"] = 0
	if res == "ok" {
		c["body"] = -1
		if bytes.Equal(pt, m.plain) {
			c["body"] = m.body
		}
		if str(c["e"]) == "dec" {
			m.seen[p.name+"/"+r] = true
		}
		for i := range pt {
			pt[i] ^= 0xFF
		}
	} else if len(pt) != 0 {
		c["leak"] = true
	}
	w.finish(p, r, did, c, res, detail, can.intact() && bytes.Equal(m.m.Bytes(), m.bytes))
}

// doReset makes the owner forget its sender key: its store is rebuilt without it.
func (w *gworld) doReset(p *gparty, c M) {
	did := str(c["did"])
	in := session.NewInMemGroupStore()
	for _, r := range w.names {
		for _, g := range w.dids {
			if r == p.name && g == did {
				continue
			}
			if rec, ok, err := p.grp.Load(bg, w.addr[r], w.did[g]); ok && err == nil {
				if err := in.Store(bg, w.addr[r], w.did[g], rec); err != nil {
					fatal(err)
				}
			}
		}
	}
	p.grp = in
	p.dig = w.digest(p)
	c["v"] = w.view(p)
	w.log = append(w.log, c)
}

// doRotate has the application add a sender key of its own to the record it
// has, to send under from here on.
func (w *gworld) doRotate(p *gparty, c M) {
	did := str(c["did"])
	if _, ok := c["cid"]; !ok {
		c["cid"] = ids(uint32(w.r.Int31()))
	}
	cid := uint32(parseID(str(c["cid"])))
	w.sawCid(cid)
	w.arm(p, c)
	res, detail := guard(func() error {
		store := w.session(p, p.name, did).SenderKeyStore
		rec, ok, err := store.Load(bg, w.addr[p.name], w.did[did])
		if err != nil {
			return err
		}
		if !ok {
			rec = session.NewGroupRecord()
		}
		seed := make([]byte, 32)
		w.r.Read(seed)
		kp, err := curve.GenerateKeyPair(w.rnd)
		if err != nil {
			return err
		}
		st := session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: cid, ChainKey: seed,
			SignatureKey: kp.PublicKey(), SignaturePrivateKey: kp.PrivateKey()})
		if err := rec.AddState(st); err != nil {
			return err
		}
		return store.Store(bg, w.addr[p.name], w.did[did], rec)
	}, address.Address{})
	w.finish(p, p.name, did, c, res, detail, true)
}

// stolen collects every 32-byte value p stores.
func (w *gworld) stolen(p *gparty) map[string]bool {
	out := map[string]bool{}
	for _, r := range w.names {
		for _, g := range w.dids {
			rec, ok, err := p.grp.Load(bg, w.addr[r], w.did[g])
			if !ok || err != nil || rec == nil {
				continue
			}
			deep(reflect.ValueOf(rec), func(b []byte) {
				if len(b) == 32 {
					out[string(b)] = true
				}
			}, 0)
			// and by the library's own means
			for _, c := range w.cids {
				if st := rec.StateForChainID(c); st != nil {
					out[string(st.SenderChainKey().Seed())] = true
					if k, err := st.PrivateSigningKey(); err == nil && k != nil {
						out[string(k.Bytes())] = true
					}
				}
			}
		}
	}
	return out
}

func groupKeys(seed []byte) (iv, key []byte) {
	d := kdf(seed, nil, "WhisperGroup", 48)
	return d[:16], d[16:]
}

func (w *gworld) doCompromise(p *gparty, c M) {
	var S map[string]bool
	if k, ok := c["snap"]; ok {
		S = w.snaps[toInt(k)-1]
	} else {
		S = w.stolen(p)
	}
	broken, signs := map[int]bool{}, map[int]bool{}
	first := map[string][]int{}
	max := 0
	for i, m := range w.msgs {
		if ct := m.pb.GetCiphertext(); len(ct) >= 16 {
			first[string(ct[:16])] = append(first[string(ct[:16])], i+1)
		}
		if n := int(m.pb.GetIteration()); n > max && n < 300 {
			max = n
		}
	}
	try := func(seed []byte) {
		iv, key := groupKeys(seed)
		b, _ := aes.NewCipher(key)
		var x [16]byte
		for i := range x {
			x[i] = bodyPrefix[i] ^ iv[i]
		}
		b.Encrypt(x[:], x[:])
		for _, mid := range first[string(x[:])] {
			m := w.msgs[mid-1]
			if pt, ok := rawDecrypt(key, iv, m.pb.GetCiphertext()); ok && bytes.Equal(pt, m.plain) {
				broken[mid] = true
			}
		}
	}
	for s := range S {
		if len(s) != 32 {
			continue
		}
		ck := []byte(s)
		try(ck)
		for i := 0; i <= max+1; i++ {
			try(mac256(ck, []byte{1}))
			ck = mac256(ck, []byte{2})
		}
		pub := pubOf([]byte(s))
		for i, m := range w.msgs {
			if bytes.Equal(pub, m.sk) {
				signs[i+1] = true
			}
		}
	}
	c["broken"], c["signs"] = sortedKeys(broken), sortedKeys(signs)
	w.log = append(w.log, c)
}

func sortedKeys(m map[int]bool) []int {
	out := []int{}
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}
