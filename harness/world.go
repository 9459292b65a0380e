package main

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/session"
)

const macLen = 8

// party is a device: its keys and its stores.
type party struct {
	name  string
	kp    identity.KeyPair
	reg   uint32
	ctl   *ctl
	sess  session.Store // unwrapped
	ident identity.Store
	pre   prekey.Store
	sgn   prekey.SignedStore
	opkID []uint32 // every one-time pre-key ever stored
	spkID []uint32
	dig   map[string]string // digests of everything stored, by part
}

// msg is a message that was produced.
type msg struct {
	ct     message.Ciphertext
	bytes  []byte
	body   int
	from   string // party
	to     string // address it was encrypted for
	seen   map[string]bool
	pk     *v1.PreKeySignalMessage
	inner  []byte
	sig    *v1.SignalMessage
	kb     string
	hasKB  bool
	plain  []byte
	isPK   bool
	typErr bool
	keys   *ratchet.MessageKeys          // if known, what it was encrypted under,
	mac    func(key, body []byte) []byte // and how it is authenticated
}

// world runs commands against the library, and records what happened in
// the format that spec/SessionTrace.tla checks.
type world struct {
	r      *rand.Rand
	rnd    *detReader
	addr   map[string]address.Address
	names  []string
	P      map[string]*party
	evil   []*curve.KeyPair
	labels map[string]int
	msgs   []*msg // 1-based in the log
	spk    map[string]*curve.KeyPair
	opk    map[string]*curve.KeyPair
	log    []M
	bodies map[string]int
	nbody  int
	kbs    map[string]bool
	flavor string
	plainR func(w *world) []byte
	bad    string // set when the harness itself cannot go on
	cover  map[string]int
	snaps  []map[string]bool // stolen states
	privs  map[string]string

	lifting bool // counters may be high
}

func (w *world) label(k curve.PublicKey) int {
	s := string(k.Bytes())
	if l, ok := w.labels[s]; ok {
		return l
	}
	l := len(w.labels) + 1
	w.labels[s] = l
	return l
}

type member struct {
	name      string
	addr      address.Address
	shareWith string // party whose identity key this device shares
	reg       uint32
}

var forceFlavor string // overrides the flavor of directed scenarios

func newWorld(seed int64, members []member, flavor string, nevil int) *world {
	if forceFlavor != "" {
		flavor = forceFlavor
	}
	w := &world{
		r: rand.New(rand.NewSource(seed)), rnd: newDet(seed, "world"),
		addr: map[string]address.Address{}, P: map[string]*party{}, labels: map[string]int{},
		spk: map[string]*curve.KeyPair{}, opk: map[string]*curve.KeyPair{},
		bodies: map[string]int{}, kbs: map[string]bool{}, flavor: flavor, cover: map[string]int{},
	}
	current.Store(goid(), w)
	ids, labs := M{}, M{}
	knum := map[string]int{}
	for i, mb := range members {
		var kp identity.KeyPair
		k := i + 1
		if mb.shareWith != "" {
			kp = w.P[mb.shareWith].kp
			k = knum[mb.shareWith]
		} else {
			var err error
			if kp, err = identity.GenerateKeyPair(w.rnd); err != nil {
				fatal(err)
			}
		}
		knum[mb.name] = k
		p := &party{name: mb.name, kp: kp, reg: mb.reg, ctl: &ctl{}, dig: map[string]string{}}
		switch flavor {
		case "ser":
			p.sess = newSerStore()
		default:
			p.sess = session.NewInMemStore()
		}
		p.ident = identity.NewInMemStore(kp, mb.reg)
		p.pre = prekey.NewInMemStore()
		p.sgn = prekey.NewInMemSignedStore()
		w.P[mb.name] = p
		w.addr[mb.name] = mb.addr
		w.names = append(w.names, mb.name)
		ids[mb.name] = M{"k": k, "reg": strconv.FormatUint(uint64(mb.reg), 10)}
		labs[mb.name] = w.label(kp.PublicKey())
	}
	ev := []int{}
	for i := 0; i < nevil; i++ {
		kp, err := curve.GenerateKeyPair(w.rnd)
		if err != nil {
			fatal(err)
		}
		w.evil = append(w.evil, kp)
		ev = append(ev, w.label(kp.PublicKey()))
	}
	w.log = append(w.log, M{"e": "init", "ids": ids, "lab": labs, "evil": ev})
	for _, n := range w.names {
		w.P[n].dig = w.digest(w.P[n])
	}
	return w
}

func (w *world) session(p *party, r string) *session.Session {
	return &session.Session{
		RemoteAddress:     w.addr[r],
		SessionStore:      sessionStore{p.sess, p.ctl},
		PreKeyStore:       preStore{p.pre, p.ctl},
		SignedPreKeyStore: signedStore{p.sgn, p.ctl},
		IdentityKeyStore:  identStore{p.ident, p.ctl},
	}
}

func ids(id uint32) string { return strconv.FormatUint(uint64(id), 10) }

func parseID(s string) prekey.ID {
	n, err := strconv.ParseUint(s, 10, 32)
	if err != nil {
		fatal(err)
	}
	return prekey.ID(n)
}

// class names the outcome of an operation.
func class(err error, a address.Address) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, perrors.ErrDuplicateMessage):
		return "dup"
	case perrors.IsErrUntrustedIdentity(err):
		return "unt"
	case errors.Is(err, perrors.ErrSessionNotFound(a)):
		return "nos"
	default:
		return "inv"
	}
}

// guard runs f, and turns a panic into an outcome.
func guard(f func() error, a address.Address) (res, detail string) {
	type outcome struct{ res, detail string }
	ch := make(chan outcome, 1)
	go func() {
		r, d := guarded(f, a)
		ch <- outcome{r, d}
	}()
	t := time.NewTimer(hangAfter)
	defer t.Stop()
	select {
	case o := <-ch:
		return o.res, o.detail
	case <-t.C:
		hangs.Add(1)
		return "panic", endless
	}
}

// An operation which takes this long does not end. Nothing is done after that.
const (
	hangAfter = 100 * time.Second
	endless   = "does not end"
)

var hangs atomic.Int32

// stopped ends a history, which is kept as far as it got.
type stopped struct{ w any }

// refused: what a history needs, and always gets, failed.
type refused struct{ err error }

// died notes histories which ended by a panic: of the library (where it was
// called to look at things, or to prepare them), or of the harness, perhaps
// since something is not as it ought to be.
var died struct {
	sync.Mutex
	l []M
}

func note(name string, e any) {
	if _, ok := e.(stopped); ok {
		return
	}
	m := M{"name": name, "what": fmt.Sprint(e), "lib": false, "stack": string(debug.Stack())}
	if r, ok := e.(refused); ok {
		m["what"], m["lib"] = r.err.Error(), true
	} else {
		// the first frame below the panic which is not of the runtime or
		// another package
		lines := strings.Split(str(m["stack"]), "\n")
		seen := false
		for _, l := range lines {
			if strings.HasPrefix(l, "panic(") {
				seen = true
			} else if seen && (strings.HasPrefix(l, libPath) || strings.HasPrefix(l, "main.")) {
				m["lib"] = strings.HasPrefix(l, libPath)
				break
			}
		}
	}
	died.Lock()
	died.l = append(died.l, m)
	died.Unlock()
}

// current gives the world which each goroutine works on.
var current sync.Map

func goid() string {
	b := make([]byte, 40)
	b = b[:runtime.Stack(b, false)]
	return strings.Fields(string(b))[1]
}

func settled[T any](f func() T) (w T) {
	id := goid()
	current.Delete(id)
	defer func() {
		if e := recover(); e != nil {
			name := ""
			if c, ok := current.Load(id); ok {
				w, _ = c.(T)
				if n, ok := c.(interface{ title() string }); ok {
					name = n.title()
				}
			}
			note(name, e)
		}
	}()
	return f()
}

func title(l []M) string {
	if len(l) == 0 {
		return ""
	}
	return str2(l[0]["name"])
}

func (w *world) title() string   { return title(w.log) }
func (w *gworld) title() string  { return title(w.log) }
func (w *stworld) title() string { return title(w.log) }

func guarded(f func() error, a address.Address) (res, detail string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(crashT); ok {
				res, detail = "crash", ""
				return
			}
			res, detail = "panic", fmt.Sprint(e)
		}
	}()
	err := f()
	if err != nil {
		detail = err.Error()
	}
	return class(err, a), detail
}

// digest summarises everything a party has stored: sessions and identity
// per address, one-time and signed pre-keys.
func (w *world) digest(p *party) map[string]string {
	d := map[string]string{}
	for _, r := range w.names {
		h := sha256.New()
		rec, ok, err := p.sess.Load(bg, w.addr[r])
		fmt.Fprint(h, ok, err)
		if ok && err == nil && rec != nil {
			if st := rec.State(); st != nil {
				fmt.Fprintf(h, "C%x", st.Bytes())
			}
			prev, err := rec.PreviousStates()
			fmt.Fprint(h, len(prev), err)
			for _, s := range prev {
				fmt.Fprintf(h, "P%x", s.Bytes())
			}
		}
		d["sess/"+r] = string(h.Sum(nil))
		k, ok, err := p.ident.Load(bg, w.addr[r])
		s := fmt.Sprint(ok, err)
		if ok {
			s += string(k.Bytes())
		}
		d["id/"+r] = s
	}
	for _, id := range p.opkID {
		k, ok, err := p.pre.Load(bg, prekey.ID(id))
		s := fmt.Sprint(ok, err)
		if ok && k != nil {
			if kp, err := k.KeyPair(); err == nil {
				s += string(kp.PrivateKey().Bytes())
			}
		}
		d["opk/"+ids(id)] = s
	}
	for _, id := range p.spkID {
		k, ok, err := p.sgn.Load(bg, prekey.ID(id))
		s := fmt.Sprint(ok, err)
		if ok && k != nil {
			if kp, err := k.KeyPair(); err == nil {
				s += string(kp.PrivateKey().Bytes())
			}
		}
		d["spk/"+ids(id)] = s
	}
	return d
}

// settle compares what a party has stored with before. It returns which
// parts changed: own (the address acted on), other (other addresses),
// pre (pre-keys).
func (w *world) settle(p *party, r string) (own, other, pre bool) {
	now := w.digest(p)
	for k, v := range now {
		old, ok := p.dig[k]
		if !ok || old == v {
			continue
		}
		switch {
		case k == "sess/"+r || k == "id/"+r:
			own = true
		case k[:3] == "opk" || k[:3] == "spk":
			pre = true
		default:
			other = true
		}
	}
	p.dig = now
	return
}

// view is what the spec compares after every operation.
func (w *world) view(p *party) M {
	id, cur, np := M{}, M{}, M{}
	for _, r := range w.names {
		if k, ok, _ := p.ident.Load(bg, w.addr[r]); ok {
			id[r] = w.label(k.PublicKey())
		}
		rec, ok, err := p.sess.Load(bg, w.addr[r])
		if ok && err == nil && rec != nil {
			cur[r] = rec.State() != nil
			prev, _ := rec.PreviousStates()
			np[r] = len(prev)
		}
	}
	opks := []string{}
	for _, i := range p.opkID {
		if _, ok, _ := p.pre.Load(bg, prekey.ID(i)); ok {
			opks = append(opks, ids(i))
		}
	}
	sort.Strings(opks)
	return M{"id": id, "cur": cur, "np": np, "opk": dedup(opks)}
}

func dedup(xs []string) []string {
	out := []string{}
	for i, x := range xs {
		if i == 0 || x != xs[i-1] {
			out = append(out, x)
		}
	}
	return out
}

// key resolves a key reference.
func (w *world) key(ref []any) curve.PublicKey {
	switch ref[0].(string) {
	case "id":
		return w.P[ref[1].(string)].kp.PublicKey()
	case "spk":
		return w.spk[ref[1].(string)+"/"+ref[2].(string)].PublicKey()
	case "opk":
		return w.opk[ref[1].(string)+"/"+ref[2].(string)].PublicKey()
	case "base":
		k, err := curve.NewPublicKey(w.msgs[toInt(ref[1])-1].pk.GetBaseKey())
		if err != nil {
			fatal(err)
		}
		return k
	case "rk":
		k, err := curve.NewPublicKey(w.msgs[toInt(ref[1])-1].sig.GetRatchetKey())
		if err != nil {
			fatal(err)
		}
		return k
	case "evil":
		return w.evil[toInt(ref[1])-1].PublicKey()
	case "low":
		b := make([]byte, 33)
		b[0] = 5
		if w.r.Intn(2) == 0 {
			b[1] = 1
		}
		k, _ := curve.NewPublicKey(b)
		return k
	case "alias":
		b := w.key(ref[1].([]any)).Bytes()
		b[32] ^= 0x80
		k, _ := curve.NewPublicKey(b)
		return k
	}
	fatal("bad key reference", ref)
	return nil
}

func toInt(x any) int {
	switch v := x.(type) {
	case int:
		return v
	case float64:
		return int(v)
	}
	fatal("not a number", x)
	return 0
}

// dissect notes the parts of a message from its bytes, independently of
// the library's accessors.
func dissect(b []byte, pre bool) (*v1.PreKeySignalMessage, *v1.SignalMessage, []byte, error) {
	var pk *v1.PreKeySignalMessage
	inner := b
	if len(b) < 1 {
		return nil, nil, nil, errors.New("empty")
	}
	if pre {
		pk = &v1.PreKeySignalMessage{}
		if err := proto.Unmarshal(b[1:], pk); err != nil {
			return nil, nil, nil, err
		}
		inner = pk.GetMessage()
	}
	if len(inner) < 1+macLen {
		return nil, nil, nil, errors.New("short")
	}
	sig := &v1.SignalMessage{}
	if err := proto.Unmarshal(inner[1:len(inner)-macLen], sig); err != nil {
		return nil, nil, nil, err
	}
	return pk, sig, inner, nil
}

// sameMessage says whether two messages agree in everything their accessors show.
func sameMessage(a, b message.Ciphertext) bool {
	if a.Type() != b.Type() || !bytes.Equal(a.Bytes(), b.Bytes()) {
		return false
	}
	switch x := a.(type) {
	case *message.Signal:
		y, ok := b.(*message.Signal)
		return ok && x.Version() == y.Version() && x.Counter() == y.Counter() &&
			x.SenderRatchetKey().Equal(y.SenderRatchetKey()) && bytes.Equal(x.Message(), y.Message())
	case *message.PreKey:
		y, ok := b.(*message.PreKey)
		if !ok || x.Version() != y.Version() || x.RegistrationID() != y.RegistrationID() ||
			x.SignedPreKeyID() != y.SignedPreKeyID() || !x.BaseKey().Equal(y.BaseKey()) || !x.IdentityKey().Equal(y.IdentityKey()) {
			return false
		}
		if (x.PreKeyID() == nil) != (y.PreKeyID() == nil) || x.PreKeyID() != nil && *x.PreKeyID() != *y.PreKeyID() {
			return false
		}
		return sameMessage(x.Message(), y.Message())
	}
	return false
}

func parse(b []byte, pre bool) (message.Ciphertext, error) {
	if pre {
		return message.NewPreKeyFromBytes(b)
	}
	return message.NewSignalFromBytes(b)
}
