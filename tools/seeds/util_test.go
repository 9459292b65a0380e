package address_test

import (
	"context"
	"crypto/rand"
	"testing"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"
)

var ctx = context.Background()

type party struct {
	addr address.Address
	ids  identity.Store
	ses  session.Store
	grp  session.GroupStore
	pre  prekey.Store
	sig  prekey.SignedStore
	kp   identity.KeyPair
	spk  *curve.KeyPair
	spks []byte
	opk  map[prekey.ID]*curve.KeyPair
}

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func newParty(t *testing.T, name string, dev uint32) *party {
	t.Helper()
	kp, err := identity.GenerateKeyPair(rand.Reader)
	must(t, err)
	p := &party{addr: address.Address{Name: name, DeviceID: address.DeviceID(dev)}, kp: kp, opk: map[prekey.ID]*curve.KeyPair{}}
	p.ids = identity.NewInMemStore(kp, 1234)
	p.ses = session.NewInMemStore()
	p.grp = session.NewInMemGroupStore()
	p.pre = prekey.NewInMemStore()
	p.sig = prekey.NewInMemSignedStore()
	p.spk, err = curve.GenerateKeyPair(rand.Reader)
	must(t, err)
	p.spks, err = kp.PrivateKey().Sign(rand.Reader, p.spk.PublicKey().Bytes())
	must(t, err)
	must(t, p.sig.Store(ctx, 7, prekey.NewSigned(7, 1, p.spk, p.spks)))
	return p
}

func (p *party) addOpk(t *testing.T, id prekey.ID) {
	t.Helper()
	k, err := curve.GenerateKeyPair(rand.Reader)
	must(t, err)
	p.opk[id] = k
	must(t, p.pre.Store(ctx, id, prekey.NewPreKey(id, k)))
}

// bundle returns a bundle with the one-time pre-key id, or without one (0).
func (p *party) bundle(id prekey.ID) *prekey.Bundle {
	b := &prekey.Bundle{RegistrationID: 1234, DeviceID: p.addr.DeviceID, SignedPreKeyID: 7, SignedPreKeyPublic: p.spk.PublicKey(),
		SignedPreKeySignature: p.spks, IdentityKey: p.kp.IdentityKey()}
	if id != 0 {
		b.PreKeyID = &id
		b.PreKeyPublic = p.opk[id].PublicKey()
	}
	return b
}

func (p *party) with(q *party) *session.Session { return p.under(q.addr) }

func (p *party) under(a address.Address) *session.Session {
	return &session.Session{RemoteAddress: a, SessionStore: p.ses, PreKeyStore: p.pre, SignedPreKeyStore: p.sig, IdentityKeyStore: p.ids}
}

func (p *party) start(t *testing.T, q *party, opk prekey.ID) {
	t.Helper()
	must(t, p.with(q).ProcessPreKeyBundle(ctx, rand.Reader, q.bundle(opk)))
}

func (p *party) enc(t *testing.T, q *party, text string) message.Ciphertext {
	t.Helper()
	m, err := p.with(q).EncryptMessage(ctx, []byte(text))
	must(t, err)
	return m
}

func (p *party) dec(q *party, m message.Ciphertext) (string, error) {
	b, err := p.with(q).DecryptMessage(ctx, rand.Reader, m)
	return string(b), err
}

func (p *party) get(t *testing.T, q *party, m message.Ciphertext, text string) {
	t.Helper()
	s, err := p.dec(q, m)
	must(t, err)
	if s != text {
		t.Fatalf("decrypted %q, not %q", s, text)
	}
}

var did = distribution.MustParse("d1d1d1d1-7000-11eb-b32a-33b8a8a487a6")

func (p *party) group(sender *party) *session.GroupSession {
	return &session.GroupSession{SenderAddress: sender.addr, DistID: did, SenderKeyStore: p.grp}
}

func (p *party) skd(t *testing.T) *message.SenderKeyDistribution {
	t.Helper()
	d, err := p.group(p).NewSenderKeyDistribution(ctx, rand.Reader)
	must(t, err)
	return d
}

func (p *party) join(t *testing.T, q *party, d *message.SenderKeyDistribution) {
	t.Helper()
	must(t, p.group(q).ProcessSenderKeyDistribution(ctx, d))
}

func (p *party) genc(t *testing.T, text string) *message.SenderKey {
	t.Helper()
	m, err := p.group(p).EncryptMessage(ctx, rand.Reader, []byte(text))
	must(t, err)
	return m
}

func (p *party) gget(t *testing.T, q *party, m *message.SenderKey, text string) {
	t.Helper()
	b, err := p.group(q).DecryptMessage(ctx, m)
	must(t, err)
	if string(b) != text {
		t.Fatalf("decrypted %q, not %q", b, text)
	}
}
