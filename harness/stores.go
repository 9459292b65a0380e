package main

import (
	"context"
	"errors"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"
)

var errFault = errors.New("injected fault")

type crashT struct{}

// ctl controls the wrapped stores of one party: it counts calls, injects
// faults, notes writes, and can discard them (dry run).
type ctl struct {
	dry    bool
	calls  int
	failAt int    // 1-based call which fails; 0: none
	mode   string // "err": the call fails; "post": it is done, then fails; "crash": the process dies instead
	fired  bool
	writes []string
}

func (c *ctl) reset() {
	c.calls, c.failAt, c.mode, c.fired, c.writes = 0, 0, "", false, nil
}

// before is called before each store call. It returns an error to return.
func (c *ctl) before() error {
	c.calls++
	if c.failAt > 0 && c.calls == c.failAt {
		switch c.mode {
		case "err":
			c.fired = true
			return errFault
		case "crash":
			c.fired = true
			panic(crashT{})
		}
	}
	return nil
}

// after is called when the call has been done.
func (c *ctl) after(write string) error {
	if write != "" {
		c.writes = append(c.writes, write)
	}
	if c.failAt > 0 && c.calls == c.failAt && c.mode == "post" {
		c.fired = true
		return errFault
	}
	return nil
}

// serStore keeps session records serialised, as a database would.
type serStore struct {
	m map[address.Address]serRecord
}

type serRecord struct {
	cur  []byte
	has  bool
	prev [][]byte
}

func newSerStore() *serStore { return &serStore{m: map[address.Address]serRecord{}} }

func stateFrom(b []byte) (*session.State, error) {
	var s v1.SessionStructure
	if err := proto.Unmarshal(b, &s); err != nil {
		return nil, err
	}
	return session.NewState(&s), nil
}

func serialise(rec *session.Record) (serRecord, error) {
	var out serRecord
	if st := rec.State(); st != nil {
		out.cur, out.has = st.Bytes(), true
	}
	prev, err := rec.PreviousStates()
	if err != nil {
		return out, err
	}
	for _, p := range prev {
		out.prev = append(out.prev, p.Bytes())
	}
	return out, nil
}

func deserialise(s serRecord) (*session.Record, error) {
	rec := session.NewRecord(nil)
	for _, b := range s.prev {
		st, err := stateFrom(b)
		if err != nil {
			return nil, err
		}
		rec.PromoteState(st)
	}
	if s.has {
		if len(s.prev) == 0 {
			// the library's own way back
			return session.NewRecordBytes(s.cur)
		}
		st, err := stateFrom(s.cur)
		if err != nil {
			return nil, err
		}
		rec.PromoteState(st)
	} else {
		rec.ArchiveCurrentState()
	}
	return rec, nil
}

func (s *serStore) Load(_ context.Context, a address.Address) (*session.Record, bool, error) {
	r, ok := s.m[a]
	if !ok {
		return nil, false, nil
	}
	rec, err := deserialise(r)
	return rec, true, err
}

func (s *serStore) Store(_ context.Context, a address.Address, rec *session.Record) error {
	r, err := serialise(rec)
	if err != nil {
		return err
	}
	s.m[a] = r
	return nil
}

type sessionStore struct {
	in session.Store
	c  *ctl
}

func (s sessionStore) Load(ctx context.Context, a address.Address) (*session.Record, bool, error) {
	if err := s.c.before(); err != nil {
		return nil, false, err
	}
	rec, ok, err := s.in.Load(ctx, a)
	if e := s.c.after(""); e != nil {
		return nil, false, e
	}
	return rec, ok, err
}

func (s sessionStore) Store(ctx context.Context, a address.Address, rec *session.Record) error {
	if err := s.c.before(); err != nil {
		return err
	}
	if !s.c.dry {
		if err := s.in.Store(ctx, a, rec); err != nil {
			return err
		}
	}
	return s.c.after("sess")
}

type identStore struct {
	in identity.Store
	c  *ctl
}

func (s identStore) KeyPair(ctx context.Context) identity.KeyPair { return s.in.KeyPair(ctx) }
func (s identStore) LocalRegistrationID(ctx context.Context) uint32 {
	return s.in.LocalRegistrationID(ctx)
}
func (s identStore) Load(ctx context.Context, a address.Address) (identity.Key, bool, error) {
	if err := s.c.before(); err != nil {
		return identity.Key{}, false, err
	}
	k, ok, err := s.in.Load(ctx, a)
	if e := s.c.after(""); e != nil {
		return identity.Key{}, false, e
	}
	return k, ok, err
}
func (s identStore) Store(ctx context.Context, a address.Address, k identity.Key) (bool, error) {
	if err := s.c.before(); err != nil {
		return false, err
	}
	var ch bool
	if !s.c.dry {
		var err error
		if ch, err = s.in.Store(ctx, a, k); err != nil {
			return false, err
		}
	}
	return ch, s.c.after("id")
}
func (s identStore) Clear() error { return s.in.Clear() }
func (s identStore) IsTrustedIdentity(ctx context.Context, a address.Address, k identity.Key, d direction.Direction) (bool, error) {
	if err := s.c.before(); err != nil {
		return false, err
	}
	ok, err := s.in.IsTrustedIdentity(ctx, a, k, d)
	if e := s.c.after(""); e != nil {
		return false, e
	}
	return ok, err
}

type preStore struct {
	in prekey.Store
	c  *ctl
}

func (s preStore) Load(ctx context.Context, id prekey.ID) (*prekey.PreKey, bool, error) {
	if err := s.c.before(); err != nil {
		return nil, false, err
	}
	k, ok, err := s.in.Load(ctx, id)
	if e := s.c.after(""); e != nil {
		return nil, false, e
	}
	return k, ok, err
}
func (s preStore) Store(ctx context.Context, id prekey.ID, k *prekey.PreKey) error {
	if err := s.c.before(); err != nil {
		return err
	}
	if !s.c.dry {
		if err := s.in.Store(ctx, id, k); err != nil {
			return err
		}
	}
	return s.c.after("opkadd")
}
func (s preStore) Delete(ctx context.Context, id prekey.ID) error {
	if err := s.c.before(); err != nil {
		return err
	}
	if !s.c.dry {
		if err := s.in.Delete(ctx, id); err != nil {
			return err
		}
	}
	return s.c.after("opk")
}

type signedStore struct {
	in prekey.SignedStore
	c  *ctl
}

func (s signedStore) Load(ctx context.Context, id prekey.ID) (*prekey.SignedPreKey, bool, error) {
	if err := s.c.before(); err != nil {
		return nil, false, err
	}
	k, ok, err := s.in.Load(ctx, id)
	if e := s.c.after(""); e != nil {
		return nil, false, e
	}
	return k, ok, err
}
func (s signedStore) Store(ctx context.Context, id prekey.ID, k *prekey.SignedPreKey) error {
	if err := s.c.before(); err != nil {
		return err
	}
	if !s.c.dry {
		if err := s.in.Store(ctx, id, k); err != nil {
			return err
		}
	}
	return s.c.after("spkadd")
}

type groupStore struct {
	in session.GroupStore
	c  *ctl
}

func (s groupStore) Load(ctx context.Context, a address.Address, id distribution.ID) (*session.GroupRecord, bool, error) {
	if err := s.c.before(); err != nil {
		return nil, false, err
	}
	r, ok, err := s.in.Load(ctx, a, id)
	if e := s.c.after(""); e != nil {
		return nil, false, e
	}
	return r, ok, err
}
func (s groupStore) Store(ctx context.Context, a address.Address, id distribution.ID, r *session.GroupRecord) error {
	if err := s.c.before(); err != nil {
		return err
	}
	if !s.c.dry {
		if err := s.in.Store(ctx, a, id, r); err != nil {
			return err
		}
	}
	return s.c.after("grp")
}
