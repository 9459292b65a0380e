From ed3b96f24f2cac4800ee80e74fdea50c3b144049 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 01/14] fix: advance the receiver chain past a decrypted
 message

The receiver chain stayed at the index of the message just decrypted, so the
same ciphertext could be decrypted any number of times, and its key was kept
(or stored again as a skipped key) after use.
---
 protocol/session/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 3fd117a..6861e20 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -413,7 +413,7 @@ func (s *Session) messageKeys(state *State, theirEphemeral curve.PublicKey, chai
 		chainKey = chainKey.Next()
 	}
 
-	err := state.SetReceiverChainKey(theirEphemeral, chainKey)
+	err := state.SetReceiverChainKey(theirEphemeral, chainKey.Next())
 	if err != nil {
 		return ratchet.MessageKeys{}, err
 	}
-- 
2.43.0


From 45655524cdff4db4d389a0bb3e7abae83e12cdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 02/14] fix: report failures to decrypt a Signal message

The error of decryptMessage was dropped, so tampered, duplicate and otherwise
undecryptable messages were reported as a successful, empty decryption.
---
 protocol/session/cipher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 6861e20..dfcd76b 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -180,6 +180,9 @@ func (s *Session) decryptSignal(ctx context.Context, random io.Reader, ciphertex
 	}
 
 	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext)
+	if err != nil {
+		return nil, err
+	}
 
 	if record.State() == nil {
 		return nil, errors.New("successfully decrypted; must have a current state")
-- 
2.43.0


From 0b1afca2c443618388ceb186c54d51a970be3ecb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 03/14] fix: reject Signal messages too short to hold a MAC

NewSignalFromBytes (and NewPreKeyFromBytes through it) panicked on inputs of
one to eight bytes.
---
 protocol/message/signal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message/signal.go b/protocol/message/signal.go
index 69d64ba..732d945 100644
--- a/protocol/message/signal.go
+++ b/protocol/message/signal.go
@@ -73,7 +73,7 @@ func NewSignal(cfg SignalConfig) (Ciphertext, error) {
 }
 
 func NewSignalFromBytes(bytes []byte) (Ciphertext, error) {
-	if len(bytes) == 0 {
+	if len(bytes) < 1+macSize {
 		return nil, errors.New("message too short")
 	}
 
-- 
2.43.0


From f2119f862fb39f1b6d12329c0ad3a01a14dd3abd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 04/14] fix: compare identity keys by value in the in-memory
 identity store

Store compared interface values holding pointers, so storing an equal key
again was reported as overwriting it with a new identity key.
---
 protocol/identity/store_inmem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/identity/store_inmem.go b/protocol/identity/store_inmem.go
index 1031134..1e86e18 100644
--- a/protocol/identity/store_inmem.go
+++ b/protocol/identity/store_inmem.go
@@ -42,7 +42,7 @@ func (i *inMemStore) Store(_ context.Context, address address.Address, identity
 	knownIdentity, exists := i.knownKeys[address]
 	i.knownKeys[address] = identity
 
-	return exists && identity != knownIdentity, nil
+	return exists && !identity.Equal(knownIdentity), nil
 }
 
 func (i *inMemStore) Clear() error {
-- 
2.43.0


From 7b1b1aa83ebe6515a616678404d87c3414c33401 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 05/14] fix: do not write padding into the caller's plaintext
 buffer

When the plaintext slice had spare capacity, padding overwrote the bytes of
the caller's array which follow the plaintext.
---
 protocol/crypto/aes/aes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol/crypto/aes/aes.go b/protocol/crypto/aes/aes.go
index 8c9438b..6b66aa2 100644
--- a/protocol/crypto/aes/aes.go
+++ b/protocol/crypto/aes/aes.go
@@ -66,7 +66,9 @@ func CBCDecrypt(key, iv, ciphertext []byte) ([]byte, error) {
 func pkcs7pad(plaintext []byte) []byte {
 	n := aes.BlockSize - (len(plaintext) % aes.BlockSize)
 
-	return append(plaintext, bytes.Repeat([]byte{byte(n)}, n)...)
+	padded := make([]byte, 0, len(plaintext)+n)
+	padded = append(padded, plaintext...)
+	return append(padded, bytes.Repeat([]byte{byte(n)}, n)...)
 }
 
 // pkcs7unpad unpads plaintext which adhered to PKS #7 padding rules.
-- 
2.43.0


From 9926145f9d50a73f1fa19f245340f4d42d6398e9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 06/14] fix: check every PKCS #7 padding byte

Only the last byte was checked, so ciphertexts which are not the encryption of
any plaintext were accepted.
---
 protocol/crypto/aes/aes.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/protocol/crypto/aes/aes.go b/protocol/crypto/aes/aes.go
index 6b66aa2..b2c9be2 100644
--- a/protocol/crypto/aes/aes.go
+++ b/protocol/crypto/aes/aes.go
@@ -79,6 +79,11 @@ func pkcs7unpad(plaintext []byte) ([]byte, error) {
 	if n < 1 || n > aes.BlockSize {
 		return nil, errors.New("invalid padding")
 	}
+	for _, b := range plaintext[length-n:] {
+		if int(b) != n {
+			return nil, errors.New("invalid padding")
+		}
+	}
 
 	return plaintext[:length-n], nil
 }
-- 
2.43.0


From e1bb7867940df20bc1d412b2dabd0657325a4dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 07/14] fix: leave no current session after archiving it

ArchiveCurrentState copied the current state to the archived states but kept
using it as the current one, so an archived session went on sending and a
stale copy of its keys stayed behind.
---
 protocol/session/record.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/session/record.go b/protocol/session/record.go
index 88261b7..aa0a4f1 100644
--- a/protocol/session/record.go
+++ b/protocol/session/record.go
@@ -115,6 +115,7 @@ func (r *Record) ArchiveCurrentState() {
 	}
 
 	r.previousSessions = append(r.previousSessions, r.currentSession.Bytes())
+	r.currentSession = nil
 }
 
 func (r *Record) LocalIdentityKey() (identity.Key, error) {
-- 
2.43.0


From 553e65e67f3065242a015091c4aab241c60fe8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 08/14] fix: report an untrusted pre-key bundle as an untrusted
 identity

ProcessPreKeyBundle returned an anonymous error which
perrors.IsErrUntrustedIdentity does not recognize.
---
 protocol/session/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 727fe66..7886297 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -127,7 +127,7 @@ func (s *Session) ProcessPreKeyBundle(ctx context.Context, random io.Reader, bun
 		return err
 	}
 	if !trusted {
-		return errors.New("untrusted identity")
+		return perrors.ErrUntrustedIdentity(s.RemoteAddress)
 	}
 
 	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
-- 
2.43.0


From 204498d3991c43c1918e17fc0e9dd43ec41f0c94 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 09/14] fix: reject pre-key messages which name unknown or
 unusable keys

A pre-key message naming a signed pre-key we do not hold, or carrying a
low-order base key, crashed the receiver. One naming a one-time pre-key we do
not hold was processed as if it had named none.
---
 protocol/session/session.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/protocol/session/session.go b/protocol/session/session.go
index 7886297..bf8ba93 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -6,6 +6,7 @@ import (
 	"bytes"
 	"context"
 	"errors"
+	"fmt"
 	"io"
 
 	"github.com/golang/glog"
@@ -74,11 +75,12 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 	if err != nil {
 		return nil, err
 	}
-	if exists {
-		ourSignedPreKeyPair, err = ourSignedPreKeyRecord.KeyPair()
-		if err != nil {
-			return nil, err
-		}
+	if !exists {
+		return nil, fmt.Errorf("unknown signed pre-key: %s", message.SignedPreKeyID())
+	}
+	ourSignedPreKeyPair, err = ourSignedPreKeyRecord.KeyPair()
+	if err != nil {
+		return nil, err
 	}
 
 	var ourOneTimePreKeyPair *curve.KeyPair
@@ -91,11 +93,12 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		if err != nil {
 			return nil, err
 		}
-		if exists {
-			ourOneTimePreKeyPair, err = ourOneTimePreKeyRecord.KeyPair()
-			if err != nil {
-				return nil, err
-			}
+		if !exists {
+			return nil, fmt.Errorf("unknown one-time pre-key: %s", *message.PreKeyID())
+		}
+		ourOneTimePreKeyPair, err = ourOneTimePreKeyRecord.KeyPair()
+		if err != nil {
+			return nil, err
 		}
 	}
 
@@ -107,6 +110,9 @@ func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *
 		TheirIdentityKey:     message.IdentityKey(),
 		TheirBaseKey:         message.BaseKey(),
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	session.SetLocalRegistrationID(s.IdentityKeyStore.LocalRegistrationID(ctx))
 	session.SetRemoteRegistrationID(message.RegistrationID())
@@ -307,6 +313,9 @@ func initializeBobSession(params *ratchet.BobParameters) (*State, error) {
 	}
 
 	rootKey, chainKey, err := ratchet.DeriveKeys(secrets.Bytes())
+	if err != nil {
+		return nil, err
+	}
 
 	session := NewState(&v1.SessionStructure{
 		SessionVersion:       message.CiphertextVersion,
-- 
2.43.0


From 23482756f933827700f90973febd434b37f33322 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:39:06 +0000
Subject: [PATCH 10/14] fix: load copies of records from the in-memory session
 stores

Load returned the stored record itself, so an operation which failed halfway
(a forged pre-key message, an untrusted identity) still changed the stored
session: a forged message could replace the session used for sending.
---
 protocol/session/group_record.go | 13 +++++++++++++
 protocol/session/record.go       | 12 ++++++++++++
 protocol/session/store_inmem.go  | 12 ++++++++++--
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/protocol/session/group_record.go b/protocol/session/group_record.go
index f07768d..4f894f4 100644
--- a/protocol/session/group_record.go
+++ b/protocol/session/group_record.go
@@ -4,8 +4,10 @@ import (
 	"errors"
 
 	"github.com/golang/glog"
+	"google.golang.org/protobuf/proto"
 
 	"github.com/RTann/libsignal-go/protocol/curve"
+	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
 )
 
 const maxSenderKeyStates = 5
@@ -21,6 +23,17 @@ func NewGroupRecord() *GroupRecord {
 	}
 }
 
+// clone returns a copy of the record which shares no mutable state with it.
+func (g *GroupRecord) clone() *GroupRecord {
+	record := NewGroupRecord()
+	for _, state := range g.states {
+		record.states = append(record.states, &GroupState{
+			state: proto.Clone(state.state).(*v1.SenderKeyStateStructure),
+		})
+	}
+	return record
+}
+
 func (g *GroupRecord) State() (*GroupState, error) {
 	if len(g.states) == 0 {
 		return nil, errors.New("empty sender key state")
diff --git a/protocol/session/record.go b/protocol/session/record.go
index aa0a4f1..7da9232 100644
--- a/protocol/session/record.go
+++ b/protocol/session/record.go
@@ -40,6 +40,18 @@ func NewRecordBytes(bytes []byte) (*Record, error) {
 	}, nil
 }
 
+// clone returns a copy of the record which shares no mutable state with it.
+func (r *Record) clone() *Record {
+	record := &Record{
+		previousSessions: make([][]byte, len(r.previousSessions), maxArchivedStates),
+	}
+	copy(record.previousSessions, r.previousSessions)
+	if r.currentSession != nil {
+		record.currentSession = r.currentSession.Clone()
+	}
+	return record
+}
+
 func (r *Record) State() *State {
 	return r.currentSession
 }
diff --git a/protocol/session/store_inmem.go b/protocol/session/store_inmem.go
index 5203afe..09aa6bc 100644
--- a/protocol/session/store_inmem.go
+++ b/protocol/session/store_inmem.go
@@ -23,7 +23,11 @@ func NewInMemStore() Store {
 
 func (i *inMemStore) Load(_ context.Context, address address.Address) (*Record, bool, error) {
 	record, exists := i.sessions[address]
-	return record, exists, nil
+	if !exists {
+		return nil, false, nil
+	}
+	// The record only changes when it is stored again.
+	return record.clone(), true, nil
 }
 
 func (i *inMemStore) Store(_ context.Context, address address.Address, record *Record) error {
@@ -51,7 +55,11 @@ func (i *inMemGroupStore) Load(_ context.Context, sender address.Address, distri
 		address: sender,
 		id:      distributionID,
 	}]
-	return record, exists, nil
+	if !exists {
+		return nil, false, nil
+	}
+	// The record only changes when it is stored again.
+	return record.clone(), true, nil
 }
 
 func (i *inMemGroupStore) Store(_ context.Context, sender address.Address, distributionID distribution.ID, record *GroupRecord) error {
-- 
2.43.0


From e159023d4e795270f0aefa45a7d35d3adf1c8101 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 11/14] fix: authenticate a pre-key message before pinning its
 identity key

The identity key was stored before the message was decrypted, and a session
other than the one the pre-key message set up could vouch for it, so a forged
envelope around a genuine message consumed a one-time pre-key and archived the
genuine session.
---
 protocol/session/cipher.go  | 51 +++++++++++++++++++++++++------------
 protocol/session/session.go | 41 ++++++++++++++++++-----------
 2 files changed, 61 insertions(+), 31 deletions(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index dfcd76b..3323614 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -145,12 +145,24 @@ func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertex
 		record = NewRecord(nil)
 	}
 
-	preKeyID, err := s.ProcessPreKey(ctx, record, ciphertext)
+	preKeyID, created, err := s.processPreKey(ctx, record, ciphertext)
 	if err != nil {
 		return nil, err
 	}
 
-	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext.Message())
+	var plaintext []byte
+	if created {
+		// The message must prove knowledge of the session it sets up,
+		// so no other session may vouch for it.
+		plaintext, err = s.decryptMessageSession(random, record.State(), ciphertext.Message())
+	} else {
+		plaintext, err = s.decryptMessage(random, record, ciphertext.Type(), ciphertext.Message())
+	}
+	if err != nil {
+		return nil, err
+	}
+
+	err = s.storeRemoteIdentity(ctx, record)
 	if err != nil {
 		return nil, err
 	}
@@ -184,34 +196,41 @@ func (s *Session) decryptSignal(ctx context.Context, random io.Reader, ciphertex
 		return nil, err
 	}
 
+	err = s.storeRemoteIdentity(ctx, record)
+	if err != nil {
+		return nil, err
+	}
+
+	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
+	if err != nil {
+		return nil, err
+	}
+
+	return plaintext, nil
+}
+
+// storeRemoteIdentity stores the identity key of the session which decrypted a message,
+// provided it is trusted.
+func (s *Session) storeRemoteIdentity(ctx context.Context, record *Record) error {
 	if record.State() == nil {
-		return nil, errors.New("successfully decrypted; must have a current state")
+		return errors.New("successfully decrypted; must have a current state")
 	}
 	theirIdentityKey, exists, err := record.State().RemoteIdentityKey()
 	if err != nil || !exists {
-		return nil, errors.New("successfully decrypted; must have a remote identity key")
+		return errors.New("successfully decrypted; must have a remote identity key")
 	}
 
 	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Receiving)
 	if err != nil {
-		return nil, err
+		return err
 	}
 	if !trusted {
 		glog.Warningf("Identity key %s is not trusted for remote address %v", hex.EncodeToString(theirIdentityKey.Bytes()), s.RemoteAddress)
-		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
+		return perrors.ErrUntrustedIdentity(s.RemoteAddress)
 	}
 
 	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
-	if err != nil {
-		return nil, err
-	}
-
-	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
-	if err != nil {
-		return nil, err
-	}
-
-	return plaintext, nil
+	return err
 }
 
 type updatedState struct {
diff --git a/protocol/session/session.go b/protocol/session/session.go
index bf8ba93..eb88781 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -37,22 +37,12 @@ type Session struct {
 // This method returns the one-time pre-key used by "Alice" when sending the initial message,
 // if one was used.
 func (s *Session) ProcessPreKey(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
-	theirIdentityKey := message.IdentityKey()
-
-	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Receiving)
-	if err != nil {
-		return nil, err
-	}
-	if !trusted {
-		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
-	}
-
-	unsignedPreKeyID, err := s.processPreKeyV3(ctx, record, message)
+	unsignedPreKeyID, _, err := s.processPreKey(ctx, record, message)
 	if err != nil {
 		return nil, err
 	}
 
-	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
+	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, message.IdentityKey())
 	if err != nil {
 		return nil, err
 	}
@@ -60,16 +50,37 @@ func (s *Session) ProcessPreKey(ctx context.Context, record *Record, message *me
 	return unsignedPreKeyID, nil
 }
 
-func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
+// processPreKey does the work of ProcessPreKey, except that it does not store the identity key,
+// as nothing proves yet that the message was sent by its owner.
+//
+// It also reports whether it set up a new session for the message.
+func (s *Session) processPreKey(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, bool, error) {
+	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, message.IdentityKey(), direction.Receiving)
+	if err != nil {
+		return nil, false, err
+	}
+	if !trusted {
+		return nil, false, perrors.ErrUntrustedIdentity(s.RemoteAddress)
+	}
+
 	exists, err := record.HasSessionState(uint32(message.Version()), message.BaseKey().Bytes())
 	if err != nil {
-		return nil, err
+		return nil, false, err
 	}
 	if exists {
 		// We've already set up a session for this V3 message, letting bundled message fall through.
-		return nil, nil
+		return nil, false, nil
+	}
+
+	unsignedPreKeyID, err := s.processPreKeyV3(ctx, record, message)
+	if err != nil {
+		return nil, false, err
 	}
 
+	return unsignedPreKeyID, true, nil
+}
+
+func (s *Session) processPreKeyV3(ctx context.Context, record *Record, message *message.PreKey) (*prekey.ID, error) {
 	var ourSignedPreKeyPair *curve.KeyPair
 	ourSignedPreKeyRecord, exists, err := s.SignedPreKeyStore.Load(ctx, message.SignedPreKeyID())
 	if err != nil {
-- 
2.43.0


From a240a8b0d24f35c9d28ddfc5de180384396b3944 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:45:50 +0000
Subject: [PATCH 12/14] fix: reject aliases of the base key in pre-key messages

X25519 ignores the top bit of a public key, and the base key of a pre-key
message is not authenticated, so a pre-key message without a one-time pre-key
could be delivered again by flipping that bit: it set up a second session with
the same keys.
---
 protocol/curve/curve25519/curve25519.go | 10 ++++++++++
 protocol/curve/djb_public.go            |  4 ++++
 protocol/curve/public.go                |  3 +++
 protocol/session/session.go             |  6 ++++++
 4 files changed, 23 insertions(+)

diff --git a/protocol/curve/curve25519/curve25519.go b/protocol/curve/curve25519/curve25519.go
index 694b9ae..bdd65cf 100644
--- a/protocol/curve/curve25519/curve25519.go
+++ b/protocol/curve/curve25519/curve25519.go
@@ -4,6 +4,7 @@
 package curve25519
 
 import (
+	"bytes"
 	"crypto/ecdh"
 	"crypto/ed25519"
 	"crypto/rand"
@@ -11,6 +12,7 @@ import (
 	"io"
 
 	"filippo.io/edwards25519"
+	"filippo.io/edwards25519/field"
 
 	"github.com/RTann/libsignal-go/protocol/perrors"
 )
@@ -118,6 +120,14 @@ func (p *PrivateKey) Agreement(key []byte) ([]byte, error) {
 	return p.ecdhKey.ECDH(publicKey)
 }
 
+// IsCanonical reports whether the public key is the one encoding of its u-point.
+//
+// X25519 accepts several encodings of the same u-point.
+func IsCanonical(publicKey []byte) bool {
+	u, err := new(field.Element).SetBytes(publicKey)
+	return err == nil && bytes.Equal(u.Bytes(), publicKey)
+}
+
 // Sign calculates an XEdDSA signature using the X25519 private key, directly.
 //
 // The calculated signature is a valid ed25519 signature.
diff --git a/protocol/curve/djb_public.go b/protocol/curve/djb_public.go
index 9a61223..6bb6323 100644
--- a/protocol/curve/djb_public.go
+++ b/protocol/curve/djb_public.go
@@ -47,6 +47,10 @@ func (d *DJBPublicKey) Equal(key PublicKey) bool {
 		subtle.ConstantTimeCompare(d.KeyBytes(), key.KeyBytes()) == 1
 }
 
+func (d *DJBPublicKey) IsCanonical() bool {
+	return curve25519.IsCanonical(d.key)
+}
+
 func (d *DJBPublicKey) VerifySignature(signature []byte, messages ...[]byte) (bool, error) {
 	if len(signature) != SignatureSize {
 		return false, nil
diff --git a/protocol/curve/public.go b/protocol/curve/public.go
index 7014e20..ffa5630 100644
--- a/protocol/curve/public.go
+++ b/protocol/curve/public.go
@@ -23,6 +23,9 @@ type PublicKey interface {
 	//
 	// This check is performed in constant time as long as the keys have the same type.
 	Equal(key PublicKey) bool
+	// IsCanonical reports whether the key is the one encoding of its value,
+	// so that no other key leads to the same shared secrets.
+	IsCanonical() bool
 	// VerifySignature verifies the signature is a valid signature
 	// of the messages by the public key.
 	VerifySignature(signature []byte, messages ...[]byte) (bool, error)
diff --git a/protocol/session/session.go b/protocol/session/session.go
index eb88781..6f8e11f 100644
--- a/protocol/session/session.go
+++ b/protocol/session/session.go
@@ -290,6 +290,12 @@ func InitializeBobSessionRecord(params *ratchet.BobParameters) (*Record, error)
 }
 
 func initializeBobSession(params *ratchet.BobParameters) (*State, error) {
+	// The base key identifies the session, so it must not have an alias
+	// by which the same session may be set up again.
+	if !params.TheirBaseKey.IsCanonical() {
+		return nil, errors.New("invalid base key")
+	}
+
 	localIdentity := params.OurIdentityKeyPair.IdentityKey()
 
 	dh1, err := params.OurSignedPreKeyPair.PrivateKey().Agreement(params.TheirIdentityKey.PublicKey())
-- 
2.43.0


From 54a63d8035c25855e41e23bab4ec965f84f82667 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 13/14] fix: a message which is a duplicate in one session of a
 record no longer fails to decrypt in another

Trial decryption gave up at the first session in which the message looked
like a duplicate, and went on trying (and possibly giving up) after a session
which had decrypted it, as the break only left the switch.
---
 protocol/session/cipher.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/protocol/session/cipher.go b/protocol/session/cipher.go
index 3323614..ee93a64 100644
--- a/protocol/session/cipher.go
+++ b/protocol/session/cipher.go
@@ -240,6 +240,10 @@ type updatedState struct {
 }
 
 func (s *Session) decryptMessage(random io.Reader, record *Record, typ message.CiphertextType, ciphertext *message.Signal) ([]byte, error) {
+	// Several sessions may share a ratchet key (the signed pre-key), so a message
+	// which looks like a duplicate to one of them may still be new to another.
+	var duplicate bool
+
 	if record.State() != nil {
 		currentState := record.State().Clone()
 		plaintext, err := s.decryptMessageSession(random, currentState, ciphertext)
@@ -249,7 +253,7 @@ func (s *Session) decryptMessage(random io.Reader, record *Record, typ message.C
 			record.SetSessionState(currentState)
 			return plaintext, nil
 		case errors.Is(err, perrors.ErrDuplicateMessage):
-			return nil, err
+			duplicate = true
 		default:
 		}
 	}
@@ -261,6 +265,7 @@ func (s *Session) decryptMessage(random io.Reader, record *Record, typ message.C
 
 	var state *updatedState
 
+loop:
 	for i, previous := range previousStates {
 		plaintext, err := s.decryptMessageSession(random, previous, ciphertext)
 		switch {
@@ -271,9 +276,9 @@ func (s *Session) decryptMessage(random io.Reader, record *Record, typ message.C
 				state:     previous,
 				plaintext: plaintext,
 			}
-			break
+			break loop
 		case errors.Is(err, perrors.ErrDuplicateMessage):
-			return nil, err
+			duplicate = true
 		default:
 		}
 	}
@@ -283,6 +288,10 @@ func (s *Session) decryptMessage(random io.Reader, record *Record, typ message.C
 		return state.plaintext, nil
 	}
 
+	if duplicate {
+		return nil, perrors.ErrDuplicateMessage
+	}
+
 	if record.State() != nil {
 		glog.Errorf("no valid session for recipient %v (previous states: %d)", s.RemoteAddress, len(previousStates))
 	} else {
-- 
2.43.0


From 06579ef274db9e2f84c659162201f9506b83db45 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 14/14] fix: a group is sent to under the sender key added
 last, not under the oldest one kept

---
 protocol/session/group_record.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/session/group_record.go b/protocol/session/group_record.go
index 4f894f4..531973b 100644
--- a/protocol/session/group_record.go
+++ b/protocol/session/group_record.go
@@ -34,12 +34,13 @@ func (g *GroupRecord) clone() *GroupRecord {
 	return record
 }
 
+// State returns the current state, which is the one added last.
 func (g *GroupRecord) State() (*GroupState, error) {
 	if len(g.states) == 0 {
 		return nil, errors.New("empty sender key state")
 	}
 
-	return g.states[0], nil
+	return g.states[len(g.states)-1], nil
 }
 
 func (g *GroupRecord) StateForChainID(chainID uint32) *GroupState {
-- 
2.43.0

