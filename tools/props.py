import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))
S='protocol/session/'
T="The only 1:1 session tests are a handful of fixed conversations (61 tests in all); they fix one order of messages and one set of sizes."
p('C01','Every message in the window decrypts to its plaintext, in any order',
 "Once two devices share a session, every message either of them encrypts for the other decrypts at the other to exactly the plaintext that was encrypted, whatever other messages were delivered, delayed, reordered, lost, duplicated or corrupted before it, provided it has not been delivered yet and is within the documented windows. This holds for plaintexts of every length, for both parties, for all sessions the two have set up with each other that are still kept, and for sessions between devices of one user, which share an identity key.",
 ['inputs','schedules','histories'],'every history of session set-ups, encryptions and deliveries (reordering, loss, duplication, corruption) between devices, every plaintext',
 T,[S+'cipher.go',S+'state.go',S+'record.go','protocol/ratchet/keys.go','protocol/crypto/aes/aes.go'],
 [('DH ratchet step and receiver chains','session/cipher.go chainKey'),('skipped message keys','session/cipher.go messageKeys, session/state.go SetMessageKeys/MessageKeys'),('current, then archived sessions are tried','session/cipher.go decryptMessage')],
 [('session record','current and archived ratchet states per remote address','session.Record')],['Session.EncryptMessage','Session.DecryptMessage'])
p('C02','A message is delivered at most once',
 "Decrypting one message successfully makes every later attempt to decrypt it under the same sender address fail, no matter what happens in between, on which session it arrived, or whether an attacker re-wraps it as another message type or rewrites its unauthenticated envelope (for a message that sets up a session without a one-time pre-key, while that session is among the current and the 40 most recently archived ones). As long as the session which received it is kept, an exact replay is reported as a duplicate message.",
 ['inputs','histories','schedules'],'every message, every later point of every history, every re-encoding of the envelope',
 "No test delivers a message twice; on the original tree every in-order message could be delivered again without any test noticing.",
 [S+'cipher.go',S+'state.go',S+'session.go'],[('receiver chain advances past the message; skipped keys are removed when used','session/cipher.go messageKeys, session/state.go MessageKeys'),('base key identifies the session a pre-key message belongs to','session/record.go HasSessionState; session/session.go initializeBobSession')],
 (),['Session.DecryptMessage'])
p('C03','Only what the peer encrypted for this device is ever accepted',
 "Whatever bytes an attacker delivers under whatever sender address, a successful decryption returns exactly a plaintext that the holder of the session's remote identity key encrypted for this device's identity key in that session. Messages with any authenticated byte changed, with headers, keys or bodies of other messages spliced in, with a forged set-up envelope, or delivered to the wrong device or under the wrong sender's session, are rejected with an error and never crash the process.",
 ['inputs','histories'],'every byte string and every field-wise forgery built from observed messages, at every point of every history',
 "The tests flip a few bytes of single primitives; no test tampers with a message of a session.",
 [S+'cipher.go','protocol/message/signal.go','protocol/message/mac.go','protocol/message/prekey.go'],[('MAC over version, header, ciphertext and both identities','message/mac.go'),('pre-key message must be decrypted by the session it sets up','session/cipher.go decryptPreKey')],
 (),['Session.DecryptMessage'])
p('C04','A rejected session operation changes nothing',
 "If setting up a session, encrypting or decrypting fails for any reason other than a failing store, then every stored session, identity key and pre-key of the device is exactly as before, so that whatever could be encrypted or decrypted before still can be. The caller's plaintext, ciphertext, key and bundle buffers are never modified, by failing or succeeding operations.",
 ['inputs','histories'],'every failing operation at every point of every history; every caller buffer including its spare capacity',
 "Tests never continue a conversation after a failure.",
 [S+'cipher.go',S+'session.go',S+'store_inmem.go','protocol/crypto/aes/aes.go'],[('decryption works on copies and stores only on success','session/cipher.go'),('stores hand out copies','session/store_inmem.go')],
 (),['Session.*','session.Store','identity.Store','prekey.Store'])
p('C05','Identity keys are pinned on first use and enforced on every path',
 "For each address, the first identity key that completes a set-up (bundle, or authenticated pre-key message) or that the application stores is pinned; from then on bundles, encryptions and decryptions (pre-key or not, with current or archived sessions) involving any other identity key for that address fail with the untrusted-identity error and do not replace the pinned key. Only the application's own store or clear calls change what is trusted, and a message that fails to authenticate never pins anything.",
 ['inputs','histories'],'every order of set-ups, messages, identity changes, explicit trust decisions and forgeries, per address',
 "One test changes an identity once; it does not cover archived sessions, encryption after a change, or forged pre-key messages.",
 [S+'session.go',S+'cipher.go','protocol/identity/store_inmem.go'],[('trust check before use, store after authentication','session/session.go, session/cipher.go storeRemoteIdentity')],
 [('known keys','address to identity key','identity.Store')],['identity.Store','Session.*'])
p('C06','Session set-up agrees on one session and is advertised until answered',
 "A bundle whose signed pre-key is not signed by its identity key, or which contains unusable keys, never yields a session; any other trusted bundle does. From then on every message the initiator sends carries the set-up data (its identity, base key, registration ID and the IDs of exactly the pre-keys it used) until it has decrypted a message of that session, so the responder can start from whichever of them arrives first, and afterwards messages are plain.",
 ['inputs','histories'],'every bundle (with or without one-time pre-key, any IDs, any signature), every order and loss of the first messages and replies, simultaneous initiation',
 "The tests use one bundle shape with fixed small IDs and deliver the first message first.",
 [S+'session.go',S+'state.go','protocol/message/prekey.go'],[('bundle signature check','session/session.go ProcessPreKeyBundle'),('pending pre-key kept until a decryption succeeds','session/state.go SetUnacknowledgedPreKeyMessage/ClearUnacknowledgedPreKeyMessage')],
 [('pending pre-key','set-up data to repeat','SessionStructure.PendingPreKey')],['Session.ProcessPreKeyBundle','Session.EncryptMessage'])
p('C07','A one-time pre-key serves exactly one session',
 "A one-time pre-key is removed from its store exactly when a pre-key message naming it has been authenticated and has set up a new session, and no other operation removes any pre-key: not failed, forged, replayed or later messages of the same session. Once removed, no further session can be set up with it, and messages of the session it served keep working.",
 ['inputs','histories'],'every history of set-ups, replays and forgeries naming any pre-key IDs',
 "Tests look at the pre-key store after a single successful exchange.",
 [S+'cipher.go',S+'session.go','protocol/prekey/store_inmem.go'],[('delete after the session is stored','session/cipher.go decryptPreKey')],
 (),['prekey.Store','Session.DecryptMessage'])
p('C08','No message key, counter or ratchet key is ever reused',
 "No two ciphertexts a device ever produces are encrypted under the same message key, and within one sending chain counters are consecutive from zero with no repeats or gaps. A device replaces its sending ratchet key by a fresh one exactly when it first decrypts a message under a new ratchet key of its peer, and then announces the last counter of the chain it left.",
 ['histories','schedules'],'every history of encryptions and decryptions, across ratchet steps, sessions, archiving, promotion and failures',
 "Tests look at decrypted plaintexts only, which are right even if keys repeat.",
 [S+'cipher.go',S+'state.go','protocol/ratchet/keys.go'],[('chain key advanced and stored before the ciphertext is returned','session/cipher.go EncryptMessage'),('ratchet step','session/cipher.go chainKey')],
 (),['message.Signal header','ciphertext equality'])
p('C09','Stealing session state reveals neither past nor healed messages',
 "An attacker who copies all the sessions a device has stored at some moment (for sessions that were set up with a one-time pre-key also its identity and pre-key private keys), and has recorded all ciphertexts, cannot derive the key of any message that the device had already decrypted or sent before that moment, except skipped messages still waiting to arrive. Once both parties have exchanged new ratchet keys after the theft, later messages are again underivable from the stolen state.",
 ['histories'],'every history, every moment of compromise, every recorded message',
 "No test looks at what stored state would give away.",
 [S+'cipher.go',S+'state.go','protocol/ratchet/keys.go'],[('one-way chain, keys removed on use, fresh ratchet keys','session/state.go, session/cipher.go')],
 (),['State.Bytes of stored sessions'])
p('C10','Skipping is bounded exactly as documented',
 "A message that skips at most 25,000 messages of its chain is accepted and one that skips more is rejected (sessions between devices that share an identity key have no such limit); each receiving chain keeps the keys of the 2,000 most recent skipped messages and each session its 5 most recent receiving chains. Messages inside these limits decrypt, messages outside are refused, and neither ever affects the rest of the window.",
 ['inputs','histories'],'every gap size, every combination of skipped messages and chains, repeated use after hitting a limit',
 "No test skips more than a few messages or has more than a few chains.",
 [S+'cipher.go',S+'state.go'],[('jump limit','session/cipher.go messageKeys'),('eviction of the oldest keys and chains','session/state.go SetMessageKeys, AddReceiverChain')],
 (),['Session.DecryptMessage'])
p('C11','Sessions succeed each other without losing messages',
 "Setting up a new session archives the current one, and messages of the 40 most recently archived sessions still decrypt; decrypting one makes that session current and archives the other, so both parties converge on a common session even when they initiate simultaneously. After archiving without a replacement there is nothing to encrypt with until a new set-up or an incoming message, while incoming messages still decrypt.",
 ['histories','schedules'],'every interleaving of set-ups by both sides, archiving and deliveries over any number of sessions',
 "Tests have at most two sessions per address.",
 [S+'record.go',S+'cipher.go'],[('archive and promote','session/record.go PromoteState, PromoteOldState, ArchiveCurrentState'),('trial decryption','session/cipher.go decryptMessage')],
 [('archived states','oldest first, at most 40','session.Record')],['Session.*','session.Record'])
p('C12','Group members decrypt everything sent after they joined',
 "Every message a sender encrypts for a group decrypts to exactly its plaintext at every member that processed one of the sender's distribution messages issued no later than it, in any order of arrival and whatever else was delivered, within the documented windows and once per member. A member that joins late starts from the distribution message it received.",
 ['inputs','schedules','histories'],'every interleaving of distributions, encryptions and deliveries over several members, senders and groups, every plaintext',
 "There is no group session test at all, only record bookkeeping.",
 [S+'group_cipher.go',S+'group_session.go',S+'group_state.go','protocol/senderkey/keys.go'],[('sender chain and skipped keys','session/group_cipher.go messageKey')],
 [('sender key record','up to 5 sender key states per sender and distribution','session.GroupRecord')],['GroupSession.*'])
p('C13','A group message is delivered at most once and state never rewinds',
 "At each member, a group message that was decrypted never decrypts again while the member retains the sender key, and is reported as a duplicate, and so are messages from before the member's starting point. While a sender key is retained, processing the same distribution again, or an older or a newer one of the same sender key, never rewinds or skips what the member can decrypt.",
 ['inputs','histories'],'every history with repeated and reordered deliveries and distributions',
 "No test replays a group message or processes a distribution twice through a session.",
 [S+'group_cipher.go',S+'group_record.go'],[('chain moves past the message','session/group_cipher.go messageKey'),('existing state kept','session/group_record.go AddState')],(),['GroupSession.DecryptMessage'])
p('C14','Only the sender of a group can produce its messages',
 "A member accepts a group message only if it was encrypted by the owner of the sender key whose distribution message it processed for that sender and group; messages with any byte changed, re-signed with another key, assembled by another member from its own copy of the sender key, or delivered under another sender, or claiming another group, are rejected with an error and never crash the process.",
 ['inputs','histories'],'every forgery by byte change, field change, splice or malicious member at every point',
 "No test tampers with a group message.",
 [S+'group_cipher.go','protocol/message/senderkey.go'],[('signature over the whole message','message/senderkey.go'),('no private key in distributions','message/senderkey.go')],(),['GroupSession.DecryptMessage'])
p('C15','Group windows and retained sender keys are bounded as documented',
 "A group message skipping at most 25,000 messages is accepted and one skipping more is rejected; the 2,000 most recent skipped keys are kept per sender key, and the 5 most recently added sender keys per sender and group. A new distribution with a known chain ID and the same signing key keeps the known state as the newest, one with a different signing key replaces it, messages under every retained sender key keep decrypting, and a sender uses the sender key added last.",
 ['inputs','histories'],'every gap, every sequence of distributions',
 "Tests look at the order of the record's states only.",
 [S+'group_record.go',S+'group_state.go',S+'group_cipher.go'],[('AddState','session/group_record.go'),('jump limit','session/group_cipher.go')],(),['GroupSession.*'])
p('C16','Addresses, devices, senders and groups do not interfere',
 "What is done for one address (name and device ID) has no effect on sessions or identity trust of any other address, and what is done for one sender and distribution ID has no effect on any other pair, however similar the names and IDs are.",
 ['inputs','histories','configurations'],'every interleaving of operations over many similar addresses and distribution IDs',
 "Tests use two addresses with different names.",
 [S+'store_inmem.go','protocol/identity/store_inmem.go','protocol/address/address.go','protocol/distribution/id.go'],[('records keyed by the whole address','session/store_inmem.go, identity/store_inmem.go')],(),['all stores'])
p('C17','A failing or crashing store never loses or doubles a message',
 "If any single store call or random read that an operation needs fails, or the process dies between two store calls, the operation reports an error or returns nothing, and a ciphertext or plaintext is returned only after the session it advanced has been stored. Afterwards retrying the operation, or continuing with other messages, works as if each stored item had either been updated completely or not at all: no message key is ever used for two released ciphertexts, no message is returned twice, and a one-time pre-key is never gone before the session it served is stored.",
 ['fault_sequences','crash_points'],'every store call of every operation failing or being the last before a crash, followed by any history',
 "No test has a failing store.",
 [S+'cipher.go',S+'session.go',S+'group_cipher.go',S+'group_session.go'],[('store before return; delete the pre-key last','session/cipher.go')],(),['store interfaces'])
p('C18','Message encodings round-trip and parsers reject the rest cleanly',
 "Every message the library builds parses back from its bytes to the same type, version, identifiers, counters, keys and ciphertext. Parsing any other byte string either gives a message whose fields are those of the encoding or an error (wrong version, too short, missing or malformed key, malformed group ID), and never a crash, and leaves the given bytes unchanged.",
 ['inputs'],'every field value and every byte string',
 "Tests parse a few messages they have just built.",
 ['protocol/message/signal.go','protocol/message/prekey.go','protocol/message/senderkey.go','protocol/message/plaintext.go','protocol/curve/public.go','protocol/distribution/id.go'],[('parsers','message/*.go New*FromBytes')],(),['message.New*'])
p('C19','Safety numbers agree exactly when both sides see the same keys',
 "Two users who compute the fingerprint over the same two (identifier, identity key) pairs, each from their own side, see the same 60-digit number and their scannable codes match in both directions; if any identifier, key or (for the displayed number) iteration count differs, neither matches. Comparing codes of different versions is an error, the displayed number does not depend on the version, and invalid iteration counts and truncated inputs are errors.",
 ['inputs'],'every pair of identifiers and keys, version and iteration count on both sides',
 "Tests use one fixed pair and one random pair.",
 ['protocol/fingerprint/fingerprint.go','protocol/fingerprint/scannable.go','protocol/fingerprint/displayable.go','protocol/fingerprint/encode.go'],[('iterated hash over version, key and identifier','fingerprint/fingerprint.go')],(),['fingerprint.New','Scannable.Compare'])
p('C20','Signatures and key agreement do what they promise for every key',
 "For every key pair, a signature verifies under the signer's public key over exactly the signed bytes (however they are split) and under no other key pair's, also with an independent XEdDSA verifier, and any change to a signature makes it fail; two signatures share a nonce only if key, message and random bytes are the same. The two sides of a key agreement get the same secret, and different keys give different secrets; alternate-identity signatures bind both identities in one direction. Keys survive encoding and decoding, equality of keys is equality of their bytes, and wrong lengths, wrong key types, low-order points and wrong-sized signatures are rejected without crashing.",
 ['inputs'],'every key, message, split and corruption',
 "Tests use 50 random keys and single-bit flips of one fixed signature.",
 ['protocol/curve/curve25519/curve25519.go','protocol/curve/pair.go','protocol/curve/public.go','protocol/identity/keys.go'],[('XEdDSA and X25519','curve/curve25519')],(),['curve','identity.KeyPair'])
p('C21','The built-in stores return what was stored, and only that',
 "Each built-in store behaves as a map: loading gives the value last stored under exactly that key and not deleted or cleared since, and reports absence otherwise. Changing a loaded session or group record has no effect until it is stored, the identity store reports a replacement exactly when a different key was known, and trusts exactly unknown addresses and the stored key.",
 ['histories','inputs'],'every sequence of store operations over similar keys',
 "There is no test of the session, group or pre-key stores.",
 [S+'store_inmem.go','protocol/identity/store_inmem.go','protocol/prekey/store_inmem.go','protocol/protocol/store_inmem.go'],[('maps with copies on load','*/store_inmem.go')],(),['store interfaces'])
p('C22','A rejected group operation changes nothing',
 "If processing a distribution, encrypting or decrypting for a group fails, then every stored sender key record is exactly as before: whatever could be decrypted still can be, and the next message encrypted is the one that would have been. The caller's buffers are never modified.",
 ['inputs','histories'],'every failing group operation at every point of every history',
 "Tests never continue after a failure.",
 [S+'group_cipher.go',S+'group_session.go',S+'store_inmem.go'],[('changes are made on copies and stored on success','session/group_cipher.go')],(),['session.GroupStore'])
p('C23','Keys follow the published Signal key schedule',
 "Every ciphertext the library produces, 1:1 or group, decrypts and authenticates under exactly the keys that the published X3DH, Double Ratchet and Sender Key derivations (version 3) give for the participants' private keys at that point of the history, and every group distribution carries the chain key of that schedule.",
 ['inputs','histories'],'every message of every history',
 "The tests pin one chain-key vector; a change applied to both sides passes all round-trip tests.",
 ['protocol/ratchet/ratchet.go','protocol/ratchet/keys.go','protocol/senderkey/keys.go',S+'session.go'],[('HKDF/HMAC derivations and their labels','ratchet/keys.go, senderkey/keys.go')],(),['message bytes'])
p('C24','A session restored from its stored form behaves identically',
 "Serialising a session state at any moment and continuing with what is read back behaves exactly like continuing with the original: the same messages decrypt, the same are refused, and what is sent next has the same type, counters and keys. This includes archived sessions, skipped keys and pending set-up data with every ID and registration ID.",
 ['histories','crash_points'],'every history with a restart at every point',
 "No test serialises a session.",
 [S+'record.go',S+'state.go','protocol/generated/v1/storage.pb.go'],[('protobuf storage structures','session/state.go Bytes, session/record.go NewRecordBytes')],(),['State.Bytes','NewRecordBytes'])
p('C25','A stolen group state reveals no past messages and cannot sign',
 "From everything a group member stores for a sender, an attacker with all recorded ciphertexts can derive neither the key of a message the member already decrypted nor of one from before the member joined, and cannot produce a message other members accept. A sender's stored state does not reveal the messages it has already sent, and once a sender has changed to a new sender key, what anyone stores of the old one reveals nothing sent later.",
 ['histories'],'every history, every moment of compromise, every recorded message',
 "No test looks at what stored state would give away.",
 [S+'group_state.go',S+'group_cipher.go','protocol/senderkey/keys.go'],[('one-way chain; skipped keys removed on use; only public signing keys distributed','session/group_state.go')],(),['session.GroupStore'])
p('C26','Message encryption is inverse to decryption and padding is exact',
 "Encrypting any byte string and decrypting the result with the same key and IV gives back the same bytes, and ciphertexts are the shortest whole number of blocks longer than the plaintext. Decryption rejects empty, partial-block and wrongly padded input and wrong key or IV sizes with an error, and neither direction changes its inputs.",
 ['inputs'],'every plaintext length and content, every last block',
 "Tests use one plaintext and a few paddings.",
 ['protocol/crypto/aes/aes.go'],[('PKCS #7','crypto/aes/aes.go')],(),['aes.CBCEncrypt','aes.CBCDecrypt'])
p('C27','Session and group records keep exactly the newest of what they are given',
 "A session record keeps the 40 states archived last, oldest first, moves states between current and archived exactly as told without altering them, and reports a state for exactly the versions and base keys it holds. A session state keeps the newest 5 receiving chains and per chain the newest 2000 skipped keys, each of which can be taken once; a group record keeps one state per chain ID, the 5 added last, of which the last is the current one, where adding a state it has keeps the one it has, and likewise the newest 2000 skipped keys per state.",
 ['histories','inputs'],'every sequence of operations on records, states and copies of them, for every limit and every place in the sequence',
 "One test fills a group record; session records and states have none.",
 [S+'record.go',S+'state.go',S+'group_record.go',S+'group_state.go'],[('bounded lists of states, chains and keys','session/record.go, state.go, group_record.go, group_state.go')],
 (),['session.Record','session.State','session.GroupRecord','session.GroupState'])
p('C28','Devices can be used at the same time without affecting each other',
 "Devices with stores of their own can be used from different goroutines at the same time: every operation yields and stores what it would when done alone. Values that several of them use at once (keys, key pairs, bundles, messages, distribution messages, fingerprints, byte strings) are only read, what an operation returned is not touched by later ones, and the library has no state of its own which is accessed without synchronisation.",
 ['schedules'],'every combination of operations on different devices, every interleaving, including the first operations of a process',
 "The tests use one goroutine.",
 [S+'session.go',S+'cipher.go',S+'group_cipher.go','protocol/ratchet/keys.go','protocol/senderkey/keys.go','protocol/curve/djb_private.go','protocol/curve/djb_public.go','protocol/crypto/aes/aes.go','protocol/message/signal.go','protocol/message/prekey.go','protocol/message/senderkey.go','protocol/identity/keys.go'],
 [('no package variables are written; keys and messages do not change once made','protocol/')],(),['Session.*','GroupSession.*','curve.*','message.*'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))
