import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over.split(),text=text),why_tests_cant=why,
      anchors=dict(files=files.split(),state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))

S="session/cipher.go"; B="session/session.go"; ST="state/record/state_session.go"; RS="state/record/session.go"
p("C01","Every genuine message decrypts, in whatever order it arrives",
"For two parties with a session, every message one of them encrypts decrypts at the other to exactly the plaintext that was encrypted, whatever the order in which messages of both directions are delivered and however many other messages are lost, provided it was not delivered before and lies within the documented windows (at most 5000 messages ahead, the newest 2000 skipped keys of a chain, the 5 newest receiving chains). Both parties can go on sending after any such history.",
"schedules histories","all interleavings of sends and deliveries in both directions with loss, reordering, delay and bursts, over several ratchet turns; all plaintext sizes including empty",
"The tests send a few messages in order and one fixed batch in one shuffled order; they never interleave directions with delayed messages of older chains over several ratchet turns.",
f"{S} {ST} ratchet/ratchet.go keys/root/key.go keys/chain/key.go",
[("receiver chains found by ratchet key; new ones created by a DH ratchet step",S+" getOrCreateChainKey"),("skipped message keys stored per chain",S+" getOrCreateMessageKeys"),("chain bookkeeping",ST)],
[("receiverChains","receiving chains with their skipped message keys",ST),("senderChain","current sending chain",ST)],["Cipher.Encrypt","Cipher.Decrypt","Cipher.DecryptMessage"])
p("C02","A message is accepted at most once",
"Once a pairwise message has been decrypted, delivering the same bytes again - immediately or after any further history, including repeats of session-establishing messages - never yields a plaintext again. A rejected repeat changes nothing: messages still outstanding keep decrypting.",
"schedules histories","all delivery schedules with duplicates, of ordinary and of session-establishing messages, with and without a one-time prekey, across ratchet turns, archived sessions and store reloads",
"One test re-delivers one message; replay of skipped keys, of old chains, of archived sessions and of establishing messages without a one-time prekey is not tried.",
f"{S} {B} {ST} {RS}",
[("message keys are removed when used and chain keys only advance",S+" getOrCreateMessageKeys"),("an establishing message is matched to its session by base key and version",RS+" HasSessionState"),("one-time prekeys are removed",S+" DecryptMessageReturnKey")],None,["Cipher.Decrypt","Cipher.DecryptMessage"])
p("C03","Altered, forged or misdirected messages never yield a wrong plaintext",
"A message that is not byte-for-byte what the peer produced for this session is either rejected or decrypts to exactly the plaintext of the genuine message it was made from, and every change to its authenticated part (ciphertext, counters, ratchet key, authentication code) is rejected. The same holds for messages made by splicing parts of genuine messages, for messages of other sessions, reflected to their sender, or delivered to another party.",
"inputs histories","all mutations (bit flips, truncation, extension, field substitution, splicing, re-encoding) of messages of all ages and types, and all cross-deliveries",
"No test alters a message.",
f"{S} protocol/signal_message.go protocol/prekey_signal_message.go serialize/proto.go",
[("MAC over both identity keys and the serialised message",'protocol/signal_message.go getMac, VerifyMac'),("MAC verified before decryption",S+" DecryptWithState")],None,["Cipher.Decrypt","Cipher.DecryptMessage"])
p("C04","A rejected pairwise message leaves the stored state untouched",
"When decrypting a message or an establishing message fails for any reason, the session, prekeys, signed prekeys and recorded identities in the stores are exactly what they were before, so every message that could be decrypted before still can be. This holds for stores that hand out live records as well as for stores that serialise them.",
"inputs histories","all rejected inputs (corrupted, forged, replayed, too far ahead, unknown keys, untrusted identity) at all points of a conversation, both store styles",
"The tests contain one rejected duplicate and do not compare state before and after.",
f"{S} {B} {ST} {RS}",
[("decryption works on copies that are written back on success",S+" DecryptWithState, DecryptMessageReturnKey"),("stores are written after success only",S)],None,["store contents before and after a failed call"])
p("C05","Both sides of a key agreement derive the same secret, bound to every key",
"For all key pairs, the initiator's and the responder's key agreement (with or without a one-time prekey, and the symmetric variant with either side first) derive equal root and chain keys, equal to what the X3DH specification prescribes. Changing any one participating key pair, or leaving out the one-time prekey, changes the derived keys.",
"inputs","all identity, base, signed prekey, one-time prekey and ratchet key pairs, including base keys that share leading bytes",
"The tests run a handful of random agreements and only observe that a message decrypts, so both sides may leave out or repeat a Diffie-Hellman input unnoticed.",
"ratchet/ratchet.go ratchet/sender.go ratchet/receiver.go ratchet/symmetric.go keys/session/derived_secrets.go",
[("order and choice of DH inputs","ratchet/ratchet.go CalculateSenderSession, CalculateReceiverSession, CalculateSymmetricSession"),("role choice of symmetric sessions","ratchet/ratchet.go isSender")],None,["ratchet.Calculate*Session"])
p("C06","Pairwise sessions interoperate with an independent Signal implementation",
"A peer that implements X3DH and the Double Ratchet independently, following the published specification and the version-3 wire format, can establish sessions with this library in either role and exchange messages with it in any order, and each side's messages have exactly the keys, counters, encoding and authentication code the other expects.",
"histories inputs","all conversations between the library and a reference peer: both roles, with and without one-time prekey, arbitrary interleavings with loss and reordering",
"All tests run the library against itself, so a change made on both sides (a constant, a field number, an omitted MAC input) goes unnoticed.",
f"{S} {B} ratchet/ratchet.go serialize/proto.go protocol/signal_message.go protocol/prekey_signal_message.go keys/chain/key.go keys/root/key.go kdf/hkdf.go cipher/cbc.go",
[("wire encoding","serialize/proto.go"),("key derivation","keys/root/key.go, keys/chain/key.go, kdf/hkdf.go")],None,["message bytes"])
p("C07","Stored session state does not reveal past messages",
"After a message has been sent or received, the session state in the store no longer contains, and its chain and root keys can no longer derive, the key that decrypts that message; only keys of skipped messages that have not arrived are kept. This also holds for archived sessions.",
"histories","all conversation histories, looking at both parties' stored records after every step and trying every key in or derivable from them on every past message",
"Tests never inspect the stored record for keys of past messages.",
f"{S} {ST} keys/chain/key.go",
[("chain key replaced by its one-way successor on use",S+" Encrypt, getOrCreateMessageKeys"),("used skipped keys are removed",ST+" RemoveMessageKeys")],None,["serialised session record"])
p("C08","Keys are never reused and every reply turns the ratchet with a fresh key",
"No two messages that a party ever sends are encrypted or authenticated under the same key, and within one session no ratchet key and counter pair occurs twice. The first message a party sends after receiving a new ratchet key carries a ratchet key never used before and starts a chain that cannot be computed from the previous state without fresh randomness; messages in between continue the chain with counters increasing by one from zero, and announce the length of the previous chain (minus one, or zero).",
"histories","all conversation histories, over all messages either party produced; forks of a saved state with different randomness",
"Tests do not look at ratchet keys, counters or message keys of outgoing messages.",
f"{S} {ST} ecc/curve.go",
[("new key pair at each receiving ratchet step",S+" getOrCreateChainKey"),("chain advanced and stored at each encryption",S+" Encrypt")],None,["outgoing messages","message keys"])
p("C09","Sessions are only built from bundles whose signed prekey is authentic",
"Building a session from a prekey bundle succeeds for every honest bundle and fails for every bundle whose signed prekey is missing, altered, unsigned, or signed by a key other than the bundle's identity key, or whose identity key is not trusted. A rejected bundle changes no session, identity or prekey in the stores.",
"inputs histories","all bundles derived from honest ones by changing or swapping any field, processed in any state of the conversation",
"Tests only process honest bundles.",
f"{B} keys/prekey/bundle.go ecc/curve.go",
[("signature check before any state change",B+" ProcessBundle")],None,["Builder.ProcessBundle","stores"])
p("C10","Identities are trusted on first use and pinned afterwards",
"The identity key of the peer of every established session is recorded for that address, both when a bundle is processed and when an establishing message is decrypted, and is exactly the identity that authenticated the session. With a store that pins the first identity, no bundle or establishing message under another identity establishes a session or changes anything until the pinned identity is removed, also when it is forged or replayed.",
"histories inputs","all sequences of bundles and establishing messages of peers and of impostors using the same address, before and after identity changes",
"No test has a second identity for an address.",
f"{B} {S} state/store/identity.go",
[("trust check before a session is built",B+" process, ProcessBundle"),("identity saved after success only",S+" DecryptMessageReturnKey")],None,["identity store"])
p("C11","One-time prekeys are consumed exactly once, by a decrypted message",
"A one-time prekey is removed from the store when the first message that uses it has been decrypted, and at no other time: other prekeys, the last-resort prekey and signed prekeys stay. A second session can never be established with a consumed prekey, sessions without a one-time prekey work, and an establishing message that names an unknown prekey or signed prekey is rejected without side effects.",
"histories inputs","all histories of initiations by several peers, with one-time prekeys, the last-resort prekey or none, in any order, replayed, corrupted, or naming unknown ids",
"Tests use one prekey once and never look at the prekey store.",
f"{B} {S} util/medium/medium.go util/optional/int.go serialize/proto.go",
[("prekey id returned unless absent or last resort",B+" processV3"),("removal after decryption and after storing the session",S+" DecryptMessageReturnKey")],None,["prekey store"])
p("C12","Several sessions with one peer coexist and converge",
"When both parties initiate at once, or sessions are re-established any number of times, every message sent in any of the newest forty earlier sessions still decrypts, the session that decrypted last becomes the one used for sending, and no live session is lost or duplicated by such switches. After each party has received a message sent after its own last initiation, both use the same session and the conversation goes on.",
"histories schedules","all interleavings of re-initiations by either side, sends and delayed deliveries across sessions, including more than forty archived sessions",
"One test has a single simultaneous initiation without delayed messages.",
f"{S} {B} {RS}",
[("current state archived before a new one is made",RS+" ArchiveCurrentState"),("archived session promoted when it decrypts",RS+" PromoteState"),("previous states are tried in turn",S+" DecryptWithRecord")],[("previousStates","archived sessions, newest first",RS)],["stored record","Cipher.Decrypt"])
p("C13","Windows for skipped messages are exact and storage is bounded",
"A message exactly 5000 ahead of the receiving chain is accepted and one 5001 ahead is rejected without effect; of the skipped messages of a chain exactly the newest 2000 remain decryptable, and messages of the five newest receiving chains and of the forty newest archived sessions do. Whatever a peer sends, the stored session never exceeds these bounds.",
"histories inputs","all gap sizes around the limits, single and accumulated, over several chains and sessions",
"Tests skip at most a few messages.",
f"{S} {ST} {RS}",
[("future limit",S+" getOrCreateMessageKeys"),("skipped key limit, chain limit",ST+" SetMessageKeys, AddReceiverChain"),("archive limit",RS+" ArchiveCurrentState, PromoteState")],None,["serialised session record"])
p("C14","Every message type round-trips through every wire encoding",
"For all field values, serialising a message with the protocol-buffer or the JSON encoding and parsing it again yields a message with the same fields and the same bytes, and parsing is a function of the bytes only. Parsing bytes of a version up to 1 or above 3 is an error, and no pairwise message of a version other than 3 is ever decrypted.",
"inputs","all field values incl. zero and maximal integers, absent and present prekey ids, empty and large bodies; all four message types, both encodings; all version bytes",
"Tests parse a few messages they just produced and compare plaintexts only.",
"serialize/proto.go serialize/json.go protocol/signal_message.go protocol/prekey_signal_message.go protocol/sender_key_message.go protocol/sender_key_distribution_message.go",
[("field by field encoding","serialize/proto.go, serialize/json.go"),("version check","protocol/*FromStruct")],None,["Serialize","New*FromBytes"])
p("C15","Stored records read back equal to what was written",
"Serialising a session, session state, prekey, signed prekey, sender key or sender key state and reading it back gives a record that serialises to the same bytes, has the same observable content and behaves the same in every later operation.",
"inputs histories","all records reachable by conversations plus generated field values (ids, timestamps, absent prekey ids, receive-only sender keys, skipped keys, archived sessions)",
"Tests round-trip one record of each kind and look at few fields.",
f"{ST} {RS} state/record/state_chain.go state/record/prekey.go state/record/signed_prekey.go state/record/state_pending_prekey.go state/record/unacknowledged_prekey.go groups/state/record/sender_key.go groups/state/record/state_sender_key.go serialize/json.go",
[("structure conversion both ways","state/record/*.go, groups/state/record/*.go")],None,["Serialize","New*FromBytes"])
p("C16","Saving and reloading never changes behaviour",
"A party whose store serialises and re-reads every record behaves exactly as a party whose store hands out the same live objects, and the choice between protocol-buffer and JSON messages makes no difference to what is accepted or decrypted: given the same operations and randomness, all produce the same plaintexts, errors and stored records.",
"histories configurations","all operation histories run in lock step over store styles and message encodings, with reloads of all objects at arbitrary points",
"The tests' stores never serialise, and no test compares configurations.",
f"{S} {B} {RS} {ST} groups/cipher.go groups/state/record/sender_key.go",
[("records carry all state",RS),("copying of records",RS+" Copy")],None,["plaintexts, errors and records of all configurations"])
p("C17","No input bytes crash the parsers or the operations fed by them",
"Parsing arbitrary bytes as any message or record type, in either encoding, and feeding whatever parses to decryption, session building, group processing, key decoding or provisioning ends in a result or an error, never in a panic or unbounded work.",
"inputs","all byte strings: random, structured, truncated and mutated valid encodings, and structurally valid records or messages with arbitrary field lengths, at any state of a session",
"Tests only parse valid inputs.",
f"serialize/proto.go serialize/json.go protocol/signal_message.go protocol/prekey_signal_message.go protocol/sender_key_message.go protocol/sender_key_distribution_message.go ecc/curve.go {RS} {ST} groups/state/record/sender_key.go groups/cipher.go {S} provision/cipher.go util/bytehelper/byte.go",
[("length and presence checks","protocol/*.go, serialize/*.go, ecc/curve.go DecodePoint")],None,["New*FromBytes","Decrypt"])
p("C18","Every group message decrypts at every member, in any order",
"Every message a group member encrypts decrypts, at every member whose first processed distribution message of that sending key was created no later than the message, to exactly the plaintext, whatever the order of arrival and losses, provided it was not delivered before and lies within the documented windows (2000 ahead, newest 2000 skipped keys). Re-creating or re-processing a distribution message in between disturbs neither sending nor receiving.",
"schedules histories","all schedules of sends by several members, deliveries to several members with loss and reordering, late joins, repeated and out-of-date distribution messages, key rotations, store reloads",
"Tests deliver a short in-order batch and one shuffled batch to one member.",
"groups/cipher.go groups/session_builder.go groups/state/record/sender_key.go groups/state/record/state_sender_key.go groups/ratchet/sender_chain_key.go",
[("chain advanced with skipped keys stored","groups/cipher.go getSenderKey"),("state found by key id","groups/state/record/sender_key.go GetSenderKeyStateByID")],None,["GroupCipher.Encrypt","GroupCipher.Decrypt"])
p("C19","Only a sending key's owner speaks in its name; rejects change nothing",
"A group message is accepted only if its key id, iteration and ciphertext are exactly what the owner of the sending key it names has signed: altered messages and messages made by other members, who know the chain key but not the signing key, are rejected. A rejected message leaves the stored sender keys as they were, so genuine messages keep decrypting, and a member that only received a sending key can never send with it.",
"inputs histories","all mutations and forgeries at all points of a group's history, both store styles",
"No test alters or forges a group message.",
"groups/cipher.go protocol/sender_key_message.go groups/state/record/state_sender_key.go ecc/curve.go",
[("signature verified before keys are touched","groups/cipher.go Decrypt"),("signature covers version, id, iteration and ciphertext","protocol/sender_key_message.go SignedSerialize")],None,["GroupCipher.Decrypt","sender key store"])
p("C20","Group messages are accepted once, and past ones stay closed",
"A group message that a member decrypted is never accepted by it again, and a member who joins with a distribution message made after some messages cannot decrypt those. No key remains in, or can be derived from, a member's stored sender keys for a message that it has sent or received, or that precedes what it was given.",
"histories schedules","all histories with duplicates, late joins and rotations; every key in or derivable from the stored record tried on every past message",
"One test re-delivers nothing in groups; stored keys are never inspected.",
"groups/cipher.go groups/session_builder.go groups/state/record/state_sender_key.go groups/ratchet/sender_chain_key.go",
[("chain key replaced by its successor","groups/cipher.go"),("used keys removed","groups/state/record/state_sender_key.go RemoveSenderMessageKey")],None,["GroupCipher.Decrypt","serialised sender key record"])
p("C21","Group windows are exact and senders and groups are isolated",
"A group message exactly 2000 ahead is accepted and one 2001 ahead rejected without effect, exactly the newest 2000 skipped keys of a sending key are kept, and the newest 2000 sending keys of a sender. Operations for one group and sender never affect the keys of another group or sender, and messages under an older sending key of the same sender still decrypt after rotation.",
"histories inputs","all gap sizes around the limits; all interleavings of several groups, senders and rotated keys over one store",
"Tests have one group, one sender and no gaps.",
"groups/cipher.go groups/state/record/sender_key.go groups/state/record/state_sender_key.go protocol/sender_key_name.go",
[("limits","groups/cipher.go getSenderKey, groups/state/record/*.go")],None,["sender key store","GroupCipher.Decrypt"])
p("C22","Signatures verify exactly when genuine",
"For every private key and message, the signature computed verifies under the matching public key, also in an independent XEdDSA verifier, and verification accepts a signature made by an independent XEdDSA signer. A signature never verifies after changing any bit of the message or the signature, nor under another key, signing does not alter its inputs, and even with a repeating random source signatures of different messages or under different keys never share a nonce.",
"inputs","all keys, all messages of all lengths, all single-bit and structured changes (scalar plus group order, small-order points, swapped halves)",
"One test signs and verifies with one key and one message.",
"ecc/sign_curve25519.go ecc/curve.go ecc/edwards25519/edwards25519.go",
[("XEdDSA signing and verification","ecc/sign_curve25519.go")],None,["ecc.CalculateSignature","ecc.VerifySignature"])
p("C23","Curve arithmetic and key encoding agree with the standard",
"Key generation, public key derivation and shared secrets agree with X25519 as standardised for all keys, the shared secret is the same from both sides, and key encodings decode to the same key: decoding reads a type byte and 32 bytes, whose unused top bit is ignored, rejects everything shorter or of another type, and distinct keys have distinct encodings. Field and group operations agree with exact integer arithmetic.",
"inputs","all private keys incl. unclamped, all public keys incl. non-canonical and small-order points, all encodings and offsets",
"Tests use a couple of random keys and never compare with an independent implementation.",
"ecc/curve.go ecc/djb_ec_public.go ecc/djb_ec_private.go kdf/hkdf.go ecc/edwards25519/edwards25519.go keys/identity/key.go",
[("clamping, DH","ecc/curve.go, kdf/hkdf.go"),("encoding","ecc/curve.go DecodePoint")],None,["ecc.*","kdf.CalculateSharedSecret"])
p("C24","Key derivation follows the specification",
"For all inputs, key derivation and the root, chain, message and group chain steps give exactly the bytes prescribed (HKDF-SHA256 with the protocol's labels and HMAC-SHA256 chains), with indices increasing by one, and leave their inputs unchanged.",
"inputs","all keys, salts, labels, lengths and indices, and chains of many steps",
"A few tests check single fixed vectors.",
"kdf/hkdf.go keys/root/key.go keys/chain/key.go keys/message/key.go keys/session/derived_secrets.go groups/ratchet/sender_chain_key.go groups/ratchet/sender_message_key.go",
[("HKDF","kdf/hkdf.go"),("chains","keys/chain/key.go, groups/ratchet/*.go")],None,["derived bytes"])
p("C25","Block encryption is standard AES-CBC and rejects everything malformed",
"Encrypting gives exactly AES-CBC with PKCS#7 padding, decrypting inverts it for every plaintext, key and initialisation vector, and ciphertexts whose length or padding is not valid, and keys or vectors of wrong length, are errors. Neither direction changes its inputs or panics.",
"inputs","all keys (16, 24, 32 bytes and invalid lengths), vectors, plaintexts of all lengths, all ciphertext bytes",
"One test encrypts and decrypts one text.",
"cipher/cbc.go cipher/cipher.go",
[("padding and length checks","cipher/cbc.go, cipher/cipher.go")],None,["cipher.EncryptCbc","cipher.DecryptCbc","cipher.Encrypt","cipher.Decrypt"])
p("C26","Provisioning envelopes open only for their key and only unaltered",
"An envelope made for a device by an independent implementation of the provisioning format opens with the device's private key to exactly the message, for all messages and keys. With another key, with any byte of the envelope's body or sender key changed, with a version other than the one known, or for any malformed input, opening is an error, never a panic or another message.",
"inputs","all key pairs, all message bodies, all single-byte changes, truncations and extensions, arbitrary base64 and JSON",
"There is no test of provisioning beyond one fixed envelope.",
"provision/cipher.go kdf/hkdf.go",
[("MAC check before decryption","provision/cipher.go Decrypt")],None,["provision.Decrypt"])
p("C27","The displayed fingerprint is the same on both sides and reflects every byte",
"Both parties of a conversation see the same sixty-digit safety number, whoever is local, and the number consists of decimal digits that are exactly the specified function of the two fingerprints. Changing any of the thirty significant bytes of either fingerprint changes the number unless the specified function itself maps both to the same digits. The text of an identity key shows every byte of its serialised form in hexadecimal, so that two texts are equal exactly for equal keys.",
"inputs","all pairs of fingerprints of at least thirty bytes, including values needing zero padding",
"There is no test of the display.",
"fingerprint/display.go fingerprint/fingerprint.go util/bytehelper/byte.go keys/identity/key.go",
[("chunk encoding and ordering","fingerprint/display.go")],None,["Display.DisplayText"])
p("C28","Generated keys and identifiers are valid, in range and depend on all randomness",
"For every outcome of the random source, generated key pairs are valid and consistent, prekey batches have exactly the consecutive ids asked for with independent keys, the last-resort key has its reserved id, signed prekeys carry a signature that verifies under the identity, and registration ids lie in 1 to 16380. Distinct randomness gives distinct keys, and a failing random source is reported rather than yielding a predictable key.",
"inputs fault_sequences","all random streams (including all-zero, all-one and failing ones), all starts and counts",
"Tests generate one batch and check the count.",
"util/keyhelper/key.go ecc/curve.go util/medium/medium.go",
[("generation","util/keyhelper/key.go, ecc/curve.go GenerateKeyPair")],None,["keyhelper.*"])
p("C29","Establishing data is repeated until the peer has answered",
"Every message the initiator sends before it has decrypted a message in the session carries the complete establishing data - same base key, prekey ids, identity and registration id - so that whichever of them arrives first establishes the session, and from the first decrypted reply on messages no longer carry it. The responder never adds establishing data, and reports the peer's registration id and identity of the bundle or message faithfully.",
"schedules histories","all orders and losses of the first messages, failed decryptions in between, with and without one-time prekey, with reloads",
"Tests deliver the first message first.",
f"{S} {B} {ST} state/record/state_pending_prekey.go state/record/unacknowledged_prekey.go",
[("pending prekey kept in the state",ST+" SetUnacknowledgedPreKeyMessage, ClearUnackPreKeyMessage")],[("pendingPreKey","unacknowledged establishing data",ST)],["type and fields of outgoing messages"])
p("C30","Independent conversations can run concurrently",
"Operations on sessions, groups, signatures and key generation that share no store run concurrently without data races and with the same results as when run alone, also when they work with the same addresses, bundle, parsed messages, keys, serializer and other values that are only read, and the asynchronous helpers deliver exactly the result of their synchronous counterparts exactly once.",
"schedules","all workloads of concurrent independent parties sharing serializers and package state, under the race detector",
"Tests are single-threaded and not run under the race detector.",
"logger/logger.go logger/default.go serialize/serializer.go ecc/curve.go util/keyhelper/key.go",
[("no mutable package state on the operation paths","logger/logger.go, serialize/*.go"),("completion delivery","ecc/curve.go, util/keyhelper/key.go")],None,["race detector","results"])
p("C31","The returned message key is the one that decrypted the message, and only that",
"When decryption also returns the message key, that key decrypts exactly this message's ciphertext later and independently of the session's further history, its index is the message's counter, and no other message of the conversation can be decrypted with it. Returning the key has no other effect than decrypting alone.",
"histories","all conversations with keys kept from arbitrary messages and used after arbitrary further history, on every message",
"One test keeps one key.",
f"{S} keys/message/key.go",
[("keys returned by decryption",S+" DecryptAndGetKey, DecryptMessageReturnKey, DecryptWithKey")],None,["Cipher.DecryptAndGetKey","Cipher.DecryptWithKey"])
p("C32","A crash at any point of an operation loses at most that operation",
"If a party crashes just before or after any single store access of any operation and restarts from what its stores then hold, the operation can be repeated or the conversation continued: a message whose processing was interrupted decrypts when it is delivered again unless its session state had been stored, all other messages decrypt as before, and sending never reuses a key. In particular a one-time prekey is never lost before the session made with it is stored, and a session is never used for sending before it is stored.",
"crash_points histories","every store access of every operation (bundle, encrypt, decrypt, group create, process, encrypt, decrypt) at every state of generated histories, crash before and after",
"No test interrupts an operation.",
f"{S} {B} groups/cipher.go groups/session_builder.go",
[("order of store writes: session before prekey removal, state stored before the message is returned",S+", groups/cipher.go")],None,["store call sequence"])
p("C33","Sessions with different peers and devices do not affect each other",
"A party's sessions with different names or device ids are independent: any operation for one address leaves stored sessions, identities and outstanding messages of all other addresses unchanged, and messages only decrypt in the session they belong to. Address and group-sender names are faithful to the values they were made from.",
"histories inputs","all interleavings of conversations of one party with several names and devices, including similar names and equal device ids",
"Tests have one peer per party.",
f"{S} {B} protocol/signal_protocol_address.go protocol/sender_key_name.go",
[("every store access uses the remote address",S+", "+B)],None,["stores per address"])
p("C34","Caller's buffers are never modified and results never alias internal state",
"No operation changes the plaintexts, keys, ciphertexts or message bytes that a caller passes in, and modifying buffers passed in or handed out afterwards - plaintexts, serialised messages and records - does not change later behaviour; so it is with the parts that the byte helpers cut and with what a message tells of itself.",
"inputs histories","all operations of a conversation and all primitives with every input compared before and after and every output overwritten after use",
"Tests never look at inputs again nor modify outputs.",
f"{S} groups/cipher.go cipher/cbc.go cipher/cipher.go util/bytehelper/byte.go ecc/curve.go kdf/hkdf.go serialize/proto.go keys/message/key.go",
[("copies at the boundaries","util/bytehelper/byte.go CopySlice, "+S+" decrypt")],None,["buffers before and after calls"])
p("C35","Group messaging interoperates with an independent implementation",
"An independent implementation of sender keys following the published format can distribute its sending key to this library and read this library's group messages, and vice versa, in any order within the windows, with exactly the keys, iterations, encoding and signature each expects.",
"histories inputs","all group conversations between the library and a reference member in both roles, with loss, reordering and late joins",
"All tests run the library against itself.",
"groups/cipher.go groups/session_builder.go groups/ratchet/sender_chain_key.go groups/ratchet/sender_message_key.go serialize/proto.go protocol/sender_key_message.go protocol/sender_key_distribution_message.go",
[("wire encoding","serialize/proto.go"),("key derivation","groups/ratchet/*.go")],None,["message bytes"])
p("C36","Records hold exactly what the operations on them made of them",
"Session records and their states, and sender key records and theirs, behave as their operations say after every sequence of them: each getter, look-up and the serialised form shows exactly the fields, chains, kept message keys, archived sessions (newest first) and sender keys that were set and not removed or pushed out by the documented limits; taking a message key yields that key and removes only it; promoting a session moves it without losing or doubling one; a known sender key is not restarted; and copies are independent of their originals. Bundles, prekeys, addresses and the like keep holding exactly what they were made of.",
"inputs histories","all sequences of record operations over generated contents, from new, built and read-back records, at and beyond the limits",
"Tests use the records of one short conversation.",
f"{ST} state/record/session.go state/record/state_chain.go groups/state/record/sender_key.go groups/state/record/state_sender_key.go",
[("lists of chains, keys and states with limits",ST+", state/record/session.go, groups/state/record/*.go")],None,["record getters","Serialize"])
p("C37","Errors and logs never tell secrets",
"Neither the text of an error that an operation returns nor what the library logs as information, warning or error - and so nothing its own logger prints - contains a plaintext or a private, root, chain or message key.",
"histories inputs fault_sequences","all conversations and groups with manipulated, repeated and unreadable messages, rejected bundles, damaged records, unsuitable arguments and a failing random source",
"No test looks at error texts or logs.",
f"{S} {B} protocol/signal_message.go groups/cipher.go cipher/cbc.go serialize/json.go serialize/proto.go provision/cipher.go logger/logger.go logger/default.go",
[("fixed texts and causes in errors and logs",S+", serialize/*.go"),("debug output, which has keys, is not printed","logger/default.go Debug")],None,["error texts","logger"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
