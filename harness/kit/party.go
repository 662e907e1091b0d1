package kit

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/state/store"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
	"github.com/prospik/libsignal-protocol-go/util/medium"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

// Serializer returns the library's serializer for a wire encoding.
func Serializer(json bool) *serialize.Serializer {
	if json {
		return serialize.NewJSONSerializer()
	}
	return serialize.NewProtoBufSerializer()
}

// Mixed returns a serializer that stores in the other encoding than it sends in.
func Mixed(json bool) *serialize.Serializer {
	wire, stored := Serializer(json), Serializer(!json)
	ser := serialize.NewSerializer()
	*ser = *stored
	ser.SignalMessage, ser.PreKeySignalMessage = wire.SignalMessage, wire.PreKeySignalMessage
	ser.SenderKeyMessage, ser.SenderKeyDistributionMessage = wire.SenderKeyMessage, wire.SenderKeyDistributionMessage
	return ser
}

// Party is a user of the library.
type Party struct {
	Addr  Addr
	ID    *identity.KeyPair
	Reg   uint32
	Store *Store
	Ser   *serialize.Serializer

	signed  map[uint32]*record.SignedPreKey
	nextPre uint32
	nextSPK uint32
	anyIDs  bool

	// Apart makes the party build its objects of separate stores.
	Apart bool
	// ByHand makes the party decrypt with the parts of the library that
	// decrypting is made of.
	ByHand bool

	// Touched, if set, is told when the library changes a buffer of the caller
	// or depends on one that changed after a call. It makes every buffer that
	// goes in or comes out be overwritten afterwards.
	Touched func(what string)

	builders map[Addr]*session.Builder
	ciphers  map[Addr]*session.Cipher
	group    *groups.SessionBuilder
	gciphers map[SKName]*groups.GroupCipher
}

// NewParty makes a user with an identity; prekeys are made with bundles.
func NewParty(addr Addr, ser *serialize.Serializer, serialising bool) *Party {
	id, err := keyhelper.GenerateIdentityKeyPair()
	if err != nil {
		panic(err)
	}
	p := &Party{Addr: addr, ID: id, Reg: keyhelper.GenerateRegistrationID(), Ser: ser, nextPre: 1, nextSPK: 1}
	p.Store = NewStore(ser, id, p.Reg, serialising)
	p.signed = map[uint32]*record.SignedPreKey{}
	p.Restart()
	return p
}

// Restart drops all objects that are not stores.
func (p *Party) Restart() {
	p.builders, p.ciphers = map[Addr]*session.Builder{}, map[Addr]*session.Cipher{}
	p.group, p.gciphers = nil, map[SKName]*groups.GroupCipher{}
}

// IDBytes returns the encoded identity key.
func (p *Party) IDBytes() []byte { return p.ID.PublicKey().PublicKey().Serialize() }

func (p *Party) Builder(a Addr) *session.Builder {
	if p.builders[a] == nil {
		if p.Apart {
			p.builders[a] = session.NewBuilder(struct{ store.Session }{p.Store}, struct{ store.PreKey }{p.Store}, struct{ store.SignedPreKey }{p.Store}, struct{ store.IdentityKey }{p.Store}, a.Signal(), p.Ser)
		} else {
			p.builders[a] = session.NewBuilderFromSignal(p.Store, a.Signal(), p.Ser)
		}
	}
	return p.builders[a]
}

func (p *Party) Cipher(a Addr) *session.Cipher {
	if p.ciphers[a] == nil {
		p.ciphers[a] = session.NewCipher(p.Builder(a), a.Signal())
	}
	return p.ciphers[a]
}

// PreKind says which one-time prekey a bundle has.
type PreKind int

const (
	OneTime PreKind = iota
	NoPre
	LastResort
)

func (k PreKind) String() string { return [...]string{"one-time", "none", "last-resort"}[k] }

// BundleParts are the ingredients of a bundle, for altering them.
type BundleParts struct {
	Reg, Dev uint32
	PreID    *optional.Uint32
	Pre      ecc.ECPublicKeyable
	SPKID    uint32
	SPK      ecc.ECPublicKeyable
	Sig      [64]byte
	ID       *identity.Key
}

func (b *BundleParts) Bundle() *prekey.Bundle {
	return prekey.NewBundle(b.Reg, b.Dev, b.PreID, b.SPKID, b.Pre, b.SPK, b.Sig, b.ID)
}

// NewSignedPreKey makes and stores another signed prekey.
func (p *Party) NewSignedPreKey() uint32 {
	id := p.nextSPK
	p.nextSPK++
	k, err := keyhelper.GenerateSignedPreKey(p.ID, id, p.Ser.SignedPreKeyRecord)
	if err != nil {
		panic(err)
	}
	// The timestamp is the wall clock's; replace it to keep runs reproducible.
	k = record.NewSignedPreKey(id, 1600000000+int64(id), k.KeyPair(), k.Signature(), p.Ser.SignedPreKeyRecord)
	p.signed[id] = k
	p.Store.StoreSignedPreKey(id, k)
	return id
}

// Share makes a party use a serializer that others use as well.
func (p *Party) Share(ser *serialize.Serializer) {
	p.Ser, p.Store.ser = ser, ser
	p.Restart()
}

// SetIDs makes a party that has no prekeys yet use other numbers.
func (p *Party) SetIDs(reg, pre, spk uint32) {
	p.Reg, p.Store.reg, p.nextPre, p.nextSPK, p.anyIDs = reg, reg, pre, spk, true
}

// SPKPair returns a signed prekey's pair.
func (p *Party) SPKPair(id uint32) *ecc.ECKeyPair { return p.signed[id].KeyPair() }

// NewBundle makes a bundle with a new one-time prekey (or none, or the
// last-resort one) and the newest signed prekey.
func (p *Party) NewBundle(kind PreKind) *BundleParts {
	if len(p.signed) == 0 {
		p.NewSignedPreKey()
	}
	spk := p.signed[p.nextSPK-1]
	b := &BundleParts{Reg: p.Reg, Dev: p.Addr.Dev, PreID: optional.NewEmptyUint32(), SPKID: spk.ID(),
		SPK: spk.KeyPair().PublicKey(), Sig: spk.Signature(), ID: p.ID.PublicKey()}
	switch kind {
	case OneTime:
		if p.anyIDs {
			k, err := ecc.GenerateKeyPair()
			if err != nil {
				panic(err)
			}
			if p.nextPre == medium.MaxValue {
				p.nextPre++
			}
			r := record.NewPreKey(p.nextPre, k, p.Ser.PreKeyRecord)
			p.nextPre++
			p.Store.StorePreKey(r.ID().Value, r)
			b.PreID, b.Pre = r.ID(), k.PublicKey()
			return b
		}
		ks, err := keyhelper.GeneratePreKeys(int(p.nextPre), 1, p.Ser.PreKeyRecord)
		if err != nil {
			panic(err)
		}
		p.nextPre++
		p.Store.StorePreKey(ks[0].ID().Value, ks[0])
		b.PreID, b.Pre = ks[0].ID(), ks[0].KeyPair().PublicKey()
	case LastResort:
		if !p.Store.HasPreKey(medium.MaxValue) {
			k, err := keyhelper.GenerateLastResortKey(p.Ser.PreKeyRecord)
			if err != nil {
				panic(err)
			}
			p.Store.StorePreKey(k.ID().Value, k)
		}
		k := p.Store.LoadPreKey(medium.MaxValue)
		b.PreID, b.Pre = k.ID(), k.KeyPair().PublicKey()
	}
	return b
}

// Refill makes a bundle with a new one-time prekey under a number that was used
// before.
func (p *Party) Refill(id uint32) *BundleParts {
	next, any := p.nextPre, p.anyIDs
	p.nextPre, p.anyIDs = id, true
	b := p.NewBundle(OneTime)
	p.nextPre, p.anyIDs = next, any
	return b
}

// Wire is a message as bytes with its type.
type Wire struct {
	Pre   bool
	Bytes []byte
}

func (w Wire) String() string { return fmt.Sprintf("pre=%v %s", w.Pre, hex.EncodeToString(w.Bytes)) }

func typeOf(m protocol.CiphertextMessage) bool { return m.Type() == protocol.PREKEY_TYPE }

// lend returns a copy of a buffer to give to the library, with spare capacity,
// and a function to call after, which checks that it was not changed, and
// overwrites it.
func (p *Party) lend(b []byte) ([]byte, func(what string)) {
	if p.Touched == nil || b == nil {
		return b, func(string) {}
	}
	const spare = 70
	full := make([]byte, len(b)+spare)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xc3
	}
	want := clone(full)
	return full[:len(b)], func(what string) {
		if !bytes.Equal(full, want) {
			p.Touched(what + " was changed")
		}
		Overwrite(full)
	}
}

// Watch sets Touched for the party and its store.
func (p *Party) Watch(f func(what string)) { p.Touched, p.Store.touched = f, f }

// Overwrite changes every byte of a buffer.
func Overwrite(b []byte) {
	for i := range b {
		b[i] = b[i]*5 + 0x77
	}
}

// take copies a buffer that the library returned, and overwrites it.
func (p *Party) take(b []byte) []byte {
	c := clone(b)
	if p.Touched != nil {
		Overwrite(b[:cap(b)])
	}
	return c
}

// takeTwice takes the result of a function that must give the same again.
func (p *Party) takeTwice(what string, f func() []byte) []byte {
	b := p.take(f())
	if p.Touched != nil && !bytes.Equal(b, f()) {
		p.Touched(what + " depends on a buffer that was returned before")
	}
	return b
}

// Encrypt encrypts for an address.
func (p *Party) Encrypt(to Addr, pt []byte) (w Wire, err error) {
	defer hear(&err)
	in, done := p.lend(pt)
	m, err := p.Cipher(to).Encrypt(in)
	done("the plaintext")
	if err != nil {
		return Wire{}, err
	}
	if m == nil {
		return Wire{}, errors.New("no message and no error")
	}
	return Wire{typeOf(m), p.takeTwice("the message", m.Serialize)}, nil
}

// ParsePre parses a session-establishing message.
func (p *Party) ParsePre(b []byte) (pm *protocol.PreKeySignalMessage, err error) {
	defer hear(&err)
	in, done := p.lend(clone(b))
	defer done("the bytes of an establishing message")
	return protocol.NewPreKeySignalMessageFromBytes(in, p.Ser.PreKeySignalMessage, p.Ser.SignalMessage)
}

// ParseSig parses an ordinary message.
func (p *Party) ParseSig(b []byte) (sm *protocol.SignalMessage, err error) {
	defer hear(&err)
	in, done := p.lend(clone(b))
	defer done("the bytes of a message")
	return protocol.NewSignalMessageFromBytes(in, p.Ser.SignalMessage)
}

// Inner returns the ordinary message within w.
func (p *Party) Inner(w Wire) (*protocol.SignalMessage, error) {
	if !w.Pre {
		return p.ParseSig(w.Bytes)
	}
	m, err := p.ParsePre(w.Bytes)
	if err != nil {
		return nil, err
	}
	return m.WhisperMessage(), nil
}

// Decrypt decrypts a message of an address.
func (p *Party) Decrypt(from Addr, w Wire) (pt []byte, err error) {
	defer hear(&err)
	if w.Pre {
		m, err := p.ParsePre(w.Bytes)
		if err != nil {
			return nil, err
		}
		defer p.unchanged("an establishing message", m.Serialize)()
		if p.ByHand {
			pt, _, err := p.byHand(from, m, nil)
			return pt, err
		}
		pt, err = p.Cipher(from).DecryptMessage(m)
		return p.take(pt), err
	}
	m, err := p.ParseSig(w.Bytes)
	if err != nil {
		return nil, err
	}
	defer p.unchanged("a message", m.Serialize)()
	if p.ByHand {
		pt, _, err := p.byHand(from, nil, m)
		return pt, err
	}
	pt, err = p.Cipher(from).Decrypt(m)
	return p.take(pt), err
}

// heldIdentities holds back what is saved.
type heldIdentities struct {
	store.IdentityKey
	saved []*identity.Key
}

func (h *heldIdentities) SaveIdentity(a *protocol.SignalAddress, k *identity.Key) {
	h.saved = append(h.saved, k)
}

// byHand decrypts with the parts of the library: building the session from an
// establishing message, decrypting with a record, and storing. It needs a
// serialising store.
func (p *Party) byHand(from Addr, pm *protocol.PreKeySignalMessage, sm *protocol.SignalMessage) ([]byte, *message.Keys, error) {
	a := from.Signal()
	if pm == nil && !p.Store.ContainsSession(a) {
		return nil, nil, errors.New("no session")
	}
	r := p.Store.LoadSession(a)
	held := &heldIdentities{IdentityKey: p.Store}
	b := session.NewBuilder(p.Store, p.Store, p.Store, held, a, p.Ser)
	used := optional.NewEmptyUint32()
	if pm != nil {
		var err error
		if used, err = b.Process(r, pm); err != nil {
			if len(held.saved) > 0 {
				err = fmt.Errorf("an identity was saved although: %v", err)
			}
			return nil, nil, err
		}
		if n := len(held.saved); n == 0 || !bytes.Equal(held.saved[n-1].PublicKey().Serialize(), pm.IdentityKey().PublicKey().Serialize()) {
			panic("building a session of an establishing message does not save its identity")
		}
		sm = pm.WhisperMessage()
	}
	pt, k, err := session.NewCipher(b, a).DecryptWithRecord(r, sm)
	if err != nil {
		return nil, nil, err
	}
	if pm != nil && !bytes.Equal(r.SessionState().SenderBaseKey(), pm.BaseKey().Serialize()) {
		return nil, nil, errors.New("another session")
	}
	p.Store.SaveIdentity(a, r.SessionState().RemoteIdentityKey())
	p.Store.StoreSession(a, r)
	if !used.IsEmpty {
		p.Store.RemovePreKey(used.Value)
	}
	return pt, k, nil
}

// unchanged checks that an object is not changed by an operation.
func (p *Party) unchanged(what string, f func() []byte) func() {
	if p.Touched == nil {
		return func() {}
	}
	before := clone(f())
	return func() {
		if !bytes.Equal(before, f()) {
			p.Touched(what + " was changed by decrypting it")
		}
	}
}

// DecryptKey decrypts a message and returns its key as well.
func (p *Party) DecryptKey(from Addr, w Wire) (pt []byte, k *message.Keys, err error) {
	defer hear(&err)
	if w.Pre {
		m, err := p.ParsePre(w.Bytes)
		if err != nil {
			return nil, nil, err
		}
		if p.ByHand {
			return p.byHand(from, m, nil)
		}
		return p.Cipher(from).DecryptMessageReturnKey(m)
	}
	m, err := p.ParseSig(w.Bytes)
	if err != nil {
		return nil, nil, err
	}
	if p.ByHand {
		return p.byHand(from, nil, m)
	}
	return p.Cipher(from).DecryptAndGetKey(m)
}

// Session re-reads the stored session structure for an address, or nil.
func (p *Party) Session(a Addr) *record.SessionStructure {
	b := p.Store.SessionBytes(a)
	if b == nil {
		return nil
	}
	st, err := p.Ser.Session.Deserialize(b)
	if err != nil {
		panic(err)
	}
	return st
}

// Current names the session that is used for sending to an address, by its
// base key, or "".
func (p *Party) Current(a Addr) string {
	st := p.Session(a)
	if st == nil || st.SessionState == nil {
		return ""
	}
	return hex.EncodeToString(st.SessionState.SenderBaseKey)
}

// GroupBuilder returns the party's group session builder.
func (p *Party) GroupBuilder() *groups.SessionBuilder {
	if p.group == nil {
		p.group = groups.NewGroupSessionBuilder(p.Store, p.Ser)
	}
	return p.group
}

// GroupCipher returns a group cipher for a sending key.
func (p *Party) GroupCipher(n SKName) *groups.GroupCipher {
	if p.gciphers[n] == nil {
		p.gciphers[n] = groups.NewGroupCipher(p.GroupBuilder(), n.Signal(), p.Store)
	}
	return p.gciphers[n]
}

// GroupCreate makes a distribution message of the party's sending key.
func (p *Party) GroupCreate(n SKName) (out []byte, err error) {
	defer hear(&err)
	m, err := p.GroupBuilder().Create(n.Signal())
	if err != nil {
		return nil, err
	}
	return p.takeTwice("the distribution message", m.Serialize), nil
}

// GroupProcess processes a distribution message.
func (p *Party) GroupProcess(n SKName, b []byte) (err error) {
	defer hear(&err)
	in, done := p.lend(clone(b))
	m, err := protocol.NewSenderKeyDistributionMessageFromBytes(in, p.Ser.SenderKeyDistributionMessage)
	done("the bytes of a distribution message")
	if err != nil {
		return err
	}
	after := p.unchanged("a distribution message", m.Serialize)
	p.GroupBuilder().Process(n.Signal(), m)
	after()
	return nil
}

// GroupEncrypt encrypts with a sending key. It returns the message with its
// signature, as it goes over the wire.
func (p *Party) GroupEncrypt(n SKName, pt []byte) (out []byte, err error) {
	defer hear(&err)
	in, done := p.lend(pt)
	m, err := p.GroupCipher(n).Encrypt(in)
	done("the plaintext")
	if err != nil {
		return nil, err
	}
	p.takeTwice("the unsigned message", m.Serialize)
	return p.takeTwice("the message", m.(*protocol.SenderKeyMessage).SignedSerialize), nil
}

// GroupDecrypt decrypts a group message.
func (p *Party) GroupDecrypt(n SKName, b []byte) (pt []byte, err error) {
	defer hear(&err)
	in, done := p.lend(clone(b))
	m, err := protocol.NewSenderKeyMessageFromBytes(in, p.Ser.SenderKeyMessage)
	done("the bytes of a message")
	if err != nil {
		return nil, err
	}
	defer p.unchanged("a message", m.SignedSerialize)()
	pt, err = p.GroupCipher(n).Decrypt(m)
	return p.take(pt), err
}
