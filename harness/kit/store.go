package kit

import (
	"bytes"
	"fmt"
	"sort"

	groupRecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

// Addr identifies a peer by value.
type Addr struct {
	Name string
	Dev  uint32
}

func AddrOf(a *protocol.SignalAddress) Addr { return Addr{a.Name(), a.DeviceID()} }
func (a Addr) Signal() *protocol.SignalAddress {
	return protocol.NewSignalAddress(a.Name, a.Dev)
}

// SKName identifies a sending key by value.
type SKName struct {
	Group  string
	Sender Addr
}

func (n SKName) Signal() *protocol.SenderKeyName {
	return protocol.NewSenderKeyName(n.Group, n.Sender.Signal())
}

func skNameOf(n *protocol.SenderKeyName) SKName { return SKName{n.GroupID(), AddrOf(n.Sender())} }

// Crash is the panic value of an injected crash.
type Crash struct {
	Call  int
	Name  string
	After bool
}

// Store implements all store interfaces of the library. In serialising mode
// it keeps bytes and re-reads them on every load; otherwise it keeps and hands
// out live records, as the library's own in-memory stores do.
type Store struct {
	Serialising bool
	Pin         bool // trust on first use; otherwise all identities are trusted

	ser *serialize.Serializer
	own *identity.KeyPair
	reg uint32

	sessB map[Addr][]byte
	sessP map[Addr]*record.Session
	preB  map[uint32][]byte
	preP  map[uint32]*record.PreKey
	spkB  map[uint32][]byte
	spkP  map[uint32]*record.SignedPreKey
	ids   map[Addr][33]byte
	skB   map[SKName][]byte
	skP   map[SKName]*groupRecord.SenderKey

	// Calls is the trace of store accesses since the last reset.
	Calls []string
	// CrashAt makes the n-th access from now (1 is the next one) panic,
	// before or after it took effect.
	CrashAt    int
	CrashAfter bool
	touched    func(what string)
}

func NewStore(ser *serialize.Serializer, own *identity.KeyPair, reg uint32, serialising bool) *Store {
	s := &Store{Serialising: serialising, ser: ser, own: own, reg: reg}
	s.sessB, s.sessP = map[Addr][]byte{}, map[Addr]*record.Session{}
	s.preB, s.preP = map[uint32][]byte{}, map[uint32]*record.PreKey{}
	s.spkB, s.spkP = map[uint32][]byte{}, map[uint32]*record.SignedPreKey{}
	s.ids = map[Addr][33]byte{}
	s.skB, s.skP = map[SKName][]byte{}, map[SKName]*groupRecord.SenderKey{}
	return s
}

func (s *Store) call(name string, f func()) {
	s.Calls = append(s.Calls, name)
	if s.CrashAt > 0 {
		s.CrashAt--
		if s.CrashAt == 0 {
			if s.CrashAfter {
				f()
			}
			panic(&Crash{len(s.Calls), name, s.CrashAfter})
		}
	}
	f()
}

// lender checks what happens to buffers, if that is wanted.
func (s *Store) lender() *Party { return &Party{Touched: s.touched} }

func (s *Store) must(err error) {
	if err != nil {
		panic(fmt.Sprintf("a stored record cannot be read back: %v", err))
	}
}

// Identities.

func (s *Store) GetIdentityKeyPair() *identity.KeyPair { return s.own }
func (s *Store) GetLocalRegistrationId() uint32        { return s.reg }

func idBytes(k *identity.Key) (b [33]byte) { copy(b[:], k.PublicKey().Serialize()); return }

func (s *Store) SaveIdentity(a *protocol.SignalAddress, k *identity.Key) {
	s.call("SaveIdentity", func() { s.ids[AddrOf(a)] = idBytes(k) })
}

func (s *Store) IsTrustedIdentity(a *protocol.SignalAddress, k *identity.Key) bool {
	r := true
	s.call("IsTrustedIdentity", func() {
		if have, ok := s.ids[AddrOf(a)]; ok && s.Pin {
			r = have == idBytes(k)
		}
	})
	return r
}

// Identity returns the recorded identity of an address.
func (s *Store) Identity(a Addr) ([33]byte, bool) { b, ok := s.ids[a]; return b, ok }

// ForgetIdentity removes the recorded identity of an address.
func (s *Store) ForgetIdentity(a Addr) { delete(s.ids, a) }

// Sessions.

func (s *Store) LoadSession(a *protocol.SignalAddress) (r *record.Session) {
	s.call("LoadSession", func() {
		k := AddrOf(a)
		if s.Serialising {
			if b, ok := s.sessB[k]; ok {
				in, done := s.lender().lend(clone(b))
				rec, err := record.NewSessionFromBytes(in, s.ser.Session, s.ser.State)
				done("the bytes of a session")
				s.must(err)
				r = rec
				return
			}
		} else if rec, ok := s.sessP[k]; ok {
			r = rec
			return
		}
		r = record.NewSession(s.ser.Session, s.ser.State)
	})
	return r
}

func (s *Store) GetSubDeviceSessions(name string) []uint32 {
	var out []uint32
	s.call("GetSubDeviceSessions", func() {
		for k := range s.sessB {
			if k.Name == name && k.Dev != 1 {
				out = append(out, k.Dev)
			}
		}
		for k := range s.sessP {
			if k.Name == name && k.Dev != 1 {
				out = append(out, k.Dev)
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	})
	return out
}

func (s *Store) StoreSession(a *protocol.SignalAddress, r *record.Session) {
	s.call("StoreSession", func() {
		if s.Serialising {
			s.sessB[AddrOf(a)] = s.lender().takeTwice("a stored record", r.Serialize)
		} else {
			s.sessP[AddrOf(a)] = r
		}
	})
}

func (s *Store) ContainsSession(a *protocol.SignalAddress) (r bool) {
	s.call("ContainsSession", func() {
		_, r = s.sessB[AddrOf(a)]
		if !r {
			_, r = s.sessP[AddrOf(a)]
		}
	})
	return r
}

func (s *Store) DeleteSession(a *protocol.SignalAddress) {
	s.call("DeleteSession", func() { delete(s.sessB, AddrOf(a)); delete(s.sessP, AddrOf(a)) })
}

func (s *Store) DeleteAllSessions() {
	s.call("DeleteAllSessions", func() {
		s.sessB, s.sessP = map[Addr][]byte{}, map[Addr]*record.Session{}
	})
}

// Prekeys.

func (s *Store) LoadPreKey(id uint32) (r *record.PreKey) {
	s.call("LoadPreKey", func() {
		if s.Serialising {
			if b, ok := s.preB[id]; ok {
				in, done := s.lender().lend(clone(b))
				rec, err := record.NewPreKeyFromBytes(in, s.ser.PreKeyRecord)
				done("the bytes of a prekey")
				s.must(err)
				r = rec
			}
			return
		}
		r = s.preP[id]
	})
	return r
}

func (s *Store) StorePreKey(id uint32, r *record.PreKey) {
	s.call("StorePreKey", func() {
		if s.Serialising {
			s.preB[id] = s.lender().takeTwice("a stored record", r.Serialize)
		} else {
			s.preP[id] = r
		}
	})
}

func (s *Store) ContainsPreKey(id uint32) (r bool) {
	s.call("ContainsPreKey", func() { r = s.HasPreKey(id) })
	return r
}

// HasPreKey looks without being an access of the library.
func (s *Store) HasPreKey(id uint32) bool {
	_, a := s.preB[id]
	_, b := s.preP[id]
	return a || b
}

func (s *Store) RemovePreKey(id uint32) {
	s.call("RemovePreKey", func() { delete(s.preB, id); delete(s.preP, id) })
}

// Signed prekeys.

func (s *Store) LoadSignedPreKey(id uint32) (r *record.SignedPreKey) {
	s.call("LoadSignedPreKey", func() {
		if s.Serialising {
			if b, ok := s.spkB[id]; ok {
				in, done := s.lender().lend(clone(b))
				rec, err := record.NewSignedPreKeyFromBytes(in, s.ser.SignedPreKeyRecord)
				done("the bytes of a signed prekey")
				s.must(err)
				r = rec
			}
			return
		}
		r = s.spkP[id]
	})
	return r
}

func (s *Store) LoadSignedPreKeys() (out []*record.SignedPreKey) {
	ids := map[uint32]bool{}
	for id := range s.spkB {
		ids[id] = true
	}
	for id := range s.spkP {
		ids[id] = true
	}
	for id := range ids {
		out = append(out, s.LoadSignedPreKey(id))
	}
	return out
}

func (s *Store) StoreSignedPreKey(id uint32, r *record.SignedPreKey) {
	s.call("StoreSignedPreKey", func() {
		if s.Serialising {
			s.spkB[id] = s.lender().takeTwice("a stored record", r.Serialize)
		} else {
			s.spkP[id] = r
		}
	})
}

func (s *Store) ContainsSignedPreKey(id uint32) (r bool) {
	s.call("ContainsSignedPreKey", func() {
		_, a := s.spkB[id]
		_, b := s.spkP[id]
		r = a || b
	})
	return r
}

func (s *Store) RemoveSignedPreKey(id uint32) {
	s.call("RemoveSignedPreKey", func() { delete(s.spkB, id); delete(s.spkP, id) })
}

// Sender keys.

func (s *Store) StoreSenderKey(n *protocol.SenderKeyName, r *groupRecord.SenderKey) {
	s.call("StoreSenderKey", func() {
		if s.Serialising {
			s.skB[skNameOf(n)] = s.lender().takeTwice("a stored record", r.Serialize)
		} else {
			s.skP[skNameOf(n)] = r
		}
	})
}

func (s *Store) LoadSenderKey(n *protocol.SenderKeyName) (r *groupRecord.SenderKey) {
	s.call("LoadSenderKey", func() {
		if s.Serialising {
			if b, ok := s.skB[skNameOf(n)]; ok {
				in, done := s.lender().lend(clone(b))
				rec, err := groupRecord.NewSenderKeyFromBytes(in, s.ser.SenderKeyRecord, s.ser.SenderKeyState)
				done("the bytes of a sender key")
				s.must(err)
				r = rec
			}
			return
		}
		r = s.skP[skNameOf(n)]
	})
	return r
}

// DeleteSenderKey removes a sending key.
func (s *Store) DeleteSenderKey(n SKName) { delete(s.skB, n); delete(s.skP, n) }

// SessionBytes returns the serialised session of an address.
func (s *Store) SessionBytes(a Addr) []byte {
	if s.Serialising {
		return clone(s.sessB[a])
	}
	if r, ok := s.sessP[a]; ok {
		return r.Serialize()
	}
	return nil
}

// SenderKeyBytes returns the serialised sender key record.
func (s *Store) SenderKeyBytes(n SKName) []byte {
	if s.Serialising {
		return clone(s.skB[n])
	}
	if r, ok := s.skP[n]; ok {
		return r.Serialize()
	}
	return nil
}

// Snapshot describes the whole contents of the store by value.
func (s *Store) Snapshot() map[string][]byte {
	m := map[string][]byte{}
	for a, b := range s.sessB {
		m[fmt.Sprintf("session %s/%d", a.Name, a.Dev)] = clone(b)
	}
	for a, r := range s.sessP {
		m[fmt.Sprintf("session %s/%d", a.Name, a.Dev)] = clone(r.Serialize())
	}
	for id, b := range s.preB {
		m[fmt.Sprintf("prekey %d", id)] = clone(b)
	}
	for id, r := range s.preP {
		m[fmt.Sprintf("prekey %d", id)] = clone(r.Serialize())
	}
	for id, b := range s.spkB {
		m[fmt.Sprintf("signed prekey %d", id)] = clone(b)
	}
	for id, r := range s.spkP {
		m[fmt.Sprintf("signed prekey %d", id)] = clone(r.Serialize())
	}
	for a, b := range s.ids {
		m[fmt.Sprintf("identity %s/%d", a.Name, a.Dev)] = clone(b[:])
	}
	for n, b := range s.skB {
		m[fmt.Sprintf("sender key %s/%s/%d", n.Group, n.Sender.Name, n.Sender.Dev)] = clone(b)
	}
	for n, r := range s.skP {
		m[fmt.Sprintf("sender key %s/%s/%d", n.Group, n.Sender.Name, n.Sender.Dev)] = clone(r.Serialize())
	}
	return m
}

// Diff names the first difference between two snapshots, or "".
func Diff(a, b map[string][]byte) string {
	var keys []string
	for k := range a {
		keys = append(keys, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		x, okx := a[k]
		y, oky := b[k]
		switch {
		case !okx:
			return k + " appeared"
		case !oky:
			return k + " disappeared"
		case !bytes.Equal(x, y):
			return fmt.Sprintf("%s changed\n from %s\n to   %s", k, clip(x), clip(y))
		}
	}
	return ""
}

func clip(b []byte) string {
	if len(b) > 1500 {
		return string(b[:1500]) + "..."
	}
	return string(b)
}

// Clone copies the store by value (records are re-read from their bytes).
func (s *Store) Clone() *Store {
	c := NewStore(s.ser, s.own, s.reg, s.Serialising)
	c.Pin = s.Pin
	for k, v := range s.sessB {
		c.sessB[k] = clone(v)
	}
	for k, v := range s.preB {
		c.preB[k] = clone(v)
	}
	for k, v := range s.spkB {
		c.spkB[k] = clone(v)
	}
	for k, v := range s.skB {
		c.skB[k] = clone(v)
	}
	for k, v := range s.ids {
		c.ids[k] = v
	}
	for k, v := range s.sessP {
		r, err := record.NewSessionFromBytes(v.Serialize(), s.ser.Session, s.ser.State)
		s.must(err)
		c.sessP[k] = r
	}
	for k, v := range s.preP {
		r, err := record.NewPreKeyFromBytes(v.Serialize(), s.ser.PreKeyRecord)
		s.must(err)
		c.preP[k] = r
	}
	for k, v := range s.spkP {
		r, err := record.NewSignedPreKeyFromBytes(v.Serialize(), s.ser.SignedPreKeyRecord)
		s.must(err)
		c.spkP[k] = r
	}
	for k, v := range s.skP {
		r, err := groupRecord.NewSenderKeyFromBytes(v.Serialize(), s.ser.SenderKeyRecord, s.ser.SenderKeyState)
		s.must(err)
		c.skP[k] = r
	}
	return c
}

// Restore makes the store's contents those of c, which must not be used again.
func (s *Store) Restore(c *Store) {
	s.sessB, s.sessP, s.preB, s.preP = c.sessB, c.sessP, c.preB, c.preP
	s.spkB, s.spkP, s.ids, s.skB, s.skP = c.spkB, c.spkP, c.ids, c.skB, c.skP
	s.CrashAt, s.Calls = 0, nil
}

// Reload re-reads all live records from their bytes.
func (s *Store) Reload() { s.Restore(s.Clone()) }

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// Clone copies bytes.
func Clone(b []byte) []byte { return clone(b) }
