package props

import (
	"bytes"
	"testing"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups/ratchet"
	groupRecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/root"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/bytehelper"
	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

func pubKey(b []byte) ecc.ECPublicKeyable {
	k, err := ecc.DecodePoint(kit.Clone(b), 0)
	if err != nil {
		panic(err)
	}
	return k
}

// someKey draws a public key, one like any other or one that differs from a
// known one in a single place.
func someKey(rt *rapid.T, label string, known ...[]byte) ecc.ECPublicKeyable {
	if len(known) > 0 && rapid.IntRange(0, 2).Draw(rt, label+" like") == 0 {
		b := rapid.SampledFrom(known).Draw(rt, label+" known")
		if len(b) == 33 {
			return pubKey(rapid.SampledFrom(near(b)).Draw(rt, label+" near"))
		}
	}
	return kit.Key(rt, label).PublicKey()
}

// ratchetKeys are those of a state.
func ratchetKeys(s *record.StateStructure) [][]byte {
	var l [][]byte
	for _, c := range s.ReceiverChains {
		l = append(l, c.SenderRatchetKeyPublic)
	}
	return l
}

func privOf(k *ecc.ECKeyPair) []byte {
	b := k.PrivateKey().Serialize()
	return kit.Clone(b[:])
}

// copyState makes a deep copy of a structure through the reference form.
func copyState(s *record.StateStructure) *record.StateStructure {
	c := *s
	c.ReceiverChains = nil
	for _, x := range s.ReceiverChains {
		y := *x
		y.MessageKeys = append([]*message.KeysStructure{}, x.MessageKeys...)
		c.ReceiverChains = append(c.ReceiverChains, &y)
	}
	y := *s.SenderChain
	c.SenderChain = &y
	return &c
}

// modelState is a state with the structure it must have.
type modelState struct {
	st *record.State
	s  *record.StateStructure
}

// chainOf is the receiving chain that is found for a key.
func (m *modelState) chainOf(k []byte) *record.ChainStructure {
	for _, c := range m.s.ReceiverChains {
		if bytes.Equal(c.SenderRatchetKeyPublic, k) {
			return c
		}
	}
	return nil
}

func setAll(st *record.State, s *record.StateStructure) {
	pair := func(pub, priv []byte) *ecc.ECKeyPair {
		return ecc.NewECKeyPair(pubKey(pub), ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(priv)))
	}
	st.SetLocalIdentityKey(identity.NewKey(pubKey(s.LocalIdentityPublic)))
	st.SetRemoteIdentityKey(identity.NewKey(pubKey(s.RemoteIdentityPublic)))
	st.SetLocalRegistrationID(s.LocalRegistrationID)
	st.SetRemoteRegistrationID(s.RemoteRegistrationID)
	st.SetPreviousCounter(s.PreviousCounter)
	st.SetRootKey(root.NewKey(kdf.DeriveSecrets, kit.Clone(s.RootKey)))
	st.SetSenderBaseKey(kit.Clone(s.SenderBaseKey))
	st.SetVersion(s.SessionVersion)
	st.SetSenderChain(pair(s.SenderChain.SenderRatchetKeyPublic, s.SenderChain.SenderRatchetKeyPrivate), chain.NewKey(kdf.DeriveSecrets, kit.Clone(s.SenderChain.ChainKey.Key), s.SenderChain.ChainKey.Index))
	for _, c := range s.ReceiverChains {
		st.AddReceiverChain(pubKey(c.SenderRatchetKeyPublic), chain.NewKey(kdf.DeriveSecrets, kit.Clone(c.ChainKey.Key), c.ChainKey.Index))
		for _, m := range c.MessageKeys {
			st.SetMessageKeys(pubKey(c.SenderRatchetKeyPublic), message.NewKeysFromStruct(m))
		}
	}
	if p := s.PendingPreKey; p != nil {
		st.SetUnacknowledgedPreKeyMessage(p.PreKeyID, p.SignedPreKeyID, pubKey(p.BaseKey))
	}
	if x := s.PendingKeyExchange; x != nil {
		raw := func(b []byte) ecc.ECPublicKeyable { return ecc.NewDjbECPublicKey(bytehelper.SliceToArray(b)) }
		priv := func(b []byte) ecc.ECPrivateKeyable { return ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(b)) }
		st.SetPendingKeyExchange(x.Sequence, ecc.NewECKeyPair(raw(x.LocalBaseKeyPublic), priv(x.LocalBaseKeyPrivate)),
			ecc.NewECKeyPair(raw(x.LocalRatchetKeyPublic), priv(x.LocalRatchetKeyPrivate)),
			identity.NewKeyPair(identity.NewKey(raw(x.LocalIdentityKeyPublic)), priv(x.LocalIdentityKeyPrivate)))
	}
}

// settable removes what the operations cannot make.
func settable(s *record.StateStructure) {
	s.NeedsRefresh, s.SenderChain.MessageKeys = false, nil
	var l []*record.ChainStructure
	seen := map[string]bool{}
	for _, c := range s.ReceiverChains {
		c.SenderRatchetKeyPrivate = nil
		if !seen[string(c.SenderRatchetKeyPublic)] {
			seen[string(c.SenderRatchetKeyPublic)] = true
			l = append(l, c)
		}
	}
	s.ReceiverChains = l
}

// newModelState makes a state, read from a structure or built by its operations.
func newModelState(rt *rapid.T, p *kit.Party) *modelState {
	s := genState(rt)
	if rapid.Bool().Draw(rt, "built") {
		settable(s)
		st := record.NewState(p.Ser.State)
		setAll(st, s)
		return &modelState{st, s}
	}
	st, err := record.NewStateFromStructure(s, p.Ser.State)
	if err != nil {
		rt.Fatal(err)
	}
	return &modelState{st, copyState(s)}
}

var stateOps = []string{"add chain", "keys", "keys", "bulk", "remove key", "remove key", "remove key", "receiver key", "sender chain", "sender key", "root", "previous", "version", "regs", "identities", "base", "exchange", "pend", "clear", "copy", "reload"}

// step does one operation on a state and on its structure.
func (m *modelState) step(rt *rapid.T, p *kit.Party, c *kit.Case) {
	op := rapid.SampledFrom(stateOps).Draw(rt, "op")
	c.Log("%s", op)
	c.Label(op)
	st, s := m.st, m.s
	pick := func() *record.ChainStructure {
		if len(s.ReceiverChains) == 0 {
			return nil
		}
		x := s.ReceiverChains[rapid.IntRange(0, len(s.ReceiverChains)-1).Draw(rt, "chain")]
		return m.chainOf(x.SenderRatchetKeyPublic)
	}
	newKeys := func() (*message.Keys, *message.KeysStructure) {
		k := &message.KeysStructure{CipherKey: kit.Bytes32().Draw(rt, "cipher"), MacKey: kit.Bytes32().Draw(rt, "mac"), IV: kit.BytesN(16).Draw(rt, "iv"), Index: u32(rt, "index")}
		return message.NewKeys(kit.Clone(k.CipherKey), kit.Clone(k.MacKey), kit.Clone(k.IV), k.Index), k
	}
	add := func(x *record.ChainStructure, k *message.KeysStructure) {
		x.MessageKeys = append(x.MessageKeys, k)
		if len(x.MessageKeys) > kit.MaxSkipped {
			x.MessageKeys = x.MessageKeys[1:]
		}
	}
	chainKey := func() (*chain.Key, *chain.KeyStructure) {
		k := &chain.KeyStructure{Key: kit.Bytes32().Draw(rt, "chain key"), Index: u32(rt, "index")}
		return chain.NewKey(kdf.DeriveSecrets, kit.Clone(k.Key), k.Index), k
	}
	switch op {
	case "add chain":
		k := someKey(rt, "ratchet", ratchetKeys(s)...)
		ck, x := chainKey()
		st.AddReceiverChain(k, ck)
		s.ReceiverChains = append(s.ReceiverChains, &record.ChainStructure{SenderRatchetKeyPublic: k.Serialize(), ChainKey: x})
		if len(s.ReceiverChains) > kit.MaxChains {
			s.ReceiverChains = s.ReceiverChains[1:]
		}
	case "keys":
		if x := pick(); x != nil {
			for i := rapid.IntRange(1, 4).Draw(rt, "n"); i > 0; i-- {
				k, ks := newKeys()
				st.SetMessageKeys(pubKey(x.SenderRatchetKeyPublic), k)
				add(x, ks)
			}
		}
	case "bulk":
		x := pick()
		if x == nil || rapid.IntRange(0, 29).Draw(rt, "rarely") != 0 {
			return
		}
		n := rapid.SampledFrom([]int{500, kit.MaxSkipped - 1, kit.MaxSkipped, kit.MaxSkipped + 3}).Draw(rt, "many")
		k := pubKey(x.SenderRatchetKeyPublic)
		from := u32(rt, "from")
		for i := 0; i < n; i++ {
			b := bytes.Repeat([]byte{byte(i), byte(i >> 8)}, 16)
			ks := &message.KeysStructure{CipherKey: b, MacKey: b, IV: b[:16], Index: from + uint32(i)}
			st.SetMessageKeys(k, message.NewKeys(kit.Clone(b), kit.Clone(b), kit.Clone(b[:16]), from+uint32(i)))
			add(x, ks)
		}
	case "remove key":
		x := pick()
		if x == nil || len(x.MessageKeys) == 0 {
			return
		}
		idx := x.MessageKeys[rapid.IntRange(0, len(x.MessageKeys)-1).Draw(rt, "key")].Index
		for i, k := range x.MessageKeys {
			if k.Index == idx {
				x.MessageKeys = append(append([]*message.KeysStructure{}, x.MessageKeys[:i]...), x.MessageKeys[i+1:]...)
				got := st.RemoveMessageKeys(pubKey(x.SenderRatchetKeyPublic), idx)
				if got == nil || got.Index() != idx || !bytes.Equal(got.CipherKey(), k.CipherKey) || !bytes.Equal(got.MacKey(), k.MacKey) || !bytes.Equal(got.Iv(), k.IV) {
					rt.Fatalf("removing the message key %d gives another one", idx)
				}
				break
			}
		}
	case "receiver key":
		if x := pick(); x != nil {
			ck, ks := chainKey()
			st.SetReceiverChainKey(pubKey(x.SenderRatchetKeyPublic), ck)
			x.ChainKey = ks
		}
	case "sender chain":
		k := kit.Key(rt, "ratchet")
		ck, ks := chainKey()
		st.SetSenderChain(k, ck)
		s.SenderChain = &record.ChainStructure{SenderRatchetKeyPublic: k.PublicKey().Serialize(), SenderRatchetKeyPrivate: privOf(k), ChainKey: ks}
	case "sender key":
		ck, ks := chainKey()
		st.SetSenderChainKey(ck)
		s.SenderChain.ChainKey = ks
	case "root":
		s.RootKey = kit.Bytes32().Draw(rt, "root")
		st.SetRootKey(root.NewKey(kdf.DeriveSecrets, kit.Clone(s.RootKey)))
	case "previous":
		s.PreviousCounter = u32(rt, "previous")
		st.SetPreviousCounter(s.PreviousCounter)
	case "version":
		s.SessionVersion = rapid.IntRange(0, 4).Draw(rt, "version")
		st.SetVersion(s.SessionVersion)
	case "regs":
		if rapid.Bool().Draw(rt, "local") {
			s.LocalRegistrationID = u32(rt, "reg")
			st.SetLocalRegistrationID(s.LocalRegistrationID)
		} else {
			s.RemoteRegistrationID = u32(rt, "reg")
			st.SetRemoteRegistrationID(s.RemoteRegistrationID)
		}
	case "identities":
		k := kit.Key(rt, "identity").PublicKey()
		if rapid.Bool().Draw(rt, "local") {
			s.LocalIdentityPublic = k.Serialize()
			st.SetLocalIdentityKey(identity.NewKey(k))
		} else {
			s.RemoteIdentityPublic = k.Serialize()
			st.SetRemoteIdentityKey(identity.NewKey(k))
		}
	case "base":
		s.SenderBaseKey = someKey(rt, "base", s.SenderBaseKey).Serialize()
		st.SetSenderBaseKey(kit.Clone(s.SenderBaseKey))
	case "exchange":
		a, b, i := kit.Key(rt, "x base"), kit.Key(rt, "x ratchet"), kit.Key(rt, "x identity")
		raw := func(k *ecc.ECKeyPair) []byte { p := k.PublicKey().PublicKey(); return kit.Clone(p[:]) }
		x := &record.PendingKeyExchangeStructure{Sequence: u32(rt, "sequence"), LocalBaseKeyPublic: raw(a), LocalBaseKeyPrivate: privOf(a),
			LocalRatchetKeyPublic: raw(b), LocalRatchetKeyPrivate: privOf(b), LocalIdentityKeyPublic: raw(i), LocalIdentityKeyPrivate: privOf(i)}
		st.SetPendingKeyExchange(x.Sequence, a, b, identity.NewKeyPair(identity.NewKey(i.PublicKey()), i.PrivateKey()))
		s.PendingKeyExchange = x
	case "pend":
		x := &record.PendingPreKeyStructure{PreKeyID: optID(rt), SignedPreKeyID: u32(rt, "spk"), BaseKey: kit.Key(rt, "base").PublicKey().Serialize()}
		st.SetUnacknowledgedPreKeyMessage(x.PreKeyID, x.SignedPreKeyID, pubKey(x.BaseKey))
		s.PendingPreKey = x
	case "clear":
		st.ClearUnackPreKeyMessage()
		s.PendingPreKey = nil
	case "copy":
		// Go on with a copy, or with the original after changing the copy.
		x, ok := any(st).(interface{ Copy() *record.State })
		if !ok {
			return
		}
		o := &modelState{x.Copy(), copyState(s)}
		if rapid.Bool().Draw(rt, "original") {
			o.st, m.st = m.st, o.st
		}
		for i := rapid.IntRange(1, 4).Draw(rt, "changes"); i > 0; i-- {
			o.step(rt, p, c)
		}
		o.check(rt, p)
	case "reload":
		x, err := record.NewStateFromBytes(st.Serialize(), p.Ser.State)
		if err != nil {
			rt.Fatalf("a state cannot be read back: %v", err)
		}
		m.st = x
	}
}

// check compares a state with its structure.
func (m *modelState) check(rt *rapid.T, p *kit.Party) {
	checkState(rt, m.st, m.s)
	back, err := p.Ser.State.Deserialize(m.st.Serialize())
	if err != nil {
		rt.Fatal(err)
	}
	if x, y := norm(m.s), norm(back); x != y {
		rt.Fatalf("the state has become\n%s\nexpected\n%s", y, x)
	}
}

func recordParty(rt *rapid.T) *kit.Party {
	kit.Seed(rt)
	return kit.NewParty(kit.Addr{Name: "A", Dev: 1}, kit.Serializer(rapid.Bool().Draw(rt, "json")), true)
}

func TestC36_States(t *testing.T) {
	kit.Run(t, 2500, "1 to 25 generated operations on a session state, built by operations or read from a structure; after each, all getters and the serialised form must be those of a model of the fields, chains and message keys, and copies must be independent; non-trivial: at least 5 operations", func(rt *rapid.T, c *kit.Case) {
		p := recordParty(rt)
		m := newModelState(rt, p)
		m.check(rt, p)
		n := rapid.IntRange(1, 25).Draw(rt, "operations")
		for i := 0; i < n; i++ {
			m.step(rt, p, c)
			m.check(rt, p)
		}
		if n >= 5 {
			c.Nontrivial()
		}
	})
}

func TestC36_Sessions(t *testing.T) {
	kit.Run(t, 2500, "1 to 60 generated operations on a session record (archive, promote an archived or new state, replace the state, change states, copy, read back); after each, the current and archived states, their order and contents and the known base keys must be those of a model; non-trivial: at least 2 archived states", func(rt *rapid.T, c *kit.Case) {
		p := recordParty(rt)
		r := record.NewSession(p.Ser.Session, p.Ser.State)
		if !r.IsFresh() || len(r.PreviousSessionStates()) != 0 || r.SessionState() == nil || r.SessionState().HasSenderChain() {
			rt.Fatalf("a new record is not fresh")
		}
		var cur *record.StateStructure
		var old []*record.StateStructure
		switch rapid.IntRange(0, 3).Draw(rt, "start") {
		case 0:
			cur = genState(rt)
			st, err := record.NewStateFromStructure(cur, p.Ser.State)
			if err != nil {
				rt.Fatal(err)
			}
			r = record.NewSessionFromState(st, p.Ser.Session)
		case 1:
			cur = genState(rt)
			settable(cur)
			setAll(r.SessionState(), cur)
		}
		var gone [][]byte
		trim := func() {
			if len(old) > kit.MaxArchived {
				gone = append(gone, old[kit.MaxArchived].SenderBaseKey)
				old = old[:kit.MaxArchived]
			}
		}
		archive := func() {
			if cur != nil {
				old = append([]*record.StateStructure{cur}, old...)
			}
		}
		check := func() {
			if len(r.PreviousSessionStates()) != len(old) {
				rt.Fatalf("there are %d archived states, expected %d", len(r.PreviousSessionStates()), len(old))
			}
			if cur != nil {
				(&modelState{r.SessionState(), cur}).check(rt, p)
				if r.IsFresh() {
					rt.Fatalf("a record with a session is fresh")
				}
			} else if r.SessionState() == nil || r.SessionState().HasSenderChain() {
				rt.Fatalf("there is a current session, expected none")
			}
			known := map[string]bool{}
			for i, s := range old {
				checkState(rt, r.PreviousSessionStates()[i], s)
				if i == len(old)/2 {
					(&modelState{r.PreviousSessionStates()[i], s}).check(rt, p)
				}
				known[string(s.SenderBaseKey)+string(rune(s.SessionVersion))] = true
			}
			if cur != nil {
				known[string(cur.SenderBaseKey)+string(rune(cur.SessionVersion))] = true
			}
			ask := func(b []byte) {
				for v := 2; v <= 4; v++ {
					if got, want := r.HasSessionState(v, kit.Clone(b)), known[string(b)+string(rune(v))]; got != want {
						rt.Fatalf("session with base key %x and version %d known: %v, expected %v", b, v, got, want)
					}
				}
			}
			for _, s := range old {
				ask(s.SenderBaseKey)
			}
			if cur != nil {
				ask(cur.SenderBaseKey)
				for _, b := range near(cur.SenderBaseKey) {
					ask(b)
				}
			}
			for _, b := range gone {
				ask(b)
			}
			back, err := p.Ser.Session.Deserialize(r.Serialize())
			if err != nil {
				rt.Fatal(err)
			}
			if x, y := norm(&record.SessionStructure{SessionState: cur, PreviousStates: old}), norm(back); x != y {
				rt.Fatalf("the record has become\n%s\nexpected\n%s", y, x)
			}
		}
		check()
		most := 12
		if rapid.IntRange(0, 9).Draw(rt, "long") == 0 {
			most = 60
		}
		ops := []string{"archive", "new", "new", "new", "promote", "state", "change", "copy", "reload"}
		for i := rapid.IntRange(1, most).Draw(rt, "operations"); i > 0; i-- {
			op := rapid.SampledFrom(ops).Draw(rt, "op")
			c.Log("%s", op)
			c.Label(op)
			switch op {
			case "archive":
				r.ArchiveCurrentState()
				archive()
				cur = nil
				trim()
			case "new":
				m := newModelState(rt, p)
				r.PromoteState(m.st)
				archive()
				cur = m.s
				trim()
			case "promote":
				if len(old) == 0 {
					continue
				}
				k := rapid.IntRange(0, len(old)-1).Draw(rt, "which")
				r.PromoteState(r.PreviousSessionStates()[k])
				x := old[k]
				old = append(append([]*record.StateStructure{}, old[:k]...), old[k+1:]...)
				archive()
				cur = x
				trim()
			case "state":
				m := newModelState(rt, p)
				if cur != nil {
					gone = append(gone, cur.SenderBaseKey)
				}
				r.SetState(m.st)
				cur = m.s
			case "change":
				// Change one of the states.
				k := rapid.IntRange(-1, len(old)-1).Draw(rt, "which")
				var m *modelState
				if k >= 0 {
					m = &modelState{r.PreviousSessionStates()[k], old[k]}
				} else if cur != nil {
					m = &modelState{r.SessionState(), cur}
				} else {
					continue
				}
				k2 := someKey(rt, "ratchet", ratchetKeys(m.s)...)
				ck := chain.NewKey(kdf.DeriveSecrets, kit.Bytes32().Draw(rt, "chain key"), 3)
				m.st.AddReceiverChain(k2, ck)
				m.s.ReceiverChains = append(m.s.ReceiverChains, &record.ChainStructure{SenderRatchetKeyPublic: k2.Serialize(), ChainKey: &chain.KeyStructure{Key: kit.Clone(ck.Key()), Index: 3}})
				if len(m.s.ReceiverChains) > kit.MaxChains {
					m.s.ReceiverChains = m.s.ReceiverChains[1:]
				}
			case "copy":
				x, ok := any(r).(interface{ Copy() *record.Session })
				if !ok {
					continue
				}
				o := x.Copy()
				if rapid.Bool().Draw(rt, "original") {
					r, o = o, r
				}
				o.ArchiveCurrentState()
				for _, s := range o.PreviousSessionStates() {
					s.SetVersion(9)
					s.SetSenderBaseKey(kit.Key(rt, "other").PublicKey().Serialize())
					s.SetSenderChainKey(chain.NewKey(kdf.DeriveSecrets, make([]byte, 32), 77))
				}
			case "reload":
				x, err := record.NewSessionFromBytes(r.Serialize(), p.Ser.Session, p.Ser.State)
				if err != nil {
					rt.Fatalf("a record cannot be read back: %v", err)
				}
				r = x
			}
			check()
		}
		if len(old) >= 2 {
			c.Nontrivial()
		}
		if len(old) == kit.MaxArchived {
			c.Label("full")
		}
	})
}

func TestC36_SenderKeys(t *testing.T) {
	kit.Run(t, 2500, "1 to 40 generated operations on a sender key record and its states (add, replace, look up, keep and take message keys, advance, copy, read back), compared with a model after each; non-trivial: at least 2 states and a kept message key", func(rt *rapid.T, c *kit.Case) {
		p := recordParty(rt)
		r := groupRecord.NewSenderKey(p.Ser.SenderKeyRecord, p.Ser.SenderKeyState)
		if !r.IsEmpty() {
			rt.Fatalf("a new sender key is not empty")
		}
		if _, err := r.SenderKeyState(); err == nil {
			rt.Fatalf("a new sender key has a state")
		}
		var m []*groupRecord.SenderKeyStateStructure
		find := func(id uint32) *groupRecord.SenderKeyStateStructure {
			for _, s := range m {
				if s.KeyID == id {
					return s
				}
			}
			return nil
		}
		check := func() {
			if r.IsEmpty() != (len(m) == 0) {
				rt.Fatalf("the sender key is empty: %v, expected %d states", r.IsEmpty(), len(m))
			}
			back, err := p.Ser.SenderKeyRecord.Deserialize(r.Serialize())
			if err != nil {
				rt.Fatal(err)
			}
			if x, y := norm(&groupRecord.SenderKeyStructure{SenderKeyStates: m}), norm(back); x != y {
				rt.Fatalf("the sender key has become\n%s\nexpected\n%s", y, x)
			}
			if len(m) > 0 {
				st, err := r.SenderKeyState()
				if err != nil {
					rt.Fatal(err)
				}
				checkSenderState(rt, st, m[0])
			}
			for _, s := range m {
				for _, id := range []uint32{s.KeyID, s.KeyID + 1, s.KeyID ^ 1<<31} {
					st, err := r.GetSenderKeyStateByID(id)
					want := find(id)
					if (err == nil) != (want != nil) {
						rt.Fatalf("state %d: %v", id, err)
					}
					if want != nil {
						checkSenderState(rt, st, want)
						back, err := p.Ser.SenderKeyState.Deserialize(st.Serialize())
						if err != nil {
							rt.Fatal(err)
						}
						if x, y := norm(want), norm(back); x != y {
							rt.Fatalf("the state %d has become\n%s\nexpected\n%s", id, y, x)
						}
					}
				}
			}
		}
		kept := false
		for i := rapid.IntRange(1, 40).Draw(rt, "operations"); i > 0; i-- {
			op := rapid.SampledFrom([]string{"add", "add", "set", "again", "keep", "keep", "keep", "bulk", "take", "take", "advance", "copy", "reload"}).Draw(rt, "op")
			c.Log("%s", op)
			c.Label(op)
			var st *groupRecord.SenderKeyState
			var s *groupRecord.SenderKeyStateStructure
			if len(m) > 0 {
				s = find(m[rapid.IntRange(0, len(m)-1).Draw(rt, "state")].KeyID)
				var err error
				if st, err = r.GetSenderKeyStateByID(s.KeyID); err != nil {
					rt.Fatal(err)
				}
			}
			n := &groupRecord.SenderKeyStateStructure{KeyID: u32(rt, "id"), SenderChainKey: &ratchet.SenderChainKeyStructure{Iteration: u32(rt, "iteration"), ChainKey: kit.Bytes32().Draw(rt, "chain")}}
			switch op {
			case "add":
				k := kit.Key(rt, "signing")
				n.SigningKeyPublic = k.PublicKey().Serialize()
				r.AddSenderKeyState(n.KeyID, n.SenderChainKey.Iteration, kit.Clone(n.SenderChainKey.ChainKey), k.PublicKey())
				known := false
				for _, x := range m {
					known = known || x.KeyID == n.KeyID && bytes.Equal(x.SigningKeyPublic, n.SigningKeyPublic)
				}
				if !known {
					m = append(m, n)
				}
			case "set":
				k := kit.Key(rt, "signing")
				n.SigningKeyPublic, n.SigningKeyPrivate = k.PublicKey().Serialize(), privOf(k)
				r.SetSenderKeyState(n.KeyID, n.SenderChainKey.Iteration, kit.Clone(n.SenderChainKey.ChainKey), k)
				m = []*groupRecord.SenderKeyStateStructure{n}
			case "again":
				// A known sending key is kept as it is.
				if s != nil {
					r.AddSenderKeyState(s.KeyID, n.SenderChainKey.Iteration, n.SenderChainKey.ChainKey, pubKey(s.SigningKeyPublic))
				}
			case "keep":
				if s != nil {
					k, err := ratchet.NewSenderMessageKey(u32(rt, "iteration"), kit.Bytes32().Draw(rt, "seed"))
					if err != nil {
						rt.Fatal(err)
					}
					st.AddSenderMessageKey(k)
					s.Keys = append(s.Keys, &ratchet.SenderMessageKeyStructure{Iteration: k.Iteration(), IV: kit.Clone(k.Iv()), CipherKey: kit.Clone(k.CipherKey()), Seed: kit.Clone(k.Seed())})
					if len(s.Keys) > kit.GroupKeys {
						s.Keys = s.Keys[1:]
					}
					kept = true
				}
			case "bulk":
				if s == nil || rapid.IntRange(0, 29).Draw(rt, "rarely") != 0 {
					continue
				}
				from, seed := u32(rt, "from"), kit.Bytes32().Draw(rt, "seed")
				for j := rapid.SampledFrom([]uint32{700, kit.GroupKeys - 1, kit.GroupKeys + 2}).Draw(rt, "many"); j > 0; j-- {
					k := ratchet.NewSenderMessageKeyFromStruct(&ratchet.SenderMessageKeyStructure{Iteration: from + j, IV: seed[:16], CipherKey: seed, Seed: seed})
					st.AddSenderMessageKey(k)
					s.Keys = append(s.Keys, ratchet.NewStructFromSenderMessageKey(k))
				}
				if d := len(s.Keys) - kit.GroupKeys; d > 0 {
					s.Keys = s.Keys[d:]
				}
			case "take":
				if s == nil {
					continue
				}
				it := n.KeyID
				if len(s.Keys) > 0 && rapid.IntRange(0, 4).Draw(rt, "known") > 0 {
					it = s.Keys[rapid.IntRange(0, len(s.Keys)-1).Draw(rt, "key")].Iteration
				}
				var want *ratchet.SenderMessageKeyStructure
				for j, k := range s.Keys {
					if k.Iteration == it {
						want = k
						s.Keys = append(append([]*ratchet.SenderMessageKeyStructure{}, s.Keys[:j]...), s.Keys[j+1:]...)
						break
					}
				}
				got := st.RemoveSenderMessageKey(it)
				if (got == nil) != (want == nil) || got != nil && (got.Iteration() != it || !bytes.Equal(got.Iv(), want.IV) || !bytes.Equal(got.CipherKey(), want.CipherKey) || !bytes.Equal(got.Seed(), want.Seed)) {
					rt.Fatalf("taking the message key %d gives another one", it)
				}
			case "advance":
				if s != nil {
					st.SetSenderChainKey(ratchet.NewSenderChainKey(n.SenderChainKey.Iteration, kit.Clone(n.SenderChainKey.ChainKey)))
					s.SenderChainKey = n.SenderChainKey
				}
			case "copy":
				if s == nil {
					continue
				}
				x, ok := any(st).(interface {
					Copy() *groupRecord.SenderKeyState
				})
				if !ok {
					continue
				}
				o := x.Copy()
				checkSenderState(rt, o, s)
				for _, k := range s.Keys {
					o.RemoveSenderMessageKey(k.Iteration)
				}
				o.AddSenderMessageKey(ratchet.NewSenderMessageKeyFromStruct(&ratchet.SenderMessageKeyStructure{Iteration: 5, IV: make([]byte, 16), CipherKey: make([]byte, 32), Seed: make([]byte, 32)}))
				o.SetSenderChainKey(n0())
			case "reload":
				x, err := groupRecord.NewSenderKeyFromBytes(r.Serialize(), p.Ser.SenderKeyRecord, p.Ser.SenderKeyState)
				if err != nil {
					rt.Fatalf("a sender key cannot be read back: %v", err)
				}
				r = x
			}
			check()
		}
		if kept && len(m) >= 2 {
			c.Nontrivial()
		}
	})
}

// n0 is a sender chain key for copies.
func n0() *ratchet.SenderChainKey { return ratchet.NewSenderChainKey(99, make([]byte, 32)) }

func TestC36_Chains(t *testing.T) {
	kit.Run(t, 4000, "1 to 30 generated operations on a chain of a session and its chain key (set and read the ratchet key, the chain key, its bytes and its index, advance, replace, append and take message keys, write to a structure and read back), compared with a model after each; non-trivial: at least 5 operations and a kept message key", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		newMsg := func() (*message.Keys, *message.KeysStructure) {
			s := &message.KeysStructure{CipherKey: kit.Bytes32().Draw(rt, "cipher"), MacKey: kit.Bytes32().Draw(rt, "mac"), IV: kit.Bytes32().Draw(rt, "iv")[:16], Index: u32(rt, "index")}
			return message.NewKeys(kit.Clone(s.CipherKey), kit.Clone(s.MacKey), kit.Clone(s.IV), s.Index), s
		}
		newKey := func() (*chain.Key, []byte, uint32) {
			b, i := kit.Bytes32().Draw(rt, "chain key"), u32(rt, "index")
			return chain.NewKey(kdf.DeriveSecrets, kit.Clone(b), i), b, i
		}
		pair := func() (*ecc.ECKeyPair, []byte) {
			k := kit.Key(rt, "ratchet")
			if rapid.Bool().Draw(rt, "public") {
				return ecc.NewECKeyPair(k.PublicKey(), nil), nil
			}
			return k, privOf(k)
		}
		k, priv := pair()
		ck, b, idx := newKey()
		var keys []*message.Keys
		m := &record.ChainStructure{SenderRatchetKeyPublic: k.PublicKey().Serialize(), SenderRatchetKeyPrivate: priv, ChainKey: &chain.KeyStructure{Key: b, Index: idx}}
		for i := rapid.IntRange(0, 3).Draw(rt, "message keys"); i > 0; i-- {
			x, s := newMsg()
			keys, m.MessageKeys = append(keys, x), append(m.MessageKeys, s)
		}
		ch := record.NewChain(k, ck, keys)
		check := func() {
			p := ch.SenderRatchetKey()
			if !bytes.Equal(p.PublicKey().Serialize(), m.SenderRatchetKeyPublic) || (p.PrivateKey() == nil) != (m.SenderRatchetKeyPrivate == nil) || m.SenderRatchetKeyPrivate != nil && !bytes.Equal(privOf(p), m.SenderRatchetKeyPrivate) {
				rt.Fatalf("the ratchet key is another one")
			}
			x := ch.ChainKey()
			if !bytes.Equal(x.Key(), m.ChainKey.Key) || x.Index() != m.ChainKey.Index || !bytes.Equal(x.Current().Key(), m.ChainKey.Key) || x.Current().Index() != m.ChainKey.Index {
				rt.Fatalf("the chain key is %x at %d, expected %x at %d", x.Key(), x.Index(), m.ChainKey.Key, m.ChainKey.Index)
			}
			seed := kit.Bytes32().Draw(rt, "seed")[:rapid.IntRange(0, 32).Draw(rt, "seed length")]
			if got, want := x.BaseMaterial(kit.Clone(seed)), ref.Mac(m.ChainKey.Key, seed); !bytes.Equal(got, want) {
				rt.Fatalf("base material is %x, expected %x", got, want)
			}
			mk, want := x.MessageKeys(), ref.Keys(m.ChainKey.Key)
			if !bytes.Equal(mk.CipherKey(), want.Cipher) || !bytes.Equal(mk.MacKey(), want.Mac) || !bytes.Equal(mk.Iv(), want.Iv) || mk.Index() != m.ChainKey.Index {
				rt.Fatalf("the message keys of the chain key are wrong")
			}
			if len(ch.MessageKeys()) != len(m.MessageKeys) {
				rt.Fatalf("%d message keys, expected %d", len(ch.MessageKeys()), len(m.MessageKeys))
			}
			for i, s := range m.MessageKeys {
				checkKeys(rt, ch.MessageKeys()[i], s)
			}
		}
		check()
		n := rapid.IntRange(1, 30).Draw(rt, "operations")
		kept := len(m.MessageKeys) > 0
		for i := 0; i < n; i++ {
			op := rapid.SampledFrom([]string{"ratchet", "key", "bytes", "index", "advance", "replace", "append", "append", "append", "take", "reload"}).Draw(rt, "op")
			c.Log("%s", op)
			c.Label(op)
			switch op {
			case "ratchet":
				k, priv := pair()
				ch.SetSenderRatchetKey(k)
				m.SenderRatchetKeyPublic, m.SenderRatchetKeyPrivate = k.PublicKey().Serialize(), priv
			case "key":
				ck, b, idx := newKey()
				ch.SetChainKey(ck)
				m.ChainKey = &chain.KeyStructure{Key: b, Index: idx}
			case "bytes":
				b := kit.Bytes32().Draw(rt, "bytes")
				ch.ChainKey().SetKey(kit.Clone(b))
				m.ChainKey.Key = b
			case "index":
				i := u32(rt, "index")
				ch.ChainKey().SetIndex(i)
				m.ChainKey.Index = i
			case "advance":
				ch.SetChainKey(ch.ChainKey().NextKey())
				m.ChainKey = &chain.KeyStructure{Key: ref.NextChain(m.ChainKey.Key), Index: m.ChainKey.Index + 1}
			case "replace":
				x, s := newMsg()
				ch.SetMessageKeys([]*message.Keys{x})
				m.MessageKeys = []*message.KeysStructure{s}
				kept = true
			case "append":
				x, s := newMsg()
				ch.AddMessageKeys(x)
				m.MessageKeys = append(m.MessageKeys, s)
				kept = true
			case "take":
				if len(m.MessageKeys) == 0 {
					continue
				}
				checkKeys(rt, ch.PopFirstMessageKeys(), m.MessageKeys[0])
				m.MessageKeys = m.MessageKeys[1:]
			case "reload":
				x := *m
				x.ChainKey = &chain.KeyStructure{Key: kit.Clone(m.ChainKey.Key), Index: m.ChainKey.Index}
				y, err := record.NewChainFromStructure(&x)
				if err != nil {
					rt.Fatalf("a chain cannot be read back: %v", err)
				}
				ch = y
			}
			check()
		}
		if n >= 5 && kept {
			c.Nontrivial()
		}
	})
}

func checkKeys(rt *rapid.T, k *message.Keys, s *message.KeysStructure) {
	if !bytes.Equal(k.CipherKey(), s.CipherKey) || !bytes.Equal(k.MacKey(), s.MacKey) || !bytes.Equal(k.Iv(), s.IV) || k.Index() != s.Index {
		rt.Fatalf("a message key of index %d is another one than the one of index %d that was kept", k.Index(), s.Index)
	}
	if x := message.NewStructFromKeys(k); !bytes.Equal(x.CipherKey, s.CipherKey) || !bytes.Equal(x.MacKey, s.MacKey) || !bytes.Equal(x.IV, s.IV) || x.Index != s.Index {
		rt.Fatalf("the structure of a message key differs from it")
	}
}
