package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"testing"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups/ratchet"
	groupRecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

// norm gives a form of a structure that does not tell nil from empty.
func norm(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	var v interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	var drop func(v interface{}) interface{}
	drop = func(v interface{}) interface{} {
		switch x := v.(type) {
		case map[string]interface{}:
			for k, y := range x {
				if y = drop(y); y == nil || y == "" {
					delete(x, k)
				} else {
					x[k] = y
				}
			}
		case []interface{}:
			if len(x) == 0 {
				return nil
			}
			for i := range x {
				x[i] = drop(x[i])
			}
		}
		return v
	}
	b, _ = json.Marshal(drop(v))
	return string(b)
}

func genChain(rt *rapid.T, sender bool) *record.ChainStructure {
	k := kit.Key(rt, "ratchet")
	c := &record.ChainStructure{SenderRatchetKeyPublic: k.PublicKey().Serialize(),
		ChainKey: &chain.KeyStructure{Key: kit.Bytes32().Draw(rt, "chain key"), Index: u32(rt, "index")}}
	if sender {
		p := k.PrivateKey().Serialize()
		c.SenderRatchetKeyPrivate = kit.Clone(p[:])
	}
	for i := rapid.SampledFrom([]int{0, 0, 1, 2, 5}).Draw(rt, "message keys"); i > 0; i-- {
		c.MessageKeys = append(c.MessageKeys, &message.KeysStructure{CipherKey: kit.Bytes32().Draw(rt, "cipher"), MacKey: kit.Bytes32().Draw(rt, "mac"), IV: kit.BytesN(16).Draw(rt, "iv"), Index: u32(rt, "index")})
	}
	return c
}

func genState(rt *rapid.T) *record.StateStructure {
	s := &record.StateStructure{
		LocalIdentityPublic:  kit.Key(rt, "local").PublicKey().Serialize(),
		RemoteIdentityPublic: kit.Key(rt, "remote").PublicKey().Serialize(),
		LocalRegistrationID:  u32(rt, "local reg"),
		RemoteRegistrationID: u32(rt, "remote reg"),
		NeedsRefresh:         rapid.Bool().Draw(rt, "refresh"),
		PreviousCounter:      u32(rt, "previous"),
		RootKey:              kit.Bytes32().Draw(rt, "root"),
		SenderBaseKey:        kit.Key(rt, "base").PublicKey().Serialize(),
		SenderChain:          genChain(rt, true),
		SessionVersion:       rapid.IntRange(0, 4).Draw(rt, "version"),
	}
	for i := rapid.IntRange(0, 5).Draw(rt, "chains"); i > 0; i-- {
		s.ReceiverChains = append(s.ReceiverChains, genChain(rt, rapid.IntRange(0, 5).Draw(rt, "private") == 0))
	}
	if rapid.IntRange(0, 2).Draw(rt, "pending") == 0 {
		s.PendingPreKey = &record.PendingPreKeyStructure{PreKeyID: optID(rt), SignedPreKeyID: u32(rt, "spk"), BaseKey: kit.Key(rt, "pending base").PublicKey().Serialize()}
	}
	if rapid.IntRange(0, 3).Draw(rt, "exchange") == 0 {
		raw := func(l string) ([]byte, []byte) {
			k := kit.Key(rt, l)
			p, q := k.PublicKey().PublicKey(), k.PrivateKey().Serialize()
			return kit.Clone(p[:]), kit.Clone(q[:])
		}
		x := &record.PendingKeyExchangeStructure{Sequence: u32(rt, "sequence")}
		x.LocalBaseKeyPublic, x.LocalBaseKeyPrivate = raw("x base")
		x.LocalRatchetKeyPublic, x.LocalRatchetKeyPrivate = raw("x ratchet")
		x.LocalIdentityKeyPublic, x.LocalIdentityKeyPrivate = raw("x identity")
		s.PendingKeyExchange = x
	}
	return s
}

// checkState compares what a state shows with its structure.
// near gives keys that differ from a serialised one in one place.
func near(k []byte) [][]byte {
	var l [][]byte
	for _, i := range []int{1, 16, len(k) - 1} {
		b := kit.Clone(k)
		b[i] ^= 1
		l = append(l, b)
	}
	return l
}

func checkState(rt *rapid.T, st *record.State, s *record.StateStructure) {
	bad := func(what string) { rt.Fatalf("%s of a state differs from what was stored", what) }
	eq := func(what string, a, b []byte) {
		if !bytes.Equal(a, b) {
			rt.Fatalf("%s of a state is %x, stored was %x", what, a, b)
		}
	}
	eq("local identity", st.LocalIdentityKey().Serialize(), s.LocalIdentityPublic)
	eq("remote identity", st.RemoteIdentityKey().Serialize(), s.RemoteIdentityPublic)
	eq("root key", st.RootKey().Bytes(), s.RootKey)
	eq("base key", st.SenderBaseKey(), s.SenderBaseKey)
	if st.LocalRegistrationID() != s.LocalRegistrationID || st.RemoteRegistrationID() != s.RemoteRegistrationID {
		bad("registration id")
	}
	if st.PreviousCounter() != s.PreviousCounter {
		bad("previous counter")
	}
	if st.Version() != s.SessionVersion {
		rt.Fatalf("version is %d, stored was %d", st.Version(), s.SessionVersion)
	}
	if !st.HasSenderChain() {
		bad("sending chain")
	}
	eq("ratchet key", st.SenderRatchetKey().Serialize(), s.SenderChain.SenderRatchetKeyPublic)
	eq("sending chain key", st.SenderChainKey().Key(), s.SenderChain.ChainKey.Key)
	if st.SenderChainKey().Index() != s.SenderChain.ChainKey.Index {
		bad("sending index")
	}
	kp := st.SenderRatchetKeyPair()
	if (kp.PrivateKey() != nil) != (len(s.SenderChain.SenderRatchetKeyPrivate) == 32) {
		bad("private ratchet key")
	}
	if kp.PrivateKey() != nil {
		b := kp.PrivateKey().Serialize()
		eq("private ratchet key", b[:], s.SenderChain.SenderRatchetKeyPrivate)
	}
	seen := map[string]bool{}
	has := func(b []byte) bool {
		for _, c := range s.ReceiverChains {
			if bytes.Equal(c.SenderRatchetKeyPublic, b) {
				return true
			}
		}
		return false
	}
	for _, c := range s.ReceiverChains {
		if seen[string(c.SenderRatchetKeyPublic)] {
			continue
		}
		seen[string(c.SenderRatchetKeyPublic)] = true
		k, err := ecc.DecodePoint(kit.Clone(c.SenderRatchetKeyPublic), 0)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		if !st.HasReceiverChain(k) {
			bad("receiving chain")
		}
		for _, b := range near(c.SenderRatchetKeyPublic) {
			if got := st.HasReceiverChain(pubKey(b)); got != has(b) {
				rt.Fatalf("chain of another key %x: found %v, expected %v", b, got, has(b))
			}
		}
		eq("receiving chain key", st.ReceiverChainKey(k).Key(), c.ChainKey.Key)
		if st.ReceiverChainKey(k).Index() != c.ChainKey.Index {
			bad("receiving index")
		}
		idx := map[uint32]bool{}
		for _, m := range c.MessageKeys {
			idx[m.Index] = true
		}
		for _, m := range c.MessageKeys {
			for _, i := range []uint32{m.Index, m.Index + 1, m.Index - 1} {
				if st.HasMessageKeys(k, i) != idx[i] {
					bad(fmt.Sprintf("message key %d", i))
				}
			}
		}
	}
	if st.HasUnacknowledgedPreKeyMessage() != (s.PendingPreKey != nil) {
		bad("pending prekey")
	}
	if s.PendingPreKey != nil {
		it, err := st.UnackPreKeyMessageItems()
		if err != nil || it.SignedPreKeyID() != s.PendingPreKey.SignedPreKeyID || !sameOpt(it.PreKeyID(), s.PendingPreKey.PreKeyID) {
			bad("pending prekey")
		}
		eq("pending base key", it.BaseKey().Serialize(), s.PendingPreKey.BaseKey)
	}
	if st.HasPendingKeyExchange() != (s.PendingKeyExchange != nil) {
		bad("pending key exchange")
	}
	if x := s.PendingKeyExchange; x != nil {
		if st.PendingKeyExchangeSequence() != x.Sequence {
			bad("sequence")
		}
		pair := func(what string, k *ecc.ECKeyPair, pub, priv []byte) {
			p, q := k.PublicKey().PublicKey(), k.PrivateKey().Serialize()
			eq(what, p[:], pub)
			eq(what, q[:], priv)
		}
		pair("exchange base key", st.PendingKeyExchangeBaseKeyPair(), x.LocalBaseKeyPublic, x.LocalBaseKeyPrivate)
		pair("exchange ratchet key", st.PendingKeyExchangeRatchetKeyPair(), x.LocalRatchetKeyPublic, x.LocalRatchetKeyPrivate)
		id := st.PendingKeyExchangeIdentityKeyPair()
		pair("exchange identity key", ecc.NewECKeyPair(id.PublicKey().PublicKey(), id.PrivateKey()), x.LocalIdentityKeyPublic, x.LocalIdentityKeyPrivate)
	}
}

func genSenderState(rt *rapid.T, private bool) *groupRecord.SenderKeyStateStructure {
	k := kit.Key(rt, "signing")
	s := &groupRecord.SenderKeyStateStructure{KeyID: u32(rt, "id"), SigningKeyPublic: k.PublicKey().Serialize(),
		SenderChainKey: &ratchet.SenderChainKeyStructure{Iteration: u32(rt, "iteration"), ChainKey: kit.Bytes32().Draw(rt, "chain")}}
	if private {
		p := k.PrivateKey().Serialize()
		s.SigningKeyPrivate = kit.Clone(p[:])
	}
	for i := rapid.SampledFrom([]int{0, 0, 1, 3, 8}).Draw(rt, "keys"); i > 0; i-- {
		s.Keys = append(s.Keys, &ratchet.SenderMessageKeyStructure{Iteration: u32(rt, "iteration"), IV: kit.BytesN(16).Draw(rt, "iv"), CipherKey: kit.Bytes32().Draw(rt, "cipher"), Seed: kit.Bytes32().Draw(rt, "seed")})
	}
	return s
}

func checkSenderState(rt *rapid.T, st *groupRecord.SenderKeyState, s *groupRecord.SenderKeyStateStructure) {
	if st.KeyID() != s.KeyID || st.SenderChainKey().Iteration() != s.SenderChainKey.Iteration || !bytes.Equal(st.SenderChainKey().Seed(), s.SenderChainKey.ChainKey) {
		rt.Fatalf("a sender key state differs from what was stored")
	}
	if !bytes.Equal(st.SigningKey().PublicKey().Serialize(), s.SigningKeyPublic) || (st.SigningKey().PrivateKey() == nil) != (len(s.SigningKeyPrivate) == 0) {
		rt.Fatalf("the signing key of a sender key state differs from what was stored")
	}
	if p := st.SigningKey().PrivateKey(); p != nil {
		if b := p.Serialize(); !bytes.Equal(b[:], s.SigningKeyPrivate) {
			rt.Fatalf("the private signing key of a sender key state differs from what was stored")
		}
	}
	has := map[uint32]bool{}
	for _, k := range s.Keys {
		has[k.Iteration] = true
	}
	for _, k := range s.Keys {
		for _, i := range []uint32{k.Iteration, k.Iteration + 1, k.Iteration - 1} {
			if st.HasSenderMessageKey(i) != has[i] {
				rt.Fatalf("message key %d of a sender key state: %v", i, !has[i])
			}
		}
	}
}

func TestC15_Structures(t *testing.T) {
	kit.Run(t, 12000, "a generated session, state, prekey, signed prekey, sender key or sender key state structure (all fields, optional parts, extreme numbers) made into a record, serialised and read back: the stored structure, all getters and a second serialisation must agree with it; non-trivial: all", func(rt *rapid.T, c *kit.Case) {
		ser := kit.Serializer(rapid.Bool().Draw(rt, "json"))
		kind := rapid.IntRange(0, 5).Draw(rt, "type")
		c.Nontrivial()
		same := func(what string, a, b interface{}) {
			if x, y := norm(a), norm(b); x != y {
				rt.Fatalf("%s: stored %s, read back %s", what, x, y)
			}
		}
		fine := func(err error) {
			if err != nil {
				rt.Fatalf("a well-formed record cannot be read: %v", err)
			}
		}
		switch kind {
		case 0:
			s := &record.SessionStructure{SessionState: genState(rt)}
			for i := rapid.SampledFrom([]int{0, 0, 1, 2, 4}).Draw(rt, "previous"); i > 0; i-- {
				s.PreviousStates = append(s.PreviousStates, genState(rt))
			}
			r, err := record.NewSessionFromStructure(s, ser.Session, ser.State)
			fine(err)
			b := r.Serialize()
			c.Log("session of %d states: %.60s", 1+len(s.PreviousStates), b)
			back, err := ser.Session.Deserialize(kit.Clone(b))
			fine(err)
			same("session", s, back)
			r2, err := record.NewSessionFromBytes(kit.Clone(b), ser.Session, ser.State)
			fine(err)
			if !bytes.Equal(r2.Serialize(), b) {
				rt.Fatalf("a session serialises to other bytes after reading it back")
			}
			if r2.IsFresh() || r2.SessionState() == nil || len(r2.PreviousSessionStates()) != len(s.PreviousStates) {
				rt.Fatalf("a session is fresh or has %d states after reading it back", len(r2.PreviousSessionStates()))
			}
			checkState(rt, r2.SessionState(), s.SessionState)
			for i, p := range r2.PreviousSessionStates() {
				checkState(rt, p, s.PreviousStates[i])
			}
			if x, ok := any(r2).(interface{ Copy() *record.Session }); ok && !bytes.Equal(x.Copy().Serialize(), b) {
				rt.Fatalf("the copy of a session differs")
			}
		case 1:
			s := genState(rt)
			st, err := record.NewStateFromStructure(s, ser.State)
			fine(err)
			b := st.Serialize()
			c.Log("state: %.60s", b)
			back, err := ser.State.Deserialize(kit.Clone(b))
			fine(err)
			same("state", s, back)
			st2, err := record.NewStateFromBytes(kit.Clone(b), ser.State)
			fine(err)
			if !bytes.Equal(st2.Serialize(), b) {
				rt.Fatalf("a state serialises to other bytes after reading it back")
			}
			checkState(rt, st2, s)
			r := record.NewSessionFromState(st2, ser.Session)
			checkState(rt, r.SessionState(), s)
		case 2:
			id, k := u32(rt, "id"), kit.Key(rt, "key")
			r := record.NewPreKey(id, k, ser.PreKeyRecord)
			b := r.Serialize()
			c.Log("prekey: %s", b)
			r2, err := record.NewPreKeyFromBytes(kit.Clone(b), ser.PreKeyRecord)
			fine(err)
			s, err := ser.PreKeyRecord.Deserialize(kit.Clone(b))
			fine(err)
			r3, err := record.NewPreKeyFromStruct(s, ser.PreKeyRecord)
			fine(err)
			for _, x := range []*record.PreKey{r, r2, r3} {
				if !bytes.Equal(x.Serialize(), b) || x.ID().IsEmpty || x.ID().Value != id || x.KeyPair().PublicKey().PublicKey() != k.PublicKey().PublicKey() || x.KeyPair().PrivateKey().Serialize() != k.PrivateKey().Serialize() {
					rt.Fatalf("prekey %d read back differs: %s", id, x.Serialize())
				}
			}
		case 3:
			id, k := u32(rt, "id"), kit.Key(rt, "key")
			ts := rapid.Int64().Draw(rt, "time")
			var sig [64]byte
			copy(sig[:], kit.BytesN(64).Draw(rt, "sig"))
			r := record.NewSignedPreKey(id, ts, k, sig, ser.SignedPreKeyRecord)
			b := r.Serialize()
			c.Log("signed prekey: %s", b)
			r2, err := record.NewSignedPreKeyFromBytes(kit.Clone(b), ser.SignedPreKeyRecord)
			fine(err)
			s, err := ser.SignedPreKeyRecord.Deserialize(kit.Clone(b))
			fine(err)
			r3, err := record.NewSignedPreKeyFromStruct(s, ser.SignedPreKeyRecord)
			fine(err)
			for _, x := range []*record.SignedPreKey{r, r2, r3} {
				if !bytes.Equal(x.Serialize(), b) || x.ID() != id || x.Timestamp() != ts || x.Signature() != sig || x.KeyPair().PublicKey().PublicKey() != k.PublicKey().PublicKey() || x.KeyPair().PrivateKey().Serialize() != k.PrivateKey().Serialize() {
					rt.Fatalf("signed prekey %d read back differs: %s", id, x.Serialize())
				}
			}
		case 4:
			s := &groupRecord.SenderKeyStructure{}
			for i := rapid.IntRange(0, 4).Draw(rt, "states"); i > 0; i-- {
				s.SenderKeyStates = append(s.SenderKeyStates, genSenderState(rt, rapid.Bool().Draw(rt, "private")))
			}
			r, err := groupRecord.NewSenderKeyFromStruct(s, ser.SenderKeyRecord, ser.SenderKeyState)
			fine(err)
			b := r.Serialize()
			c.Log("sender key of %d states: %.60s", len(s.SenderKeyStates), b)
			back, err := ser.SenderKeyRecord.Deserialize(kit.Clone(b))
			fine(err)
			same("sender key", s, back)
			r2, err := groupRecord.NewSenderKeyFromBytes(kit.Clone(b), ser.SenderKeyRecord, ser.SenderKeyState)
			fine(err)
			if !bytes.Equal(r2.Serialize(), b) || r2.IsEmpty() != (len(s.SenderKeyStates) == 0) {
				rt.Fatalf("a sender key serialises to other bytes after reading it back")
			}
			if len(s.SenderKeyStates) > 0 {
				st, err := r2.SenderKeyState()
				fine(err)
				checkSenderState(rt, st, s.SenderKeyStates[0])
			}
			first := map[uint32]bool{}
			for _, x := range s.SenderKeyStates {
				if !first[x.KeyID] {
					first[x.KeyID] = true
					st, err := r2.GetSenderKeyStateByID(x.KeyID)
					fine(err)
					checkSenderState(rt, st, x)
					// A state read out of a record can be stored by itself.
					st2, err := groupRecord.NewSenderKeyStateFromBytes(st.Serialize(), ser.SenderKeyState)
					fine(err)
					checkSenderState(rt, st2, x)
				}
			}
		case 5:
			s := genSenderState(rt, rapid.Bool().Draw(rt, "private"))
			st, err := groupRecord.NewSenderKeyStateFromStructure(s, ser.SenderKeyState)
			fine(err)
			b := st.Serialize()
			c.Log("sender key state: %.60s", b)
			back, err := ser.SenderKeyState.Deserialize(kit.Clone(b))
			fine(err)
			same("sender key state", s, back)
			st2, err := groupRecord.NewSenderKeyStateFromBytes(kit.Clone(b), ser.SenderKeyState)
			fine(err)
			if x, ok := any(st2).(interface {
				Copy() *groupRecord.SenderKeyState
			}); ok && !bytes.Equal(x.Copy().Serialize(), b) {
				rt.Fatalf("the copy of a sender key state differs")
			}
			if !bytes.Equal(st2.Serialize(), b) {
				rt.Fatalf("a sender key state serialises to other bytes after reading it back")
			}
			checkSenderState(rt, st2, s)
		}
	})
}

func TestC15_LiveSessions(t *testing.T) {
	kit.Run(t, 2500, "after every step of a generated conversation the record of the party that acted is serialised, read back and compared (bytes, all getters, current and archived states), also state by state; non-trivial: at least 2 ratchet turns or 2 sessions", func(rt *rapid.T, c *kit.Case) {
		cv := start(rt, c)
		ops := kit.BasicOps()
		ops["reinit"], ops["close"], ops["forget"], ops["init"], ops["age"] = 1, 1, 1, 2, 1
		check := func(who int) {
			p := cv.P[who]
			a := cv.P[1-who].Addr
			b := p.Store.SessionBytes(a)
			if b == nil {
				return
			}
			st := p.Session(a)
			r, err := record.NewSessionFromBytes(kit.Clone(b), p.Ser.Session, p.Ser.State)
			if err != nil {
				rt.Fatalf("a stored session cannot be read back: %v", err)
			}
			if x := r.Serialize(); !bytes.Equal(x, b) {
				rt.Fatalf("a session serialises to other bytes after reading it back:\n%s\n%s", b, x)
			}
			if len(r.PreviousSessionStates()) != len(st.PreviousStates) {
				rt.Fatalf("a session has %d archived states, stored were %d", len(r.PreviousSessionStates()), len(st.PreviousStates))
			}
			// The live record shows the same as what is stored.
			live := p.Store.LoadSession(a.Signal())
			for _, x := range []*record.Session{r, live} {
				if st.SessionState != nil {
					checkState(rt, x.SessionState(), st.SessionState)
				} else if x.SessionState() == nil || x.SessionState().HasSenderChain() {
					rt.Fatalf("a closed session has a current state")
				}
				for i, s := range x.PreviousSessionStates() {
					checkState(rt, s, st.PreviousStates[i])
					if y, err := record.NewStateFromBytes(s.Serialize(), p.Ser.State); err != nil || !bytes.Equal(y.Serialize(), s.Serialize()) {
						rt.Fatalf("an archived state cannot be stored by itself: %v", err)
					}
				}
			}
		}
		for _, o := range kit.GenOps(ops, 3, 30).Draw(rt, "ops") {
			if cv.Inits > 5 && o.Kind == "reinit" {
				continue
			}
			cv.Step(o)
			check(0)
			check(1)
		}
		if cv.Turns >= 2 || cv.Inits >= 2 {
			c.Nontrivial()
		}
	})
}

func TestC15_LiveGroups(t *testing.T) {
	kit.Run(t, 2500, "after every step of a generated group history the sender key records of the member that acted are serialised, read back and compared; the keys in them are those of the reference derivation; non-trivial: a record with kept message keys", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		g := kit.NewGroup(rt, c, 2, 3)
		g.Setup(rt)
		kept := false
		for _, o := range kit.GenGroupOps(kit.GroupOps(), 3, 30).Draw(rt, "ops") {
			g.Step(o)
			p := g.P[o.Who%len(g.P)]
			for _, e := range g.Epochs {
				b := p.Store.SenderKeyBytes(e.Name)
				if b == nil {
					continue
				}
				r, err := groupRecord.NewSenderKeyFromBytes(kit.Clone(b), p.Ser.SenderKeyRecord, p.Ser.SenderKeyState)
				if err != nil {
					rt.Fatalf("a stored sender key cannot be read back: %v", err)
				}
				if !bytes.Equal(r.Serialize(), b) {
					rt.Fatalf("a sender key serialises to other bytes after reading it back")
				}
				st, err := p.Ser.SenderKeyRecord.Deserialize(kit.Clone(b))
				if err != nil {
					rt.Fatalf("%v", err)
				}
				live := p.Store.LoadSenderKey(e.Name.Signal())
				for _, s := range st.SenderKeyStates {
					for _, x := range []*groupRecord.SenderKey{r, live} {
						y, err := x.GetSenderKeyStateByID(s.KeyID)
						if err != nil {
							rt.Fatalf("a stored sender key state is not found: %v", err)
						}
						checkSenderState(rt, y, s)
					}
					if s.KeyID != e.First.ID {
						continue
					}
					if !bytes.Equal(s.SenderChainKey.ChainKey, g.ChainKey(e, s.SenderChainKey.Iteration)) {
						rt.Fatalf("the chain key at %d is stored wrongly", s.SenderChainKey.Iteration)
					}
					for _, k := range s.Keys {
						kept = true
						iv, key := ref.GroupKeys(g.ChainKey(e, k.Iteration))
						if !bytes.Equal(iv, k.IV) || !bytes.Equal(key, k.CipherKey) {
							rt.Fatalf("the message key %d is stored wrongly", k.Iteration)
						}
					}
				}
			}
		}
		if kept {
			c.Nontrivial()
		}
	})
}
