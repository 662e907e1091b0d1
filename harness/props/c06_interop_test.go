package props

import (
	"bytes"
	"encoding/hex"
	"testing"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/util/bytehelper"
	"github.com/prospik/libsignal-protocol-go/util/medium"
	"github.com/prospik/libsignal-protocol-go/util/optional"
	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

// libPair is the library's form of a reference pair.
func libPair(p ref.Pair) *ecc.ECKeyPair {
	return ecc.NewECKeyPair(ecc.NewDjbECPublicKey(bytehelper.SliceToArray(p.Pub)), ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(p.Priv)))
}

func libID(p ref.Pair) *identity.Key {
	return identity.NewKey(ecc.NewDjbECPublicKey(bytehelper.SliceToArray(p.Pub)))
}

// refPair is the reference form of a library pair.
func refPair(k *ecc.ECKeyPair) ref.Pair {
	priv := k.PrivateKey().Serialize()
	pub := k.PublicKey().PublicKey()
	return ref.Pair{Priv: priv[:], Pub: pub[:]}
}

func TestC06_Interop(t *testing.T) {
	kit.Run(t, 4000, "conversations between the library and the reference peer in either role, with or without a one-time prekey, with losses, reordering and replays; non-trivial: both directions used, at least 2 ratchet turns and a message out of order", func(rt *rapid.T, c *kit.Case) {
		src := kit.Seed(rt)
		peerSrc := kit.PeerSource(rt)
		lib := kit.NewParty(kit.Addr{Name: "lib", Dev: 1}, kit.Serializer(false), rapid.Bool().Draw(rt, "serialising"))
		them := kit.Addr{Name: "ref", Dev: 1}
		refIK := ref.NewPair(peerSrc)
		var peer *ref.Peer
		libInitiates := rapid.Bool().Draw(rt, "libInitiates")
		withPre := rapid.Bool().Draw(rt, "prekey")
		var spk, opk ref.Pair
		const spkID, opkID = 77, 1234
		reg := rapid.Uint32Range(1, 16380).Draw(rt, "reg")
		var bundle *kit.BundleParts
		if libInitiates {
			spk, opk = ref.NewPair(peerSrc), ref.NewPair(peerSrc)
			r := make([]byte, 64)
			peerSrc.Read(r)
			b := &kit.BundleParts{Reg: reg, Dev: 1, PreID: optional.NewEmptyUint32(), SPKID: spkID,
				SPK: libPair(spk).PublicKey(), Sig: bytehelper.SliceToArray64(ref.Sign(refIK.Priv, spk.Enc(), r)), ID: libID(refIK)}
			if withPre {
				b.PreID, b.Pre = optional.NewOptionalUint32(opkID), libPair(opk).PublicKey()
			}
			if err := lib.Builder(them).ProcessBundle(b.Bundle()); err != nil {
				rt.Fatalf("the library rejects an honest bundle: %v", err)
			}
		} else {
			kind := kit.NoPre
			if withPre {
				kind = kit.OneTime
				if rapid.IntRange(0, 3).Draw(rt, "last") == 0 {
					kind = kit.LastResort
				}
			}
			bundle = lib.NewBundle(kind)
			if !ref.Verify(bundle.ID.PublicKey().Serialize()[1:], bundle.SPK.Serialize(), bundle.Sig[:]) {
				rt.Fatalf("the signature of the library's signed prekey does not verify")
			}
			var pre []byte
			if bundle.Pre != nil {
				pre = bundle.Pre.Serialize()[1:]
			}
			peer = ref.NewInitiator(peerSrc, refIK, reg, bundle.ID.PublicKey().Serialize()[1:], bundle.SPK.Serialize()[1:], bundle.SPKID, pre, bundle.PreID.Value)
		}
		_ = src
		c.Log("libInitiates=%v prekey=%v", libInitiates, withPre)

		type msg struct {
			toLib     bool
			pre       bool
			b, pt     []byte
			delivered bool
			n         int
		}
		var msgs []*msg
		early := 0
		if rapid.IntRange(0, 2).Draw(rt, "answersEarly") == 0 {
			early = rapid.IntRange(1, 4).Draw(rt, "early")
		}
		var send func(fromLib bool, pt []byte)
		libReady := libInitiates
		turns, ooo, lastDir := 0, 0, -1
		maxSeen := map[bool]int{true: -1, false: -1}
		libAnswered := false
		// What the library's messages must announce.
		var wantCtr, wantPrev uint32
		theirKeys := map[string]bool{}
		if libInitiates {
			theirKeys[string(spk.Enc())] = true
		}
		deliver := func(m *msg) {
			if m.toLib {
				if !libReady && !m.pre {
					return
				}
				if early > 0 && m.pre && !libReady {
					// The library answers before it has read the message.
					if rapid.Bool().Draw(rt, "libKnowsOther") {
						lib.Store.SaveIdentity(them.Signal(), libID(refIK))
					}
					pm, err := lib.ParsePre(m.b)
					if err != nil {
						rt.Fatal(err)
					}
					r := lib.Store.LoadSession(them.Signal())
					id, err := lib.Builder(them).Process(r, pm)
					if err != nil {
						rt.Fatalf("the library cannot establish the session: %v", err)
					}
					if bundle.Pre != nil && bundle.PreID.Value != medium.MaxValue {
						if id.IsEmpty || id.Value != bundle.PreID.Value {
							rt.Fatalf("the library reports the use of prekey %v, expected %d", id, bundle.PreID.Value)
						}
						lib.Store.RemovePreKey(id.Value)
					} else if !id.IsEmpty {
						rt.Fatalf("the library reports the use of prekey %d, expected none", id.Value)
					}
					lib.Store.StoreSession(them.Signal(), r)
					libReady = true
					c.Label("library answers before reading")
					for ; early > 0; early-- {
						send(true, []byte{byte(early)})
					}
				}
				pt, err := lib.Decrypt(them, kit.Wire{Pre: m.pre, Bytes: m.b})
				if m.delivered {
					if err == nil {
						rt.Fatalf("the library accepted message #%d again", m.n)
					}
					return
				}
				if err != nil || !bytes.Equal(pt, m.pt) {
					rt.Fatalf("the library cannot read the reference peer's message #%d (pre=%v): %v %x, sent %x\nmessage %x", m.n, m.pre, err, pt, m.pt, m.b)
				}
				libReady = true
				libAnswered = true
				inner := m.b
				if m.pre {
					pm, err := ref.ParsePre(m.b)
					if err != nil {
						rt.Fatal(err)
					}
					inner = pm.Inner
				}
				sm, err := ref.ParseSig(inner)
				if err != nil {
					rt.Fatal(err)
				}
				if !theirKeys[string(sm.Ratchet)] {
					theirKeys[string(sm.Ratchet)] = true
					wantPrev = 0
					if wantCtr > 0 {
						wantPrev = wantCtr - 1
					}
					wantCtr = 0
				}
			} else {
				body := m.b
				if m.pre {
					pm, err := ref.ParsePre(m.b)
					if err != nil {
						rt.Fatalf("establishing message of the library is malformed: %v %x", err, m.b)
					}
					if peer == nil {
						if pm.HasPre != withPre || withPre && pm.PreID != opkID || pm.SPKID != spkID || pm.Reg != lib.Reg || !bytes.Equal(pm.IK, lib.IDBytes()) {
							rt.Fatalf("establishing message has wrong fields: %+v", pm)
						}
						var o *ref.Pair
						if withPre {
							o = &opk
						}
						peer = ref.NewResponder(peerSrc, refIK, spk, o, pm)
						if early > 0 {
							c.Label("peer answers before reading")
						}
						for ; early > 0; early-- {
							send(false, []byte{byte(early)})
						}
					}
					body = pm.Inner
				} else if peer == nil {
					return
				}
				pt, err := peer.Decrypt(body)
				if m.delivered {
					return
				}
				if err != nil || !bytes.Equal(pt, m.pt) {
					rt.Fatalf("the reference peer cannot read the library's message #%d: %v %x, sent %x\nmessage %x", m.n, err, pt, m.pt, m.b)
				}
			}
			m.delivered = true
			if m.n < maxSeen[m.toLib] {
				ooo++
			} else {
				maxSeen[m.toLib] = m.n
			}
			d := 0
			if m.toLib {
				d = 1
			}
			if d != lastDir {
				turns++
				lastDir = d
			}
		}
		send = func(fromLib bool, pt []byte) {
			m := &msg{toLib: !fromLib, pt: pt, n: len(msgs)}
			if fromLib {
				if !libReady {
					return
				}
				w, err := lib.Encrypt(them, pt)
				if err != nil {
					rt.Fatalf("the library cannot send: %v", err)
				}
				m.b, m.pre = w.Bytes, w.Pre
				if m.pre != (libInitiates && !libAnswered) {
					rt.Fatalf("message #%d: establishing=%v", m.n, m.pre)
				}
				inner := m.b
				if m.pre {
					pm, err := ref.ParsePre(m.b)
					if err != nil {
						rt.Fatalf("establishing message of the library is malformed: %v %x", err, m.b)
					}
					inner = pm.Inner
				}
				sm, err := ref.ParseSig(inner)
				if err != nil {
					rt.Fatalf("message of the library is malformed: %v %x", err, inner)
				}
				if sm.Ctr != wantCtr || sm.Prev != wantPrev {
					rt.Fatalf("message #%d has the counter %d and previous counter %d, expected %d and %d", m.n, sm.Ctr, sm.Prev, wantCtr, wantPrev)
				}
				wantCtr++
			} else {
				if peer == nil {
					return
				}
				m.b, m.pre = peer.Encrypt(pt)
			}
			c.Log("%v sends #%d", map[bool]string{true: "lib", false: "ref"}[fromLib], m.n)
			msgs = append(msgs, m)
		}
		for _, o := range kit.GenOps(map[string]int{"send": 8, "burst": 1, "deliver": 8, "deliverNew": 2, "replay": 1, "drop": 1, "reload": 1, "age": 1}, 1, 50).Draw(rt, "ops") {
			toLib := o.Who == 1
			var l []*msg
			for _, m := range msgs {
				if m.toLib == toLib && (m.delivered == (o.Kind == "replay")) {
					l = append(l, m)
				}
			}
			switch o.Kind {
			case "send":
				send(!toLib, o.PT)
			case "burst":
				for i := 0; i < o.N; i++ {
					send(!toLib, o.PT)
				}
			case "deliver", "replay":
				if len(l) > 0 {
					deliver(l[o.N%len(l)])
				}
			case "deliverNew":
				if len(l) > 0 {
					deliver(l[len(l)-1])
				}
			case "drop":
				if len(l) > 0 {
					m := l[o.N%len(l)]
					for i := range msgs {
						if msgs[i] == m {
							msgs = append(msgs[:i:i], msgs[i+1:]...)
							break
						}
					}
				}
			case "reload":
				lib.Store.Reload()
				lib.Restart()
			case "age":
				if peer == nil || !libReady {
					continue
				}
				if toLib {
					k, next := peer.Sending()
					if add := lib.AgeReceivingAt(them, k, next, o.N); add > 0 {
						peer.AgeSending(add)
						c.Label("aged")
					}
				} else if add := lib.AgeSending(them, o.N, peer.AgeReceiving); add > 0 {
					wantCtr += add
					c.Label("aged")
				}
			}
			if turns > 7 {
				break // stay within the receiver's window of chains
			}
		}
		if turns >= 3 && ooo >= 1 {
			c.Nontrivial()
		}
		if peer != nil && libReady {
			st := lib.Session(them).SessionState
			if hex.EncodeToString(st.RemoteIdentityPublic) != hex.EncodeToString(refIK.Enc()) {
				rt.Fatalf("the session names another identity")
			}
			if st.RemoteRegistrationID != reg {
				rt.Fatalf("remote registration id %d, want %d", st.RemoteRegistrationID, reg)
			}
		}
	})
}
