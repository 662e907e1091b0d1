package props

import (
	"bytes"
	"errors"
	"testing"

	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/errorhelper"
	"github.com/prospik/libsignal-protocol-go/util/optional"
	"pgregory.net/rapid"
	"verif/kit"
)

// TestC36_Holders: what only holds things holds what it was given, also after
// other ones were made.
func TestC36_Holders(t *testing.T) {
	kit.Run(t, 3000, "two bundles, unacknowledged items, prekey records, addresses, names and collected errors of generated contents, made one after the other and read twice; non-trivial: all", func(rt *rapid.T, c *kit.Case) {
		var checks []func()
		want := func(what string, ok bool) {
			rt.Helper()
			if !ok {
				rt.Fatalf("%s is not what it was made of", what)
			}
		}
		sameOpt := func(got *optional.Uint32, id, kind uint32) bool {
			switch kind {
			case 0:
				return got == nil || got.IsEmpty
			case 1:
				return got == nil || got.IsEmpty
			}
			return got != nil && !got.IsEmpty && got.Value == id
		}
		some := func(id, kind uint32) *optional.Uint32 {
			switch kind {
			case 0:
				return nil
			case 1:
				return optional.NewEmptyUint32()
			}
			return optional.NewOptionalUint32(id)
		}
		ser := serialize.NewJSONSerializer()
		for n := 0; n < 2; n++ {
			id, kind := u32(rt, "id"), uint32(rapid.IntRange(0, 3).Draw(rt, "kind"))
			pre, spk := kit.Key(rt, "prekey"), kit.Key(rt, "signed prekey")
			b := kit.BundleParts{Reg: u32(rt, "registration"), Dev: u32(rt, "device"), PreID: some(id, kind), SPKID: u32(rt, "spk"),
				SPK: spk.PublicKey(), ID: identity.NewKey(kit.Key(rt, "identity").PublicKey())}
			if kind > 1 {
				b.Pre = pre.PublicKey()
			}
			copy(b.Sig[:], kit.BytesN(64).Draw(rt, "signature"))
			c.Log("%d %d %d %d", id, b.Reg, b.Dev, b.SPKID)
			x := b.Bundle()
			checks = append(checks, func() {
				want("a bundle's registration id", x.RegistrationID() == b.Reg)
				want("a bundle's device id", x.DeviceID() == b.Dev)
				want("a bundle's prekey id", sameOpt(x.PreKeyID(), id, kind))
				want("a bundle's prekey", (x.PreKey() == nil) == (b.Pre == nil) && (b.Pre == nil || bytes.Equal(x.PreKey().Serialize(), b.Pre.Serialize())))
				want("a bundle's signed prekey id", x.SignedPreKeyID() == b.SPKID)
				want("a bundle's signed prekey", bytes.Equal(x.SignedPreKey().Serialize(), b.SPK.Serialize()))
				want("a bundle's signature", x.SignedPreKeySignature() == b.Sig)
				want("a bundle's identity", bytes.Equal(x.IdentityKey().Serialize(), b.ID.Serialize()))
			})
			for _, u := range []*record.UnackPreKeyMessageItems{
				record.NewUnackPreKeyMessageItems(some(id, kind), b.SPKID, spk.PublicKey()),
				record.NewUnackPreKeyMessageItemsFromStruct(&record.UnackPreKeyMessageItemsStructure{PreKeyID: some(id, kind), SignedPreKeyID: b.SPKID, BaseKey: spk.PublicKey().Serialize()}),
			} {
				u := u
				checks = append(checks, func() {
					want("the prekey id of unacknowledged items", sameOpt(u.PreKeyID(), id, kind))
					want("the signed prekey id of unacknowledged items", u.SignedPreKeyID() == b.SPKID)
					want("the base key of unacknowledged items", bytes.Equal(u.BaseKey().Serialize(), spk.PublicKey().Serialize()))
				})
			}
			p := record.NewPreKey(id, pre, ser.PreKeyRecord)
			time := rapid.Int64().Draw(rt, "time")
			s := record.NewSignedPreKey(b.SPKID, time, spk, b.Sig, ser.SignedPreKeyRecord)
			checks = append(checks, func() {
				want("a prekey's number", p.ID().Value == id && !p.ID().IsEmpty)
				want("a prekey's pair", p.KeyPair().PublicKey().PublicKey() == pre.PublicKey().PublicKey() && p.KeyPair().PrivateKey().Serialize() == pre.PrivateKey().Serialize())
				want("a signed prekey's number", s.ID() == b.SPKID)
				want("a signed prekey's time", s.Timestamp() == time)
				want("a signed prekey's signature", s.Signature() == b.Sig)
				want("a signed prekey's pair", s.KeyPair().PublicKey().PublicKey() == spk.PublicKey().PublicKey() && s.KeyPair().PrivateKey().Serialize() == spk.PrivateKey().Serialize())
			})
			name, group := rapid.String().Draw(rt, "name"), rapid.String().Draw(rt, "group")
			a := protocol.NewSignalAddress(name, b.Dev)
			g := protocol.NewSenderKeyName(group, a)
			checks = append(checks, func() {
				want("an address", a.Name() == name && a.DeviceID() == b.Dev)
				want("a sender key name", g.GroupID() == group && g.Sender().Name() == name && g.Sender().DeviceID() == b.Dev)
			})
			m := errorhelper.NewMultiError()
			var texts []string
			for _, k := range rapid.SliceOfN(rapid.Bool(), 0, 4).Draw(rt, "errors") {
				if !k {
					m.Add(nil)
					continue
				}
				texts = append(texts, rapid.StringN(1, 9, -1).Draw(rt, "text"))
				m.Add(errors.New(texts[len(texts)-1]))
			}
			checks = append(checks, func() {
				want("whether errors were collected", m.HasErrors() == (len(texts) > 0))
				want("the text of collected errors", len(texts) == 0 || m.Error() == texts[0])
			})
		}
		for i := 0; i < 2; i++ {
			for _, f := range checks {
				f()
			}
		}
		c.Nontrivial()
	})
}
