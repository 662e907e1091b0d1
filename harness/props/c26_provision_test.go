package props

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/prospik/libsignal-protocol-go/provision"
	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

// envelope seals a message for a device, written from the format.
func envelope(dev ref.Pair, eph ref.Pair, iv, msg []byte) (pub, body []byte) {
	return sealed(1, dev, eph, iv, msg)
}

func sealed(version byte, dev ref.Pair, eph ref.Pair, iv, msg []byte) (pub, body []byte) {
	k := ref.Hkdf(ref.DH(eph.Priv, dev.Pub), nil, []byte("Mixin Provisioning Message"), 64)
	body = append([]byte{version}, iv...)
	body = append(body, ref.EncCbc(k[:32], iv, msg)...)
	return eph.Enc(), append(body, ref.Mac(k[32:], body)...)
}

func wrapEnvelope(pub, body []byte) string {
	b := base64.StdEncoding
	return b.EncodeToString([]byte(fmt.Sprintf(`{"public_key":%q,"body":%q}`, b.EncodeToString(pub), b.EncodeToString(body))))
}

// openSafely turns a panic into a failure of the test.
func openSafely(rt *rapid.T, priv, content string) (s string, err error) {
	defer func() {
		if r := recover(); r != nil {
			rt.Fatalf("opening an envelope panics: %v (key %q content %q)", r, priv, content)
		}
	}()
	return provision.Decrypt(priv, content)
}

// TestC26_Open opens genuine envelopes, and the same with one change.
func TestC26_Open(t *testing.T) {
	kit.Run(t, 20000, "a genuine envelope opened and a changed one was rejected", func(rt *rapid.T, c *kit.Case) {
		src := kit.PeerSource(rt)
		dev, eph := ref.NewPair(src), ref.NewPair(src)
		if rapid.IntRange(0, 3).Draw(rt, "structured") == 0 {
			dev = ref.PairOf(kit.Bytes32().Draw(rt, "dev"))
		}
		iv := kit.BytesN(16).Draw(rt, "iv")
		msg := kit.Plain().Draw(rt, "msg")
		pub, body := envelope(dev, eph, iv, msg)
		key := base64.StdEncoding.EncodeToString(dev.Priv)
		c.Log("message %x", msg)
		got, err := openSafely(rt, key, wrapEnvelope(pub, body))
		if err != nil || got != string(msg) {
			rt.Fatalf("a genuine envelope of %x opens as %x (%v)", msg, got, err)
		}
		for n := rapid.IntRange(1, 6).Draw(rt, "changes"); n > 0; n-- {
			p2, b2, k2 := append([]byte{}, pub...), append([]byte{}, body...), key
			mayOpen := false
			what := ""
			switch rapid.IntRange(0, 10).Draw(rt, "kind") {
			case 0, 1, 2:
				i := rapid.IntRange(0, 8*len(b2)-1).Draw(rt, "bit")
				b2[i/8] ^= 1 << (i % 8)
				what = "bit of the body"
			case 3:
				i := rapid.IntRange(0, 8*33-1).Draw(rt, "bit")
				p2[i/8] ^= 1 << (i % 8)
				mayOpen = i == 8*33-1 // not part of the key
				what = "bit of the sender key"
			case 4:
				k2 = base64.StdEncoding.EncodeToString(ref.NewPair(src).Priv)
				what = "another key"
			case 5:
				b2 = b2[:rapid.IntRange(0, len(b2)-1).Draw(rt, "cut")]
				what = "truncated body"
			case 6:
				at := rapid.IntRange(0, len(b2)).Draw(rt, "at")
				x := rapid.Byte().Draw(rt, "byte")
				b2 = append(append(append([]byte{}, b2[:at]...), x), b2[at:]...)
				what = "inserted byte"
			case 7:
				p2 = p2[:rapid.IntRange(0, 32).Draw(rt, "cut")]
				what = "truncated sender key"
			case 8: // parts of another envelope to the same device
				e2 := ref.NewPair(src)
				p3, b3 := envelope(dev, e2, iv, append([]byte("other "), msg...))
				switch rapid.IntRange(0, 2).Draw(rt, "part") {
				case 0:
					p2 = p3
				case 1:
					b2 = append(append([]byte{}, b2[:len(b2)-32]...), b3[len(b3)-32:]...)
				case 2:
					b2 = append(append([]byte{}, b3[:len(b3)-32]...), b2[len(b2)-32:]...)
				}
				what = "splice"
			case 9: // CBC malleability: change the vector and drop blocks
				if len(b2) >= 1+16+32+32 {
					b2 = append(append([]byte{}, b2[:1]...), b2[17:]...)
				} else {
					b2[5] ^= 1
				}
				what = "first block as the vector"
			case 10: // everything genuine, of another version
				version := rapid.SampledFrom([]byte{0, 2, 3, 4, 17, 0x81, 255}).Draw(rt, "version")
				p2, b2 = sealed(version, dev, eph, iv, msg)
				what = "genuine envelope of another version"
			}
			if bytes.Equal(p2, pub) && bytes.Equal(b2, body) && k2 == key {
				continue
			}
			c.Label(strings.Trim(what, "0123456789 "))
			got, err := openSafely(rt, k2, wrapEnvelope(p2, b2))
			if err == nil && !(mayOpen && got == string(msg)) {
				rt.Fatalf("%s: an altered envelope opens as %x (genuine %x)", what, got, msg)
			}
			if err != nil && got != "" {
				rt.Fatalf("%s: an error comes with the text %x", what, got)
			}
		}
		c.Nontrivial()
	})
}

// TestC26_Garbage opens arbitrary input.
func TestC26_Garbage(t *testing.T) {
	kit.Run(t, 60000, "the content is base64 of JSON with an envelope's fields", func(rt *rapid.T, c *kit.Case) {
		src := kit.PeerSource(rt)
		dev := ref.NewPair(src)
		key := base64.StdEncoding.EncodeToString(dev.Priv)
		if rapid.IntRange(0, 3).Draw(rt, "badkey") == 0 {
			key = base64.StdEncoding.EncodeToString(kit.BytesN(rapid.IntRange(0, 31).Draw(rt, "n")).Draw(rt, "key"))
			if rapid.Bool().Draw(rt, "notbase64") {
				key = rapid.String().Draw(rt, "rawkey")
			}
		}
		var content string
		switch rapid.IntRange(0, 4).Draw(rt, "kind") {
		case 0:
			content = rapid.String().Draw(rt, "raw")
		case 1:
			content = base64.StdEncoding.EncodeToString(rapid.SliceOf(rapid.Byte()).Draw(rt, "bytes"))
		case 2:
			doc := rapid.SampledFrom([]string{`null`, `{}`, `[]`, `""`, `1`, `{"public_key":null,"body":null}`, `{"public_key":"","body":""}`, `{"body":"AQ=="}`, `{"public_key":[5],"body":[1]}`, `{"public_key":1}`, `{"public_key":"BQ=="}`}).Draw(rt, "doc")
			content = base64.StdEncoding.EncodeToString([]byte(doc))
			c.Nontrivial()
		default:
			p := append([]byte{5}, kit.BytesN(rapid.SampledFrom([]int{32, 32, 32, 0, 31, 33}).Draw(rt, "publen")).Draw(rt, "pub")...)
			b := kit.BytesN(rapid.IntRange(0, 120).Draw(rt, "bodylen")).Draw(rt, "body")
			b = append([]byte{}, b...)
			if len(b) > 0 && rapid.IntRange(0, 3).Draw(rt, "version") > 0 {
				b[0] = 1
			}
			if len(p) >= 33 && len(b) >= 33 && rapid.Bool().Draw(rt, "authentic") {
				// Well authenticated, but malformed inside.
				k := ref.Hkdf(ref.DH(dev.Priv, p[1:33]), nil, []byte("Mixin Provisioning Message"), 64)
				n := len(b) - 32
				copy(b[n:], ref.Mac(k[32:], b[:n]))
				c.Label("authenticated but malformed")
				if n >= 17 && b[0] == 1 {
					if pt, err := ref.DecCbc(k[:32], b[1:17], b[17:n]); err == nil && key == base64.StdEncoding.EncodeToString(dev.Priv) {
						got, err := openSafely(rt, key, wrapEnvelope(p, b))
						if err != nil || got != string(pt) {
							rt.Fatalf("an authentic envelope of %x opens as %x (%v)", pt, got, err)
						}
						return
					}
				}
			}
			content = wrapEnvelope(p, b)
			c.Nontrivial()
		}
		c.Log("key %q content %q", key, content)
		if got, err := openSafely(rt, key, content); err == nil {
			rt.Fatalf("garbage opens as %x: key %q content %q", got, key, content)
		}
	})
}

// TestC26_Message checks the message structure inside envelopes.
func TestC26_Message(t *testing.T) {
	kit.Run(t, 6000, "a provisioning message went through an envelope", func(rt *rapid.T, c *kit.Case) {
		src := kit.PeerSource(rt)
		id := ref.NewPair(src)
		m := provision.ProvisionMessage{IdentityKeyPublic: id.Enc(), IdentityKeyPrivate: id.Priv,
			UserId: rapid.String().Draw(rt, "user"), ProvisioningCode: rapid.StringMatching(`[0-9]{4,8}`).Draw(rt, "code"), ProfileKey: kit.Bytes32().Draw(rt, "profile")}
		doc := []byte(fmt.Sprintf(`{"identity_key_public":%q,"identity_key_private":%q,"user_id":%s,"provisioning_code":%q,"profile_key":%q}`,
			enc64(m.IdentityKeyPublic), enc64(m.IdentityKeyPrivate), jsonStr(m.UserId), m.ProvisioningCode, enc64(m.ProfileKey)))
		dev := ref.NewPair(src)
		pub, body := envelope(dev, ref.NewPair(src), kit.BytesN(16).Draw(rt, "iv"), doc)
		got, err := openSafely(rt, base64.StdEncoding.EncodeToString(dev.Priv), wrapEnvelope(pub, body))
		if err != nil {
			rt.Fatalf("%v", err)
		}
		var back provision.ProvisionMessage
		if err := json.Unmarshal([]byte(got), &back); err != nil {
			rt.Fatalf("%v", err)
		}
		if !bytes.Equal(back.IdentityKeyPublic, m.IdentityKeyPublic) || !bytes.Equal(back.IdentityKeyPrivate, m.IdentityKeyPrivate) ||
			back.UserId != m.UserId || back.ProvisioningCode != m.ProvisioningCode || !bytes.Equal(back.ProfileKey, m.ProfileKey) {
			rt.Fatalf("the message %+v is read as %+v", m, back)
		}
		c.Log("%s", doc)
		c.Nontrivial()
	})
}

func jsonStr(s string) string { b, _ := json.Marshal(s); return string(b) }
func enc64(b []byte) string   { return base64.StdEncoding.EncodeToString(b) }
