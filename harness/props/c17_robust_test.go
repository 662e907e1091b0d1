package props

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"
	"testing"
	"time"

	"github.com/prospik/libsignal-protocol-go/ecc"
	groupRecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/provision"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"pgregory.net/rapid"
	"verif/kit"
)

// attempt runs f and reports a panic or that it does not end.
func attempt(f func()) string {
	ch := make(chan string, 1)
	finish := func(s string) {
		select {
		case ch <- s:
		default:
		}
	}
	go func() {
		defer func() {
			if r := recover(); r != nil {
				finish(fmt.Sprintf("panics: %v\n%s", r, debug.Stack()))
				return
			}
			finish("")
		}()
		f()
	}()
	// The run ends here: what does not end cannot be stopped, and looking for
	// a smaller input would leave more of it behind.
	defer kit.After(time.Minute, func() {
		kit.Hang("an operation on untrusted input does not end within a minute")
	})()
	return <-ch
}

// robustWorld has a conversation and a group in the middle of their lives,
// and valid examples of everything that can be parsed.
type robustWorld struct {
	json bool
	a, b *kit.Party
	name kit.SKName // a's sending key
	ex   map[string][][]byte
}

var robustKinds = []string{"message", "establishing", "group", "distribution", "session", "prekey", "signed prekey", "sender key", "point", "provisioning"}

func newRobustWorld(js bool, seed uint64) *robustWorld {
	kit.SetRand(kit.NewSource(seed))
	w := &robustWorld{json: js, ex: map[string][][]byte{}}
	ser := kit.Serializer(js)
	w.a, w.b = kit.NewParty(kit.Addr{Name: "a", Dev: 1}, ser, true), kit.NewParty(kit.Addr{Name: "b", Dev: 1}, ser, true)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	add := func(kind string, b []byte) { w.ex[kind] = append(w.ex[kind], b) }
	send := func(p, q *kit.Party, deliver bool) {
		x, err := p.Encrypt(q.Addr, []byte("hello hello hello"))
		must(err)
		if x.Pre {
			add("establishing", x.Bytes)
			add("message", p.PreOf(x.Bytes).Message)
		} else {
			add("message", x.Bytes)
		}
		if deliver {
			_, err = q.Decrypt(p.Addr, x)
			must(err)
		}
	}
	for i := 0; i < 2; i++ {
		must(w.a.Builder(w.b.Addr).ProcessBundle(w.b.NewBundle(kit.OneTime).Bundle()))
		send(w.a, w.b, false)
		send(w.a, w.b, true)
		send(w.b, w.a, false)
		send(w.b, w.a, true)
		send(w.a, w.b, true)
		send(w.b, w.a, false)
	}
	must(w.a.Builder(w.b.Addr).ProcessBundle(w.b.NewBundle(kit.LastResort).Bundle()))
	send(w.a, w.b, false)
	w.name = kit.SKName{Group: "g", Sender: w.a.Addr}
	d, err := w.a.GroupCreate(w.name)
	must(err)
	add("distribution", d)
	must(w.b.GroupProcess(w.name, d))
	for i := 0; i < 4; i++ {
		x, err := w.a.GroupEncrypt(w.name, []byte("hello hello group"))
		must(err)
		add("group", x)
		if i == 2 {
			_, err := w.b.GroupDecrypt(w.name, x)
			must(err)
		}
	}
	for _, p := range []*kit.Party{w.a, w.b} {
		add("sender key", p.Store.SenderKeyBytes(w.name))
		add("session", p.Store.SessionBytes(kit.Addr{Name: map[bool]string{true: "b", false: "a"}[p == w.a], Dev: 1}))
	}
	pre := w.b.NewBundle(kit.OneTime)
	add("prekey", w.b.Store.LoadPreKey(pre.PreID.Value).Serialize())
	add("signed prekey", w.b.Store.LoadSignedPreKey(pre.SPKID).Serialize())
	add("point", w.a.IDBytes())
	add("provisioning", []byte(`{"publicKey":"`+base64.StdEncoding.EncodeToString(w.a.IDBytes())+`","body":"`+base64.StdEncoding.EncodeToString(make([]byte, 80))+`"}`))
	return w
}

// feed parses bytes as a kind of object and uses what parses. It says whether
// something parsed.
func (w *robustWorld) feed(kind string, b []byte, n int) (parsed bool) {
	a, q := w.a, w.b
	ser := a.Ser
	in := kit.Clone(b)
	switch kind {
	case "message":
		m, err := protocol.NewSignalMessageFromBytes(in, ser.SignalMessage)
		if err != nil {
			return false
		}
		m.Serialize()
		m.Body()
		m.Counter()
		m.MessageVersion()
		m.Structure()
		m.SenderRatchetKey().Serialize()
		q.Cipher(a.Addr).Decrypt(m)
		a.Cipher(q.Addr).DecryptAndGetKey(m)
		a.Cipher(kit.Addr{Name: "nobody"}).Decrypt(m)
		m.VerifyMac(m.MessageVersion(), a.ID.PublicKey(), q.ID.PublicKey(), make([]byte, 32))
	case "establishing":
		m, err := protocol.NewPreKeySignalMessageFromBytes(in, ser.PreKeySignalMessage, ser.SignalMessage)
		if err != nil {
			return false
		}
		m.Serialize()
		m.IdentityKey().Fingerprint()
		m.PreKeyID()
		m.WhisperMessage().Serialize()
		q.Cipher(a.Addr).DecryptMessage(m)
		a.Cipher(q.Addr).DecryptMessage(m)
		q.Cipher(kit.Addr{Name: "nobody"}).DecryptMessageReturnKey(m)
		// A cipher for existing sessions only.
		o := session.NewCipherFromSession(a.Addr.Signal(), q.Store, q.Store, q.Store, ser.PreKeySignalMessage, ser.SignalMessage)
		o.DecryptMessage(m)
		o.Decrypt(m.WhisperMessage())
	case "group":
		m, err := protocol.NewSenderKeyMessageFromBytes(in, ser.SenderKeyMessage)
		if err != nil {
			return false
		}
		m.Serialize()
		m.SignedSerialize()
		m.Signature()
		q.GroupCipher(w.name).Decrypt(m)
		a.GroupCipher(w.name).Decrypt(m)
		q.GroupCipher(kit.SKName{Group: "none"}).Decrypt(m)
	case "distribution":
		m, err := protocol.NewSenderKeyDistributionMessageFromBytes(in, ser.SenderKeyDistributionMessage)
		if err != nil {
			return false
		}
		m.Serialize()
		m.SignatureKey().Serialize()
		for _, p := range []*kit.Party{a, q} {
			for _, name := range []kit.SKName{w.name, {Group: "new", Sender: w.a.Addr}} {
				p.GroupBuilder().Process(name.Signal(), m)
				for _, x := range w.ex["group"] {
					p.GroupDecrypt(name, x)
				}
				p.GroupEncrypt(name, []byte("x"))
				p.GroupCreate(name)
			}
		}
		// A message for the key that was just accepted.
		gm, err := protocol.NewSenderKeyMessageFromStruct(&protocol.SenderKeyMessageStructure{ID: m.ID(), Iteration: m.Iteration() + uint32(n), CipherText: make([]byte, 16*(n%3)), Version: 3, Signature: make([]byte, 64)}, ser.SenderKeyMessage)
		if err == nil {
			q.GroupCipher(kit.SKName{Group: "new", Sender: w.a.Addr}).Decrypt(gm)
		}
	case "session":
		r, err := record.NewSessionFromBytes(in, ser.Session, ser.State)
		if err != nil {
			return false
		}
		r.Serialize()
		r.IsFresh()
		if x, ok := any(r).(interface{ Copy() *record.Session }); ok {
			x.Copy().Serialize()
		}
		for _, p := range []*kit.Party{a, q} {
			o := a.Addr
			if p == a {
				o = q.Addr
			}
			r, _ := record.NewSessionFromBytes(kit.Clone(b), ser.Session, ser.State)
			p.Store.StoreSession(o.Signal(), r)
			for i, x := range w.ex["message"] {
				if (i+n)%3 == 0 {
					p.Decrypt(o, kit.Wire{Bytes: x})
				}
			}
			for i, x := range w.ex["establishing"] {
				if (i+n)%3 == 0 {
					p.Decrypt(o, kit.Wire{Pre: true, Bytes: x})
				}
			}
			p.Encrypt(o, []byte("x"))
		}
		r, _ = record.NewSessionFromBytes(kit.Clone(b), ser.Session, ser.State)
		a.Store.StoreSession(q.Addr.Signal(), r)
		a.Builder(q.Addr).ProcessBundle(q.NewBundle(kit.NoPre).Bundle())
		a.Encrypt(q.Addr, []byte("x"))
		r, _ = record.NewSessionFromBytes(kit.Clone(b), ser.Session, ser.State)
		r.ArchiveCurrentState()
		r.Serialize()
	case "prekey":
		r, err := record.NewPreKeyFromBytes(in, ser.PreKeyRecord)
		if err != nil {
			return false
		}
		r.Serialize()
		r.ID()
		r.KeyPair().PublicKey().Serialize()
		for _, x := range w.ex["establishing"] {
			if id := q.PreOf(x).PreKeyID; id != nil && !id.IsEmpty {
				q.Store.StorePreKey(id.Value, r)
				q.Store.DeleteSession(a.Addr.Signal())
				q.Decrypt(a.Addr, kit.Wire{Pre: true, Bytes: x})
			}
		}
	case "signed prekey":
		r, err := record.NewSignedPreKeyFromBytes(in, ser.SignedPreKeyRecord)
		if err != nil {
			return false
		}
		r.Serialize()
		r.Signature()
		r.Timestamp()
		r.KeyPair().PublicKey().Serialize()
		q.Store.DeleteSession(a.Addr.Signal())
		for _, x := range w.ex["establishing"] {
			q.Store.StoreSignedPreKey(q.PreOf(x).SignedPreKeyID, r)
			q.Decrypt(a.Addr, kit.Wire{Pre: true, Bytes: x})
		}
	case "sender key":
		r, err := groupRecord.NewSenderKeyFromBytes(in, ser.SenderKeyRecord, ser.SenderKeyState)
		if err != nil {
			return false
		}
		r.Serialize()
		r.IsEmpty()
		for _, p := range []*kit.Party{a, q} {
			p.Store.StoreSenderKey(w.name.Signal(), r)
			for _, x := range w.ex["group"] {
				p.GroupDecrypt(w.name, x)
			}
			p.GroupEncrypt(w.name, []byte("x"))
			p.GroupCreate(w.name)
			p.GroupProcess(w.name, w.ex["distribution"][0])
			r, _ = groupRecord.NewSenderKeyFromBytes(kit.Clone(b), ser.SenderKeyRecord, ser.SenderKeyState)
		}
	case "point":
		p, err := ecc.DecodePoint(in, n%4)
		if err != nil {
			return false
		}
		p.Serialize()
		ecc.VerifySignature(p, in, [64]byte{})
	case "provisioning":
		_, err := provision.Decrypt(base64.StdEncoding.EncodeToString(make([]byte, 32)), string(in))
		provision.Decrypt(string(in), string(w.ex["provisioning"][0]))
		return err == nil
	}
	return true
}

// genProto generates bytes with the framing of messages.
func genProto(t *rapid.T) []byte {
	out := []byte{rapid.SampledFrom([]byte{0x33, 0x33, 0x33, 0x22, 0x32, 0x00, 0x43, 0xff}).Draw(t, "version")}
	for i, n := 0, rapid.IntRange(0, 7).Draw(t, "fields"); i < n; i++ {
		f := rapid.IntRange(0, 7).Draw(t, "field")
		wt := rapid.SampledFrom([]int{0, 2, 2, 2, 1, 3, 4, 5, 6}).Draw(t, "wire type")
		out = binary.AppendUvarint(out, uint64(f<<3|wt))
		switch wt {
		case 0:
			out = binary.AppendUvarint(out, rapid.OneOf(rapid.SampledFrom([]uint64{0, 1, 5000, 5001, 0xffffffff, 1 << 32, 1<<64 - 1}), rapid.Uint64Range(0, 300)).Draw(t, "value"))
		case 2:
			n := rapid.SampledFrom([]int{0, 1, 8, 15, 16, 31, 32, 33, 34, 48, 64, 80}).Draw(t, "length")
			b := kit.BytesN(n).Draw(t, "bytes")
			if n >= 33 {
				b[0] = 5
			}
			l := uint64(n)
			if rapid.IntRange(0, 9).Draw(t, "wrong length") == 0 {
				l = rapid.SampledFrom([]uint64{0, 1 << 31, 1<<63 - 1, 1<<64 - 1, uint64(n) + 1}).Draw(t, "length")
			}
			out = append(binary.AppendUvarint(out, l), b...)
		case 1:
			out = append(out, make([]byte, 8)...)
		case 5:
			out = append(out, make([]byte, 4)...)
		}
	}
	return append(out, kit.BytesN(rapid.SampledFrom([]int{0, 1, 7, 8, 9, 63, 64, 65}).Draw(t, "suffix")).Draw(t, "end")...)
}

// mutateJSON changes a part of a JSON value.
func mutateJSON(t *rapid.T, b []byte) ([]byte, bool) {
	var v interface{}
	if json.Unmarshal(b, &v) != nil {
		return b, false
	}
	other := func(old interface{}) interface{} {
		switch rapid.IntRange(0, 9).Draw(t, "new value") {
		case 0:
			return nil
		case 1:
			return map[string]interface{}{}
		case 2:
			return []interface{}{}
		case 3:
			return rapid.SampledFrom([]interface{}{-1.0, 0.0, 1.0, 2.0, 3.0, 4.0, 4999.0, 5001.0, 4294967295.0, 4294967296.0, 1e300, 0.5}).Draw(t, "number")
		case 4:
			return rapid.Bool().Draw(t, "bool")
		case 5:
			return []interface{}{old, nil, old}
		case 6:
			return "!"
		default:
			n := rapid.SampledFrom([]int{0, 1, 15, 16, 31, 32, 33, 34, 64}).Draw(t, "length")
			x := kit.BytesN(n).Draw(t, "bytes")
			if n == 33 {
				x[0] = 5
			}
			return base64.StdEncoding.EncodeToString(x)
		}
	}
	var walk func(v interface{}, depth int) interface{}
	walk = func(v interface{}, depth int) interface{} {
		switch x := v.(type) {
		case map[string]interface{}:
			if len(x) > 0 && rapid.IntRange(0, 9).Draw(t, "here") > 0 {
				keys := make([]string, 0, len(x))
				for k := range x {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				k := keys[rapid.IntRange(0, len(keys)-1).Draw(t, "key")]
				if rapid.IntRange(0, 7).Draw(t, "delete") == 0 {
					delete(x, k)
				} else {
					x[k] = walk(x[k], depth+1)
				}
				return x
			}
		case []interface{}:
			if len(x) > 0 && rapid.IntRange(0, 9).Draw(t, "here") > 0 {
				i := rapid.IntRange(0, len(x)-1).Draw(t, "index")
				switch rapid.IntRange(0, 7).Draw(t, "what") {
				case 0:
					return append(x[:i:i], x[i+1:]...)
				case 1:
					return append(x, x[i])
				case 2:
					return append(x, nil)
				}
				x[i] = walk(x[i], depth+1)
				return x
			}
		case string:
			// A part of an inner encoding.
			if raw, err := base64.StdEncoding.DecodeString(x); err == nil && len(raw) > 0 && rapid.Bool().Draw(t, "inner") {
				if in, ok := mutateJSON(t, raw); ok {
					raw = in
				} else {
					raw, _ = kit.MutateBytes(t, raw)
				}
				return base64.StdEncoding.EncodeToString(raw)
			}
		}
		return other(v)
	}
	out, err := json.Marshal(walk(v, 0))
	if err != nil {
		return b, false
	}
	return out, true
}

func TestC17_Robust(t *testing.T) {
	kit.Run(t, 8000, "up to 6 inputs of a kind (messages of all types, records of all types, points, provisioning envelopes, in both encodings): valid ones with changed bytes or parts, generated frames of fields, raw bytes; everything that parses is used in all operations that take it, in a conversation and group in the middle of their lives; non-trivial: an input that parsed although it was changed or generated", func(rt *rapid.T, c *kit.Case) {
		w := newRobustWorld(rapid.Bool().Draw(rt, "json"), uint64(rapid.IntRange(0, 40).Draw(rt, "seed")))
		for i, n := 0, rapid.IntRange(1, 6).Draw(rt, "inputs"); i < n; i++ {
			kind := rapid.SampledFrom(robustKinds).Draw(rt, "kind")
			ex := w.ex[kind]
			b := kit.Clone(ex[rapid.IntRange(0, len(ex)-1).Draw(rt, "example")])
			how := rapid.SampledFrom([]string{"bytes", "parts", "parts", "parts", "frame", "raw", "other", "as is"}).Draw(rt, "how")
			switch how {
			case "parts":
				ok := false
				for k := rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(rt, "changes"); k > 0; k-- {
					var did bool
					b, did = mutateJSON(rt, b)
					ok = ok || did
				}
				if !ok {
					b = mutateFields(rt, b)
				}
			case "bytes":
				for k := rapid.IntRange(1, 3).Draw(rt, "changes"); k > 0; k-- {
					b, _ = kit.MutateBytes(rt, b)
				}
			case "frame":
				b = genProto(rt)
				if kind == "establishing" && rapid.Bool().Draw(rt, "within") {
					s := w.a.PreOf(ex[0])
					s.Message = b
					b = w.a.Ser.PreKeySignalMessage.Serialize(s)
				}
			case "raw":
				b = rapid.SliceOfN(rapid.Byte(), 0, 120).Draw(rt, "raw")
				if rapid.IntRange(0, 9).Draw(rt, "nil") == 0 {
					b = nil
				}
			case "other":
				o := w.ex[rapid.SampledFrom(robustKinds).Draw(rt, "other kind")]
				b = kit.Clone(o[0])
			}
			num := rapid.IntRange(0, 2100).Draw(rt, "n")
			c.Log("%s %s %x", kind, how, b[:min(len(b), 60)])
			parsed := false
			if s := attempt(func() { parsed = w.feed(kind, b, num) }); s != "" {
				rt.Fatalf("%s of %q (%s) %s", kind, b, how, s)
			}
			if parsed {
				c.Label("parsed " + kind)
				if how != "as is" {
					c.Nontrivial()
				}
			}
		}
	})
}

// mutateFields changes fields of a message in protocol buffers.
func mutateFields(t *rapid.T, b []byte) []byte {
	if len(b) < 3 {
		return append(b, 5)
	}
	type field struct {
		tag uint64
		num uint64
		val []byte
	}
	var fs []field
	rest := b[1:]
	for len(rest) > 0 {
		tag, n := binary.Uvarint(rest)
		if n <= 0 || tag&7 != 0 && tag&7 != 2 {
			break
		}
		v, m := binary.Uvarint(rest[n:])
		if m <= 0 {
			break
		}
		f := field{tag: tag, num: v}
		next := rest[n+m:]
		if tag&7 == 2 {
			if v > uint64(len(next)) {
				break
			}
			f.val, next = next[:v], next[v:]
		}
		fs, rest = append(fs, f), next
	}
	if len(fs) == 0 {
		return append(b, 5)
	}
	i := rapid.IntRange(0, len(fs)-1).Draw(t, "field")
	switch rapid.IntRange(0, 4).Draw(t, "change") {
	case 0:
		fs = append(fs[:i:i], fs[i+1:]...)
	case 1:
		fs = append(fs, fs[i])
	default:
		if fs[i].tag&7 == 0 {
			fs[i].num = rapid.OneOf(rapid.SampledFrom([]uint64{0, 1, 2, 2000, 2001, 5000, 5001, 0xffffff, 0xffffffff, 1 << 32}), rapid.Uint64()).Draw(t, "value")
		} else {
			n := rapid.SampledFrom([]int{0, 1, 15, 16, 31, 32, 33, 34, 48, 64}).Draw(t, "length")
			fs[i].val = kit.BytesN(n).Draw(t, "bytes")
			if n >= 33 && n < 40 {
				fs[i].val[0] = 5
			}
		}
	}
	out := []byte{b[0]}
	for _, f := range fs {
		out = binary.AppendUvarint(out, f.tag)
		if f.tag&7 == 0 {
			out = binary.AppendUvarint(out, f.num)
		} else {
			out = append(binary.AppendUvarint(out, uint64(len(f.val))), f.val...)
		}
	}
	return append(out, rest...)
}

// partsOf lists the parts of a JSON value by the shape of their paths, in
// which positions in lists do not count.
func partsOf(v interface{}) (shapes []string, paths map[string][][]interface{}) {
	paths = map[string][][]interface{}{}
	var walk func(v interface{}, shape string, path []interface{})
	walk = func(v interface{}, shape string, path []interface{}) {
		p := append([]interface{}{}, path...)
		if paths[shape] == nil {
			shapes = append(shapes, shape)
		}
		paths[shape] = append(paths[shape], p)
		switch x := v.(type) {
		case map[string]interface{}:
			for k := range x {
				walk(x[k], shape+"."+k, append(p, k))
			}
		case []interface{}:
			for i := range x {
				walk(x[i], shape+"*", append(p, i))
			}
		}
	}
	walk(v, "", nil)
	sort.Strings(shapes)
	return
}

type absent struct{}

func isAbsent(v interface{}) bool { _, ok := v.(absent); return ok }

// withPart returns a copy of a JSON value with another part.
func withPart(v interface{}, path []interface{}, part interface{}) interface{} {
	if len(path) == 0 {
		return part
	}
	switch x := v.(type) {
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k := range x {
			if k != path[0].(string) {
				out[k] = x[k]
			} else if p := withPart(x[k], path[1:], part); !isAbsent(p) {
				out[k] = p
			}
		}
		return out
	case []interface{}:
		out := []interface{}{}
		for i := range x {
			if i != path[0].(int) {
				out = append(out, x[i])
			} else if p := withPart(x[i], path[1:], part); !isAbsent(p) {
				out = append(out, p)
			}
		}
		return out
	}
	panic("no such part")
}

func TestC17_EveryPart(t *testing.T) {
	kit.Run(t, 700, "every kind of part of a JSON record or message, of a conversation and group in the middle of their lives, in turn removed and replaced by null, empty and wrong values, by byte strings of all critical lengths and by numbers at the limits, and used in all operations that take it; non-trivial: something changed parsed", func(rt *rapid.T, c *kit.Case) {
		w := newRobustWorld(true, uint64(rapid.IntRange(0, 40).Draw(rt, "seed")))
		kind := rapid.SampledFrom([]string{"session", "session", "session", "sender key", "sender key", "prekey", "signed prekey", "message", "establishing", "group", "distribution"}).Draw(rt, "kind")
		ex := w.ex[kind]
		b := ex[rapid.IntRange(0, len(ex)-1).Draw(rt, "example")]
		var v interface{}
		if err := json.Unmarshal(b, &v); err != nil {
			rt.Fatalf("%s is not JSON: %v", kind, err)
		}
		shapes, paths := partsOf(v)
		shape := rapid.SampledFrom(shapes).Draw(rt, "part")
		path := rapid.SampledFrom(paths[shape]).Draw(rt, "which")
		num := rapid.IntRange(0, 2100).Draw(rt, "n")
		values := []interface{}{absent{}, nil, map[string]interface{}{}, []interface{}{}, []interface{}{nil}, []interface{}{map[string]interface{}{}}, "", "!", true, -1.0, 0.0, 1.0, 2.0, 4294967295.0, 4294967296.0, 0.5}
		for _, n := range []int{1, 15, 16, 17, 31, 32, 33, 34, 64} {
			x := bytes.Repeat([]byte{byte(n)}, n)
			if n >= 33 {
				x[0] = 5
			}
			values = append(values, base64.StdEncoding.EncodeToString(x))
		}
		c.Log("%s%s (%v)", kind, shape, path)
		for _, x := range values {
			y := withPart(v, path, x)
			if isAbsent(y) {
				continue
			}
			b, err := json.Marshal(y)
			if err != nil {
				rt.Fatal(err)
			}
			parsed := false
			if s := attempt(func() { parsed = w.feed(kind, b, num) }); s != "" {
				rt.Fatalf("%s with %v for %s %s", kind, x, shape, s)
			}
			if parsed {
				c.Label("parsed " + kind)
				c.Nontrivial()
			}
		}
	})
}
