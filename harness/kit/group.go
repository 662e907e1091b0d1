package kit

import (
	"bytes"
	"fmt"

	groupRecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"pgregory.net/rapid"
	"verif/ref"
)

// GEpoch is a sending key of a member in a group.
type GEpoch struct {
	N     int
	Name  SKName
	Owner int
	First ref.SKDM // the distribution message made first (iteration 0)
	Next  uint32   // of the owner
	Priv  []byte   // its signing key

	shifts []shift // where it was aged
}

// GDist is a distribution message.
type GDist struct {
	E     *GEpoch
	By    int
	Iter  uint32
	Bytes []byte
}

// GMsg is a group message that was sent.
type GMsg struct {
	N    int
	E    *GEpoch
	Iter uint32
	PT   []byte
	W    []byte
	Got  map[int]int // times decrypted by each member
}

// gState is the model of what a member knows of a sending key.
type gState struct {
	e     *GEpoch
	owner bool
	start uint32
	next  uint32
	kept  map[uint32]bool
	order []uint32
	used  map[uint32]bool
}

// Group is a number of members that talk in groups, with a model.
type Group struct {
	T      rapid.TB
	C      *Case
	P      []*Party
	Groups []string
	JSON   bool
	Epochs []*GEpoch
	Dists  []*GDist
	Msgs   []*GMsg
	know   []map[SKName][]*gState
	// Atomic makes every rejected delivery be checked for side effects.
	Atomic bool
	// Decrypt, if set, replaces the call that decrypts.
	Decrypt func(who int, n SKName, b []byte) ([]byte, error)

	Late, Rotations, Replays int
}

// NewGroup makes members without any sending keys.
func NewGroup(rt *rapid.T, c *Case, min, max int) *Group {
	return newGroup(rt, c, min, max, false)
}

// NewStoredGroup makes members that all have serialising stores.
func NewStoredGroup(rt *rapid.T, c *Case, min, max int) *Group {
	return newGroup(rt, c, min, max, true)
}

func newGroup(rt *rapid.T, c *Case, min, max int, stored bool) *Group {
	g := &Group{T: rt, C: c, JSON: rapid.IntRange(0, 3).Draw(rt, "json") == 0}
	n := rapid.IntRange(min, max).Draw(rt, "members")
	for i := 0; i < n; i++ {
		ser := Serializer(g.JSON)
		if rapid.IntRange(0, 4).Draw(rt, "mixed") == 1 {
			ser = Mixed(g.JSON)
		}
		// Names and devices are similar on purpose.
		a := rapid.SampledFrom([]Addr{{"m", uint32(i + 1)}, {fmt.Sprintf("m%d", i), 1}, {"m::1", uint32(i + 1)}}).Draw(rt, "addr")
		for _, p := range g.P {
			if p.Addr == a {
				a.Name += "'"
			}
		}
		g.P = append(g.P, NewParty(a, ser, rapid.Bool().Draw(rt, "serialising") || stored))
		g.know = append(g.know, map[SKName][]*gState{})
	}
	g.Groups = []string{"g", "g2"}[:rapid.IntRange(1, 2).Draw(rt, "groups")]
	if rapid.IntRange(0, 3).Draw(rt, "empty records") == 1 {
		// Some stores keep the empty record that they made for a name.
		for i, p := range g.P {
			for j := range g.P {
				for k := range g.Groups {
					if (i+2*j+k)%3 == 0 {
						p.Store.StoreSenderKey(g.Name(j, k).Signal(), groupRecord.NewSenderKey(p.Ser.SenderKeyRecord, p.Ser.SenderKeyState))
					}
				}
			}
		}
	}
	c.Log("%d members, %d groups, json=%v", n, len(g.Groups), g.JSON)
	return g
}

// Name is the name of a member's sending key in a group.
func (g *Group) Name(owner, group int) SKName {
	return SKName{g.Groups[group%len(g.Groups)], g.P[owner%len(g.P)].Addr}
}

func (g *Group) first(who int, n SKName) *gState {
	if l := g.know[who][n]; len(l) > 0 {
		return l[0]
	}
	return nil
}

func (g *Group) find(who int, e *GEpoch) *gState {
	for _, s := range g.know[who][e.Name] {
		if s.e == e {
			return s
		}
	}
	return nil
}

// Create lets a member make a distribution message of the sending key it
// holds under a name, which is usually its own.
func (g *Group) Create(who int, n SKName) *GDist {
	g.T.Helper()
	b, err := g.P[who].GroupCreate(n)
	if err != nil {
		g.T.Fatalf("member %d cannot make a distribution message: %v", who, err)
	}
	d, err := g.ParseDist(b)
	if err != nil {
		g.T.Fatalf("member %d made a bad distribution message: %v (%x)", who, err, b)
	}
	s := g.first(who, n)
	if s == nil {
		e := &GEpoch{N: len(g.Epochs), Name: n, Owner: who, First: d}
		st, err := g.P[who].Store.LoadSenderKey(n.Signal()).SenderKeyState()
		if err != nil {
			g.T.Fatalf("the sending key that was made cannot be found: %v", err)
		}
		priv := st.SigningKey().PrivateKey().Serialize()
		e.Priv = clone(priv[:])
		if d.Iter != 0 {
			g.T.Fatalf("a new sending key starts at %d", d.Iter)
		}
		s = &gState{e: e, owner: true, kept: map[uint32]bool{}, used: map[uint32]bool{}}
		g.know[who][n] = []*gState{s}
		g.Epochs = append(g.Epochs, e)
	}
	if d.Iter != s.next {
		g.T.Fatalf("the distribution message starts at %d, the member is at %d", d.Iter, s.next)
	}
	if d.ID != s.e.First.ID || !bytes.Equal(d.Signing, s.e.First.Signing) {
		g.T.Fatalf("the distribution message is of another sending key: %v and %v", d, s.e.First)
	}
	if ck := g.ChainKey(s.e, d.Iter); !bytes.Equal(ck, d.Chain) {
		g.T.Fatalf("the distribution message has another chain key at %d", d.Iter)
	}
	x := &GDist{s.e, who, d.Iter, b}
	g.Dists = append(g.Dists, x)
	g.C.Log("member %d distributes key %d at %d", who, s.e.N, d.Iter)
	return x
}

// ParseDist parses a distribution message.
func (g *Group) ParseDist(b []byte) (ref.SKDM, error) {
	if !g.JSON {
		return ref.ParseSKDM(b)
	}
	s, err := g.P[0].Ser.SenderKeyDistributionMessage.Deserialize(clone(b))
	if err != nil {
		return ref.SKDM{}, err
	}
	return ref.SKDM{ID: s.ID, Iter: s.Iteration, Chain: s.ChainKey, Signing: s.SigningKey}, nil
}

// ParseMsg parses a group message.
func (g *Group) ParseMsg(b []byte) (id, iter uint32, ct, sig []byte, err error) {
	if !g.JSON {
		m, err := ref.ParseGroup(b)
		if err != nil {
			return 0, 0, nil, nil, err
		}
		return m.ID, m.Iter, m.Ciphertext, m.Sig, nil
	}
	s, err := g.P[0].Ser.SenderKeyMessage.Deserialize(clone(b))
	if err != nil {
		return 0, 0, nil, nil, err
	}
	return s.ID, s.Iteration, s.CipherText, s.Signature, nil
}

// ChainKey is the chain key of a sending key at an iteration.
func (g *Group) ChainKey(e *GEpoch, iter uint32) []byte {
	ck := e.First.Chain
	for i := uint32(0); i < e.Steps(iter); i++ {
		ck = ref.NextChain(ck)
	}
	return ck
}

// Process lets a member process a distribution message.
func (g *Group) Process(who int, d *GDist) {
	g.T.Helper()
	if err := g.P[who].GroupProcess(d.E.Name, d.Bytes); err != nil {
		g.T.Fatalf("member %d cannot process a distribution message: %v", who, err)
	}
	g.C.Log("member %d gets key %d at %d", who, d.E.N, d.Iter)
	if g.find(who, d.E) != nil {
		return
	}
	l := append(g.know[who][d.E.Name], &gState{e: d.E, start: d.Iter, next: d.Iter, kept: map[uint32]bool{}, used: map[uint32]bool{}})
	if len(l) > GroupStates {
		l = l[1:]
	}
	g.know[who][d.E.Name] = l
}

// Rotate makes a member forget its own sending key, so that the next
// distribution message is of a new one.
func (g *Group) Rotate(who int, n SKName) {
	g.P[who].Store.DeleteSenderKey(n)
	delete(g.know[who], n)
	g.Rotations++
	g.C.Log("member %d forgets its key", who)
}

// Own returns the sending key that a member can send with under a name.
func (g *Group) Own(who int, n SKName) *GEpoch {
	if s := g.first(who, n); s != nil && s.owner {
		return s.e
	}
	return nil
}

// Send lets a member encrypt under a name; without a key of its own this must
// fail.
func (g *Group) Send(who int, n SKName, pt []byte) *GMsg {
	g.T.Helper()
	s := g.first(who, n)
	p := g.P[who]
	if s == nil || !s.owner {
		before := p.Store.Snapshot()
		b, err := p.GroupEncrypt(n, clone(pt))
		if err == nil {
			g.T.Fatalf("member %d sent %x with a key that is not its own", who, b)
		}
		if d := Diff(before, p.Store.Snapshot()); d != "" {
			g.T.Fatalf("failing to send changed the store: %s", d)
		}
		g.C.Log("member %d cannot send", who)
		return nil
	}
	in := clone(pt)
	b, err := p.GroupEncrypt(n, in)
	if err != nil {
		g.T.Fatalf("member %d cannot send: %v", who, err)
	}
	m := &GMsg{N: len(g.Msgs), E: s.e, Iter: s.next, PT: clone(pt), W: b, Got: map[int]int{}}
	g.Msgs = append(g.Msgs, m)
	id, iter, _, _, err := g.ParseMsg(b)
	if err != nil {
		g.T.Fatalf("member %d sent a bad message: %v (%x)", who, err, b)
	}
	if id != s.e.First.ID || iter != s.next {
		g.T.Fatalf("member %d sent message %d of key %d, expected %d of %d", who, iter, id, s.next, s.e.First.ID)
	}
	s.next++
	s.e.Next = s.next
	g.C.Log("member %d sends #%d(%d bytes)", who, m.N, len(pt))
	return m
}

// Predict says whether a member must accept a message.
func (g *Group) Predict(who int, m *GMsg) bool {
	s := g.find(who, m.E)
	if s == nil {
		return false
	}
	if m.Iter >= s.next {
		return m.Iter-s.next <= GroupFuture
	}
	return s.kept[m.Iter]
}

// Accepted updates the model.
func (g *Group) Accepted(who int, m *GMsg) {
	s := g.find(who, m.E)
	m.Got[who]++
	s.used[m.Iter] = true
	if m.Iter < s.next {
		delete(s.kept, m.Iter)
		for i, x := range s.order {
			if x == m.Iter {
				s.order = append(s.order[:i:i], s.order[i+1:]...)
				break
			}
		}
		g.Late++
		return
	}
	for ; s.next < m.Iter; s.next++ {
		s.kept[s.next] = true
		s.order = append(s.order, s.next)
	}
	for len(s.order) > GroupKeys {
		delete(s.kept, s.order[0])
		s.order = s.order[1:]
	}
	s.next = m.Iter + 1
}

// Deliver hands a message to a member and checks the outcome.
func (g *Group) Deliver(who int, m *GMsg) bool {
	g.T.Helper()
	return g.DeliverAs(who, m, m.W)
}

// DeliverAs delivers another encoding of a message.
func (g *Group) DeliverAs(who int, m *GMsg, w []byte) bool {
	g.T.Helper()
	want := g.Predict(who, m)
	p := g.P[who]
	var before map[string][]byte
	if g.Atomic && !want {
		before = p.Store.Snapshot()
	}
	var pt []byte
	var err error
	if g.Decrypt != nil {
		pt, err = g.Decrypt(who, m.E.Name, w)
	} else {
		pt, err = p.GroupDecrypt(m.E.Name, w)
	}
	if m.Got[who] > 0 {
		g.Replays++
	}
	g.C.Log("#%d to %d: %v", m.N, who, want)
	if want {
		if err != nil {
			g.T.Fatalf("message #%d (%d of key %d) must decrypt at member %d, but: %v", m.N, m.Iter, m.E.N, who, err)
		}
		if !bytes.Equal(pt, m.PT) {
			g.T.Fatalf("message #%d decrypts to %x, sent was %x", m.N, pt, m.PT)
		}
		g.Accepted(who, m)
		return true
	}
	if err == nil {
		if m.Got[who] > 0 {
			g.T.Fatalf("message #%d was accepted again by member %d, as %x", m.N, who, pt)
		}
		g.T.Fatalf("message #%d (%d of key %d) must be rejected by member %d but decrypts to %x", m.N, m.Iter, m.E.N, who, pt)
	}
	if g.Atomic {
		if d := Diff(before, p.Store.Snapshot()); d != "" {
			g.T.Fatalf("rejecting message #%d (%v) changed the store: %s", m.N, err, d)
		}
	}
	return false
}

// Reload makes a member re-read everything from its store.
func (g *Group) Reload(who int) {
	g.P[who].Store.Reload()
	g.P[who].Restart()
	g.C.Log("member %d reloads", who)
}

// Drain delivers everything that must decrypt, in a drawn order.
func (g *Group) Drain(rt *rapid.T) {
	g.T.Helper()
	for who := range g.P {
		for {
			var l []*GMsg
			for _, m := range g.Msgs {
				if m.Got[who] == 0 && g.Predict(who, m) {
					l = append(l, m)
				}
			}
			if len(l) == 0 {
				break
			}
			i := len(l) - 1
			if len(l) < 60 && rt != nil {
				i = rapid.IntRange(0, i).Draw(rt, "drain")
			}
			g.Deliver(who, l[i])
		}
	}
}

// GOp is a generated step of a group.
type GOp struct {
	Kind          string
	Who, Group, N int
	PT            []byte
}

func (o GOp) String() string { return fmt.Sprintf("%s(%d,%d)", o.Kind, o.Who, o.N) }

// GroupOps are the usual frequencies.
func GroupOps() map[string]int {
	return map[string]int{"create": 3, "process": 5, "again": 1, "relay": 1, "rotate": 1, "send": 8, "burst": 1, "deliver": 8, "newest": 4, "replay": 2, "reload": 1, "wrong": 1}
}

// GenGroupOps generates steps.
func GenGroupOps(w map[string]int, min, max int) *rapid.Generator[[]GOp] {
	var kinds []string
	known := 0
	for _, k := range []string{"send", "deliver", "process", "create", "newest", "replay", "again", "relay", "rotate", "burst", "reload", "wrong", "age", "x1", "x2", "x3", "x4"} {
		for i := 0; i < w[k]; i++ {
			kinds = append(kinds, k)
		}
		if _, ok := w[k]; ok {
			known++
		}
	}
	if known != len(w) {
		panic("unknown kind of operation")
	}
	one := rapid.Custom(func(t *rapid.T) GOp {
		o := GOp{Kind: rapid.SampledFrom(kinds).Draw(t, "op"), Who: rapid.IntRange(0, 5).Draw(t, "who"), Group: rapid.IntRange(0, 1).Draw(t, "group")}
		o.N = rapid.IntRange(0, 200).Draw(t, "n")
		if o.Kind == "send" {
			o.PT = Plain().Draw(t, "pt")
		}
		return o
	})
	return rapid.Custom(func(t *rapid.T) []GOp {
		lo := rapid.SampledFrom([]int{min, max / 4, max / 2}).Draw(t, "length")
		return rapid.SliceOfN(one, lo, max).Draw(t, "steps")
	})
}

// Setup gives every member a sending key in the first group and distributes
// the keys of the first two to most.
func (g *Group) Setup(rt *rapid.T) {
	for i := 0; i < min(2, len(g.P)); i++ {
		d := g.Create(i, g.Name(i, 0))
		for who := range g.P {
			if who != i && rapid.IntRange(0, 4).Draw(rt, "member") > 0 {
				g.Process(who, d)
			}
		}
	}
}

// Step performs a generated step; it returns false for kinds it does not know.
func (g *Group) Step(o GOp) bool {
	g.T.Helper()
	who := o.Who % len(g.P)
	own := g.Name(who, o.Group)
	pick := func(f func(m *GMsg) bool) []*GMsg {
		var out []*GMsg
		for _, m := range g.Msgs {
			if f(m) {
				out = append(out, m)
			}
		}
		return out
	}
	switch o.Kind {
	case "create":
		if s := g.first(who, own); s == nil || s.owner {
			g.Create(who, own)
		}
	case "relay":
		// Make a distribution message of a key that was received.
		var l []SKName
		for _, d := range g.Dists {
			if s := g.first(who, d.E.Name); s != nil && !s.owner {
				l = append(l, d.E.Name)
			}
		}
		if len(l) > 0 {
			g.Create(who, l[o.N%len(l)])
		}
	case "process":
		var l []*GDist
		for _, d := range g.Dists {
			if g.find(who, d.E) == nil && d.E.Owner != who {
				l = append(l, d)
			}
		}
		if len(l) > 0 {
			g.Process(who, l[o.N%len(l)])
		}
	case "again":
		var l []*GDist
		for _, d := range g.Dists {
			if g.find(who, d.E) != nil {
				l = append(l, d)
			}
		}
		if len(l) > 0 {
			g.Process(who, l[o.N%len(l)])
		}
	case "rotate":
		if g.Own(who, own) != nil {
			g.Rotate(who, own)
			g.Create(who, own)
		}
	case "send":
		if g.first(who, own) == nil && o.N < 150 {
			g.Create(who, own)
		}
		g.Send(who, own, o.PT)
	case "burst":
		if g.Own(who, own) != nil {
			for i := 0; i < o.N%40; i++ {
				g.Send(who, own, []byte{byte(i)})
			}
		}
	case "age":
		if e := g.Own(who, own); e != nil {
			g.Age(e, o.N)
		}
	case "wrong":
		// Send in the name of another.
		n := g.Name(who+1, o.Group)
		if g.P[who].Addr != n.Sender {
			g.Send(who, n, []byte("wrong"))
		}
	case "deliver":
		if l := pick(func(m *GMsg) bool { return m.Got[who] == 0 && (g.find(who, m.E) != nil || o.N%4 == 0) }); len(l) > 0 {
			g.Deliver(who, l[o.N%len(l)])
		}
	case "newest":
		if l := pick(func(m *GMsg) bool { return m.Got[who] == 0 && g.find(who, m.E) != nil && m.E.Owner != who }); len(l) > 0 {
			g.Deliver(who, l[len(l)-1])
		}
	case "replay":
		if l := pick(func(m *GMsg) bool { return m.Got[who] > 0 }); len(l) > 0 {
			g.Deliver(who, l[o.N%len(l)])
		}
	case "reload":
		g.Reload(who)
	default:
		return false
	}
	return true
}

// Knows says whether a member has a sending key.
func (g *Group) Knows(who int, e *GEpoch) bool { return g.find(who, e) != nil }

// PastSecrets lists what a member's store must not contain or give of a
// sending key: the chain keys up to the newest message sent or received, and
// the key material of those messages and of all before its start.
func (g *Group) PastSecrets(who int, e *GEpoch) (past map[uint32]bool, chains uint32) {
	s := g.find(who, e)
	if s == nil {
		return nil, 0
	}
	past = map[uint32]bool{}
	for i := uint32(0); i < s.start; i++ {
		past[i] = true
	}
	for i := uint32(0); i < s.next; i++ {
		if s.owner || s.used[i] || !s.kept[i] {
			past[i] = true
		}
	}
	return past, s.next
}

// SenderKeySecrets lists all secrets in a stored sender key record.
func (p *Party) SenderKeySecrets(n SKName) (out [][]byte) {
	b := p.Store.SenderKeyBytes(n)
	if b == nil {
		return nil
	}
	st, err := p.Ser.SenderKeyRecord.Deserialize(b)
	if err != nil {
		panic(err)
	}
	for _, s := range st.SenderKeyStates {
		if s == nil {
			continue
		}
		if s.SenderChainKey != nil {
			out = append(out, s.SenderChainKey.ChainKey)
		}
		for _, k := range s.Keys {
			if k != nil {
				out = append(out, k.Seed, k.CipherKey, k.IV)
			}
		}
		out = append(out, s.SigningKeyPrivate)
	}
	return out
}

// Save keeps the state of the group, its model and its stores, and returns a
// function that goes back to it any number of times. It requires serialising
// stores.
func (g *Group) Save() func() {
	var st []*Store
	for _, p := range g.P {
		st = append(st, p.Store.Clone())
	}
	type model struct {
		epochs []*GEpoch
		nexts  []uint32
		dists  []*GDist
		msgs   []*GMsg
		know   []map[SKName][]*gState
	}
	copyModel := func(m model) (c model) {
		c.epochs = append(c.epochs, m.epochs...)
		c.nexts = append(c.nexts, m.nexts...)
		c.dists = append(c.dists, m.dists...)
		for _, x := range m.msgs {
			y := *x
			y.Got = map[int]int{}
			for k, v := range x.Got {
				y.Got[k] = v
			}
			c.msgs = append(c.msgs, &y)
		}
		for _, k := range m.know {
			n := map[SKName][]*gState{}
			for name, l := range k {
				for _, s := range l {
					t := *s
					t.kept, t.used, t.order = map[uint32]bool{}, map[uint32]bool{}, append([]uint32{}, s.order...)
					for i := range s.kept {
						t.kept[i] = true
					}
					for i := range s.used {
						t.used[i] = true
					}
					n[name] = append(n[name], &t)
				}
			}
			c.know = append(c.know, n)
		}
		return c
	}
	m := model{epochs: g.Epochs, dists: g.Dists, msgs: g.Msgs, know: g.know}
	for _, e := range g.Epochs {
		m.nexts = append(m.nexts, e.Next)
	}
	keep := copyModel(m)
	return func() {
		c := copyModel(keep)
		g.Epochs, g.Dists, g.Msgs, g.know = c.epochs, c.dists, c.msgs, c.know
		for i, e := range g.Epochs {
			e.Next = c.nexts[i]
		}
		for i, p := range g.P {
			p.Store.Restore(st[i].Clone())
			p.Restart()
		}
	}
}

// Lost updates the model after a message was encrypted and stored as sent but
// got lost before it was returned.
func (g *Group) Lost(who int, n SKName) {
	if s := g.first(who, n); s != nil {
		s.next++
		s.e.Next = s.next
	}
}
