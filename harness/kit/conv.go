package kit

import (
	"bytes"
	"encoding/hex"
	"fmt"

	"github.com/prospik/libsignal-protocol-go/keys/message"
	"pgregory.net/rapid"
	"verif/ref"
)

// Documented limits of the protocol.
const (
	MaxFuture   = 5000
	MaxSkipped  = 2000
	MaxChains   = 5
	MaxArchived = 40
	GroupFuture = 2000
	GroupKeys   = 2000
	GroupStates = 2000
)

// Msg is a message that was sent, with what the model knows about it.
type Msg struct {
	N         int
	From      int
	W         Wire
	PT        []byte
	Sid       string // session
	Chain     string // ratchet key
	Ctr       uint32
	Prev      uint32
	Delivered int
	WantPre   bool
	WantCtr   uint32
	WantPrev  uint32
	NewKey    bool // first message of a new sending chain
	Bundle    *BundleParts
	Keys      ref.MsgKeys // the keys it is encrypted under, if tracked
	ChainKey  []byte      // the chain key before it, if tracked
}

func (m *Msg) To() int { return 1 - m.From }

type chainM struct {
	key     string
	next    uint32
	skipped map[uint32]bool
	order   []uint32
}

type sessM struct {
	sid     string
	chains  []*chainM // oldest first
	seen    map[string]bool
	pending bool
	bundle  *BundleParts
	sendKey string
	sendCtr uint32
	prev    uint32
}

type sideM struct {
	cur  *sessM
	arch []*sessM
	seen map[string]bool // sessions this side ever had
}

func (s *sideM) find(sid string) *sessM {
	if s.cur != nil && s.cur.sid == sid {
		return s.cur
	}
	for _, a := range s.arch {
		if a.sid == sid {
			return a
		}
	}
	return nil
}

func (s *sideM) push(n *sessM) {
	for i, a := range s.arch {
		if a == n {
			s.arch = append(append([]*sessM{}, s.arch[:i]...), s.arch[i+1:]...)
			break
		}
	}
	if s.cur != nil && s.cur != n {
		s.arch = append([]*sessM{s.cur}, s.arch...)
		if len(s.arch) > MaxArchived {
			s.arch = s.arch[:MaxArchived]
		}
	}
	s.cur = n
	s.seen[n.sid] = true
}

// Conv is a conversation of two parties together with a model of it.
type Conv struct {
	T        rapid.TB
	C        *Case
	P        [2]*Party
	M        [2]*sideM
	Msgs     []*Msg
	consumed [2]map[uint32]bool
	Used     map[string]bool // ratchet keys ever used by either side

	// Decrypt, if set, replaces the call that decrypts (for crash injection...).
	Decrypt func(to int, m *Msg) ([]byte, error)
	// TrackKeys makes messages record the keys they must be encrypted under.
	TrackKeys bool
	// OnSent and OnDelivered, if set, are called after each message sent or
	// accepted.
	OnSent, OnDelivered func(m *Msg)
	// Atomic makes every rejected delivery be checked for side effects.
	Atomic bool
	// Keys makes deliveries return message keys, kept in LastKey.
	Keys    bool
	LastKey *message.Keys
	// counters for labels
	Turns, OutOfOrder, Replays, Inits, Switches int
}

// ConvOpts says how the parties of a conversation store and encode.
type ConvOpts struct {
	JSON   bool
	Mixed  [2]bool // stored in the other encoding
	Apart  [2]bool // builders made of separate stores
	Ser    [2]bool // serialising stores
	Pin    bool
	Names  [2]Addr
	Random *Source
}

// DrawOpts draws store styles and encodings.
func DrawOpts(rt *rapid.T) ConvOpts {
	return ConvOpts{
		JSON:  rapid.IntRange(0, 3).Draw(rt, "json") == 0,
		Mixed: [2]bool{rapid.IntRange(0, 4).Draw(rt, "mixedA") == 1, rapid.IntRange(0, 4).Draw(rt, "mixedB") == 1},
		Apart: [2]bool{rapid.IntRange(0, 2).Draw(rt, "apartA") == 1, rapid.IntRange(0, 2).Draw(rt, "apartB") == 1},
		Ser:   [2]bool{rapid.Bool().Draw(rt, "serA"), rapid.Bool().Draw(rt, "serB")},
		Pin:   rapid.Bool().Draw(rt, "pin"),
	}
}

// NewConv makes two parties without a session.
func NewConv(t rapid.TB, c *Case, o ConvOpts) *Conv {
	if o.Names == ([2]Addr{}) {
		o.Names = [2]Addr{{"alice", 1}, {"bob", 1}}
	}
	cv := &Conv{T: t, C: c, Used: map[string]bool{}}
	for i := range cv.P {
		ser := Serializer(o.JSON)
		if o.Mixed[i] {
			ser = Mixed(o.JSON)
		}
		cv.P[i] = NewParty(o.Names[i], ser, o.Ser[i])
		cv.P[i].Apart = o.Apart[i]
		cv.P[i].Store.Pin = o.Pin
		cv.M[i] = &sideM{seen: map[string]bool{}}
		cv.consumed[i] = map[uint32]bool{}
	}
	c.Log("conversation json=%v stores=%v mixed=%v", o.JSON, o.Ser, o.Mixed)
	return cv
}

func (cv *Conv) name(i int) string { return string(rune('A' + i)) }

// Init lets a party build a session from a new bundle of the other.
func (cv *Conv) Init(from int, kind PreKind) *BundleParts {
	return cv.InitWith(from, cv.P[1-from].NewBundle(kind))
}

// InitWith lets a party build a session from a bundle of the other.
func (cv *Conv) InitWith(from int, b *BundleParts) *BundleParts {
	cv.T.Helper()
	p, to := cv.P[from], cv.P[1-from].Addr
	before := p.Current(to)
	if err := p.Builder(to).ProcessBundle(b.Bundle()); err != nil {
		cv.T.Fatalf("%s cannot build a session from an honest bundle: %v", cv.name(from), err)
	}
	sid := p.Current(to)
	if sid == before || sid == "" {
		cv.T.Fatalf("%s built a session and the current one is %q as before", cv.name(from), sid)
	}
	cv.Initiated(from, b, sid)
	return b
}

// Initiated updates the model after a party built a session.
func (cv *Conv) Initiated(from int, b *BundleParts, sid string) {
	s := &sessM{sid: sid, seen: map[string]bool{}, pending: true, bundle: b}
	spk := hex.EncodeToString(b.SPK.Serialize())
	s.chains = []*chainM{{key: spk, skipped: map[uint32]bool{}}}
	s.seen[spk] = true
	cv.M[from].push(s)
	cv.Inits++
	cv.C.Log("%s inits (prekey %v)", cv.name(from), b.PreID)
}

// CanSend says whether the model has a session to send in.
func (cv *Conv) CanSend(from int) bool { return cv.M[from].cur != nil }

// HasPending says whether the party's current session is unanswered.
func (cv *Conv) HasPending(from int) bool {
	return cv.M[from].cur != nil && cv.M[from].cur.pending
}

// Send encrypts a message, or returns nil without a session.
func (cv *Conv) Send(from int, pt []byte) *Msg {
	cv.T.Helper()
	if cv.M[from].cur == nil {
		p := cv.P[from]
		before := p.Store.Snapshot()
		if w, err := p.Encrypt(cv.P[1-from].Addr, clone(pt)); err == nil {
			cv.T.Fatalf("%s sent %v without a session", cv.name(from), w)
		}
		if d := Diff(before, p.Store.Snapshot()); d != "" {
			cv.T.Fatalf("sending without a session changed the store: %s", d)
		}
		return nil
	}
	p, to := cv.P[from], cv.P[1-from].Addr
	in := clone(pt)
	var keys ref.MsgKeys
	var ck []byte
	if cv.TrackKeys {
		keys, _ = p.SendKeys(to)
		if st := p.Session(to); st != nil && st.SessionState != nil && st.SessionState.SenderChain != nil {
			ck = clone(st.SessionState.SenderChain.ChainKey.Key)
		}
	}
	w, err := p.Encrypt(to, in)
	if err != nil {
		cv.T.Fatalf("%s cannot send: %v", cv.name(from), err)
	}
	m := cv.Sent(from, pt, w)
	m.Keys, m.ChainKey = keys, ck
	if cv.TrackKeys && !Opens(keys, p, cv.P[1-from], w) {
		cv.T.Fatalf("message #%d is not encrypted under the key of the sender's chain", m.N)
	}
	if cv.OnSent != nil {
		cv.OnSent(m)
	}
	return m
}

// Sent updates the model after a message was sent.
func (cv *Conv) Sent(from int, pt []byte, w Wire) *Msg {
	cv.T.Helper()
	p := cv.P[from]
	inner, err := p.Inner(w)
	if err != nil {
		cv.T.Fatalf("%s sent a message that does not parse: %v (%v)", cv.name(from), err, w)
	}
	s := cv.M[from].cur
	m := &Msg{N: len(cv.Msgs), From: from, W: w, PT: clone(pt), Sid: s.sid,
		Chain: hex.EncodeToString(inner.SenderRatchetKey().Serialize()), Ctr: inner.Counter(),
		Prev:    inner.Structure().PreviousCounter,
		WantPre: s.pending, WantCtr: s.sendCtr, WantPrev: s.prev, NewKey: s.sendKey == "", Bundle: s.bundle}
	if cur := p.Current(cv.P[1-from].Addr); cur != s.sid {
		cv.T.Fatalf("%s's current session is %s, expected %s (the one that was initiated or decrypted last)", cv.name(from), cur, s.sid)
	}
	if s.sendKey == "" {
		s.sendKey = m.Chain
	}
	s.sendCtr++
	cv.Msgs = append(cv.Msgs, m)
	cv.C.Log("%s sends #%d(%d bytes)", cv.name(from), m.N, len(pt))
	return m
}

// Verdict is what the model expects of a delivery.
type Verdict int

const (
	Accept Verdict = iota
	Reject
	Unknown
)

func (v Verdict) String() string { return [...]string{"accept", "reject", "unknown"}[v] }

// Predict says what delivering m must give now.
func (cv *Conv) Predict(m *Msg) Verdict {
	r := m.To()
	side := cv.M[r]
	s := side.find(m.Sid)
	if s == nil {
		if !m.W.Pre {
			return Reject
		}
		if side.seen[m.Sid] {
			// The session was evicted from the archive: without a one-time
			// prekey it could be set up again.
			if m.Bundle.PreID.IsEmpty || m.Bundle.PreID.Value == 0xffffff {
				return Unknown
			}
			return Reject
		}
		if !m.Bundle.PreID.IsEmpty && cv.consumed[r][m.Bundle.PreID.Value] {
			return Reject
		}
		if m.Ctr > MaxFuture {
			return Reject
		}
		return Accept
	}
	for _, c := range s.chains {
		if c.key == m.Chain {
			if m.Ctr < c.next {
				if c.skipped[m.Ctr] {
					return Accept
				}
				return Reject
			}
			if m.Ctr-c.next > MaxFuture {
				return Reject
			}
			return Accept
		}
	}
	if s.seen[m.Chain] || m.Ctr > MaxFuture {
		return Reject
	}
	return Accept
}

// Accepted updates the model after m was decrypted.
func (cv *Conv) Accepted(m *Msg) {
	r := m.To()
	side := cv.M[r]
	s := side.find(m.Sid)
	if s == nil {
		s = &sessM{sid: m.Sid, seen: map[string]bool{}, bundle: m.Bundle}
		if !m.Bundle.PreID.IsEmpty && m.Bundle.PreID.Value != 0xffffff {
			cv.consumed[r][m.Bundle.PreID.Value] = true
		}
	}
	if s != side.cur {
		cv.Switches++
	}
	side.push(s)
	s.pending = false
	var c *chainM
	for _, x := range s.chains {
		if x.key == m.Chain {
			c = x
		}
	}
	if c == nil {
		c = &chainM{key: m.Chain, skipped: map[uint32]bool{}}
		s.chains = append(s.chains, c)
		s.seen[m.Chain] = true
		if len(s.chains) > MaxChains {
			s.chains = s.chains[1:]
		}
		s.prev = 0
		if s.sendCtr > 0 {
			s.prev = s.sendCtr - 1
		}
		s.sendKey, s.sendCtr = "", 0
		cv.Turns++
	} else if c != s.chains[len(s.chains)-1] {
		cv.OutOfOrder++
	}
	if m.Ctr < c.next {
		delete(c.skipped, m.Ctr)
		cv.OutOfOrder++
		return
	}
	for i := c.next; i < m.Ctr; i++ {
		c.skipped[i] = true
		c.order = append(c.order, i)
	}
	// Only the newest keys are kept; used ones do not count.
	for len(c.skipped) > MaxSkipped {
		for len(c.order) > 0 && !c.skipped[c.order[0]] {
			c.order = c.order[1:]
		}
		delete(c.skipped, c.order[0])
		c.order = c.order[1:]
	}
	c.next = m.Ctr + 1
}

// Try hands m to its receiver and checks the outcome against the model.
func (cv *Conv) Deliver(m *Msg) Verdict {
	cv.T.Helper()
	v := cv.Predict(m)
	if v == Unknown {
		return v
	}
	r := m.To()
	p, from := cv.P[r], cv.P[m.From].Addr
	var before map[string][]byte
	if cv.Atomic && v == Reject {
		before = p.Store.Snapshot()
	}
	var pt []byte
	var err error
	switch {
	case cv.Decrypt != nil:
		pt, err = cv.Decrypt(r, m)
	case cv.Keys:
		pt, cv.LastKey, err = p.DecryptKey(from, m.W)
	default:
		pt, err = p.Decrypt(from, m.W)
	}
	if m.Delivered > 0 {
		cv.Replays++
	}
	cv.C.Log("deliver #%d: %v", m.N, v)
	switch v {
	case Accept:
		if err != nil {
			cv.T.Fatalf("message #%d (%d of its chain) must decrypt, but: %v", m.N, m.Ctr, err)
		}
		if !bytes.Equal(pt, m.PT) {
			cv.T.Fatalf("message #%d decrypts to %x, sent was %x", m.N, pt, m.PT)
		}
		cv.Accepted(m)
		m.Delivered++
		if cv.OnDelivered != nil {
			cv.OnDelivered(m)
		}
	case Reject:
		if err == nil {
			if m.Delivered > 0 {
				cv.T.Fatalf("message #%d was accepted again, as %x", m.N, pt)
			}
			cv.T.Fatalf("message #%d must be rejected but decrypts to %x", m.N, pt)
		}
		if cv.Atomic {
			if d := Diff(before, p.Store.Snapshot()); d != "" {
				cv.T.Fatalf("rejecting message #%d (%v) changed the store: %s", m.N, err, d)
			}
		}
	}
	return v
}

// Reload makes a party re-read everything from its store.
func (cv *Conv) Reload(i int) {
	cv.P[i].Store.Reload()
	cv.P[i].Restart()
	cv.C.Log("%s reloads", cv.name(i))
}

// Pending lists the undelivered messages that must decrypt.
func (cv *Conv) Pending() []*Msg {
	var out []*Msg
	for _, m := range cv.Msgs {
		if m.Delivered == 0 && cv.Predict(m) == Accept {
			out = append(out, m)
		}
	}
	return out
}

// DrainOrder delivers everything that is outstanding, in the drawn order, and
// checks that both parties can still talk.
func (cv *Conv) Drain(rt *rapid.T) {
	cv.T.Helper()
	for {
		p := cv.Pending()
		if len(p) == 0 {
			break
		}
		i := len(p) - 1
		if rt != nil {
			i = rapid.IntRange(0, len(p)-1).Draw(rt, "drain")
		}
		cv.Deliver(p[i])
	}
}

// PingPong checks that messages still flow in both directions.
func (cv *Conv) PingPong() {
	cv.T.Helper()
	for k := 0; k < 2; k++ {
		for i := 0; i < 2; i++ {
			if cv.CanSend(i) {
				m := cv.Send(i, []byte(fmt.Sprintf("ping %d %d", k, i)))
				if cv.Predict(m) == Accept {
					cv.Deliver(m)
				}
			}
		}
	}
}

// Op is a generated step of a conversation.
type Op struct {
	Kind string
	Who  int
	N    int
	PT   []byte
	Pre  PreKind
}

func (o Op) String() string { return fmt.Sprintf("%s(%d,%d)", o.Kind, o.Who, o.N) }

// OpWeights are the frequencies of kinds of steps.
type OpWeights map[string]int

// BasicOps are the usual frequencies.
func BasicOps() map[string]int {
	return map[string]int{"send": 8, "deliverNew": 3, "deliverOld": 4, "deliver": 4, "replay": 2, "drop": 1, "reload": 1, "turn": 2, "long": 1}
}

// GenOps generates the steps of a conversation.
func GenOps(w map[string]int, min, max int) *rapid.Generator[[]Op] {
	var kinds []string
	known := 0
	for _, k := range []string{"send", "deliverNew", "deliverOld", "deliver", "replay", "drop", "reload", "init", "reinit", "burst", "turn", "long", "corrupt", "close", "forget", "age", "x1", "x2", "x3", "x4"} {
		for i := 0; i < w[k]; i++ {
			kinds = append(kinds, k)
		}
		if _, ok := w[k]; ok {
			known++
		}
	}
	if known != len(w) {
		panic("unknown kind of operation")
	}
	one := rapid.Custom(func(t *rapid.T) Op {
		o := Op{Kind: rapid.SampledFrom(kinds).Draw(t, "op"), Who: rapid.IntRange(0, 1).Draw(t, "who")}
		switch o.Kind {
		case "send", "burst":
			o.PT = Plain().Draw(t, "pt")
			o.N = rapid.IntRange(0, 40).Draw(t, "n")
		case "init", "reinit":
			o.Pre = PreKind(rapid.IntRange(0, 2).Draw(t, "pre"))
		default:
			o.N = rapid.IntRange(0, 200).Draw(t, "n")
		}
		return o
	})
	return rapid.Custom(func(t *rapid.T) []Op {
		lo := rapid.SampledFrom([]int{min, max / 4, max / 2}).Draw(t, "length")
		return rapid.SliceOfN(one, lo, max).Draw(t, "steps")
	})
}

// Step performs a generated step; it returns false for kinds it does not know.
func (cv *Conv) Step(o Op) bool {
	cv.T.Helper()
	pick := func(f func(m *Msg) bool) []*Msg {
		var out []*Msg
		for _, m := range cv.Msgs {
			if f(m) {
				out = append(out, m)
			}
		}
		return out
	}
	fresh := func(m *Msg) bool { return m.To() == o.Who && m.Delivered == 0 }
	switch o.Kind {
	case "send":
		cv.Send(o.Who, o.PT)
	case "burst":
		for i := 0; i < o.N && cv.CanSend(o.Who); i++ {
			cv.Send(o.Who, []byte{byte(i)})
		}
	case "turn":
		// One or more messages of which one arrives.
		var ms []*Msg
		for i := 0; i < 1+o.N%3 && cv.CanSend(o.Who); i++ {
			ms = append(ms, cv.Send(o.Who, []byte{byte(i), byte(o.N)}))
		}
		if len(ms) > 0 {
			cv.Deliver(ms[o.N/3%len(ms)])
		}
	case "long":
		// Now and then a long run of messages of which few can arrive.
		if o.N%8 == 0 {
			cv.Long(o.Who, 30+o.N, o.N%5)
		}
	case "deliverOld":
		if l := pick(fresh); len(l) > 0 {
			cv.Deliver(l[0])
		}
	case "deliverNew":
		if l := pick(fresh); len(l) > 0 {
			cv.Deliver(l[len(l)-1])
		}
	case "deliver":
		if l := pick(fresh); len(l) > 0 {
			cv.Deliver(l[o.N%len(l)])
		}
	case "replay":
		if l := pick(func(m *Msg) bool { return m.To() == o.Who && m.Delivered > 0 }); len(l) > 0 {
			cv.Deliver(l[o.N%len(l)])
		}
	case "drop":
		if l := pick(fresh); len(l) > 0 {
			l[o.N%len(l)].Delivered = -1 << 20 // never considered again
		}
	case "reload":
		cv.Reload(o.Who)
	case "age":
		cv.Age(o.Who, o.N)
	case "close":
		cv.Close(o.Who)
	case "forget":
		cv.Forget(o.Who)
	case "init":
		if !cv.CanSend(o.Who) || o.Pre == OneTime {
			cv.Init(o.Who, o.Pre)
		}
	case "reinit":
		cv.Init(o.Who, o.Pre)
	default:
		return false
	}
	return true
}

// Long sends n messages of which about keep, the last among them, can arrive.
func (cv *Conv) Long(from, n, keep int) {
	for i := 0; i < n && cv.CanSend(from); i++ {
		m := cv.Send(from, []byte{byte(i), byte(i >> 8), 1})
		if i < n-1 && (keep == 0 || i%(n/keep) != n/keep-1) {
			m.Delivered = -1 << 20
		}
	}
}

// Close archives a party's current session, as an application does to end it.
func (cv *Conv) Close(i int) {
	p, to := cv.P[i], cv.P[1-i].Addr
	if !p.Store.ContainsSession(to.Signal()) {
		return
	}
	r := p.Store.LoadSession(to.Signal())
	r.ArchiveCurrentState()
	p.Store.StoreSession(to.Signal(), r)
	s := cv.M[i]
	if s.cur != nil {
		s.arch = append([]*sessM{s.cur}, s.arch...)
		if len(s.arch) > MaxArchived {
			s.arch = s.arch[:MaxArchived]
		}
		s.cur = nil
	}
	cv.C.Log("%s closes its session", cv.name(i))
}

// Forget deletes all of a party's sessions with the other.
func (cv *Conv) Forget(i int) {
	cv.P[i].Store.DeleteSession(cv.P[1-i].Addr.Signal())
	cv.M[i].cur, cv.M[i].arch = nil, nil
	cv.C.Log("%s deletes its sessions", cv.name(i))
}

// Sessions lists the model's sessions of a party, the current one first.
func (cv *Conv) Sessions(i int) (cur string, all []string) {
	s := cv.M[i]
	if s.cur != nil {
		cur = s.cur.sid
		all = append(all, cur)
	}
	for _, a := range s.arch {
		all = append(all, a.sid)
	}
	return cur, all
}

func (s *sessM) copy() *sessM {
	c := *s
	c.chains, c.seen = nil, map[string]bool{}
	for _, x := range s.chains {
		y := &chainM{key: x.key, next: x.next, skipped: map[uint32]bool{}, order: append([]uint32{}, x.order...)}
		for k := range x.skipped {
			y.skipped[k] = true
		}
		c.chains = append(c.chains, y)
	}
	for k := range s.seen {
		c.seen[k] = true
	}
	return &c
}

// Save keeps the state of the conversation, its model and its stores, and
// returns a function that goes back to it any number of times. It requires
// serialising stores.
func (cv *Conv) Save() func() {
	var st [2]*Store
	for i, p := range cv.P {
		st[i] = p.Store.Clone()
	}
	keep := cv.copyModel()
	var next [2][2]uint32
	for i, p := range cv.P {
		next[i] = [2]uint32{p.nextPre, p.nextSPK}
	}
	return func() {
		m := keep.copyModel()
		cv.M, cv.Msgs, cv.consumed, cv.Inits = m.M, m.Msgs, m.consumed, m.Inits
		for i, p := range cv.P {
			p.Store.Restore(st[i].Clone())
			p.nextPre, p.nextSPK = next[i][0], next[i][1]
			p.Restart()
		}
	}
}

func (cv *Conv) copyModel() *Conv {
	c := &Conv{Inits: cv.Inits}
	for i, s := range cv.M {
		n := &sideM{seen: map[string]bool{}}
		if s.cur != nil {
			n.cur = s.cur.copy()
		}
		for _, a := range s.arch {
			n.arch = append(n.arch, a.copy())
		}
		for k := range s.seen {
			n.seen[k] = true
		}
		c.M[i] = n
		c.consumed[i] = map[uint32]bool{}
		for k := range cv.consumed[i] {
			c.consumed[i][k] = true
		}
	}
	for _, m := range cv.Msgs {
		n := *m
		c.Msgs = append(c.Msgs, &n)
	}
	return c
}

// Lost updates the model after a message was encrypted and stored as sent but
// got lost before it was returned.
func (cv *Conv) Lost(from int) {
	if s := cv.M[from].cur; s != nil {
		s.sendCtr++
	}
}
