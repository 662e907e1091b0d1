package kit

import (
	"encoding/hex"
	"fmt"

	groupRecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

// Chains get old: nothing but the number tells the chain key of message five
// from that of message five billion. Aging moves the numbers of a chain forward
// at both ends at once, to where the numbers need more bytes, as if that many
// messages had been sent and received.

// ages are numbers that are about to need more bits.
var ages = []uint32{120, 250, 16380, 32760, 65530, 1<<24 - 5, 1<<31 - 5, 1<<32 - 40000}

// older returns how far to move a chain at next so that it comes to the i-th age.
func older(next uint32, i int) uint32 {
	for n := range ages {
		if a := ages[(i+n)%len(ages)]; a > next && next < 1<<32-50000 {
			return a - next
		}
	}
	return 0
}

// putSession replaces a stored session.
func (p *Party) putSession(a Addr, st *record.SessionStructure) {
	r, err := record.NewSessionFromStructure(st, p.Ser.Session, p.Ser.State)
	if err != nil {
		panic(fmt.Sprintf("a session cannot be made of its structure: %v", err))
	}
	p.Store.StoreSession(a.Signal(), r)
}

// Age makes the current sending chain of a party older, if its receiver has
// received all of it.
func (cv *Conv) Age(from, i int) {
	cv.T.Helper()
	s := cv.M[from].cur
	if s == nil || s.sendKey == "" {
		return
	}
	peer := cv.M[1-from].find(s.sid)
	if peer == nil {
		return
	}
	for _, c := range peer.chains {
		if c.key != s.sendKey || c.next != s.sendCtr {
			continue
		}
		add := older(c.next, i)
		if add == 0 {
			return
		}
		p, q := cv.P[from], cv.P[1-from]
		st := p.Session(q.Addr)
		if hex.EncodeToString(st.SessionState.SenderChain.SenderRatchetKeyPublic) != s.sendKey || st.SessionState.SenderChain.ChainKey.Index != s.sendCtr {
			cv.T.Fatalf("%s's sending chain is not the one it sends with", cv.name(from))
		}
		st.SessionState.SenderChain.ChainKey.Index += add
		p.putSession(q.Addr, st)
		st = q.Session(p.Addr)
		n := 0
		for _, x := range append([]*record.StateStructure{st.SessionState}, st.PreviousStates...) {
			if x == nil || hex.EncodeToString(x.SenderBaseKey) != s.sid {
				continue
			}
			for _, y := range x.ReceiverChains {
				if hex.EncodeToString(y.SenderRatchetKeyPublic) == c.key {
					if y.ChainKey.Index != c.next {
						cv.T.Fatalf("%s's receiving chain is at %d, expected %d", cv.name(1-from), y.ChainKey.Index, c.next)
					}
					y.ChainKey.Index += add
					n++
				}
			}
		}
		if n != 1 {
			cv.T.Fatalf("%s has %d chains to receive with, expected 1", cv.name(1-from), n)
		}
		q.putSession(p.Addr, st)
		c.next += add
		s.sendCtr += add
		cv.C.Log("%s's chain ages by %d", cv.name(from), add)
		cv.C.Label("aged")
		return
	}
}

// agesOf are the shifts of a sending key, by the iteration after them.
type shift struct{ at, add uint32 }

// Steps is the number of chain steps that lead to an iteration.
func (e *GEpoch) Steps(iter uint32) uint32 {
	n := iter
	for _, s := range e.shifts {
		if iter >= s.at {
			n -= s.add
		}
	}
	return n
}

// Age makes a sending key older, at all members that are up to date with it.
// The others have lost its messages.
func (g *Group) Age(e *GEpoch, i int) {
	g.T.Helper()
	own := g.first(e.Owner, e.Name)
	if own == nil || own.e != e || !own.owner {
		return
	}
	next := own.next
	add := older(next, i)
	if add <= GroupFuture {
		return // or a member that is behind could catch up
	}
	n := 0
	for who, p := range g.P {
		s := g.find(who, e)
		if s == nil || s.next != next {
			continue
		}
		st, err := p.Ser.SenderKeyRecord.Deserialize(p.Store.SenderKeyBytes(e.Name))
		if err != nil {
			g.T.Fatalf("a sender key cannot be read: %v", err)
		}
		found := false
		for _, x := range st.SenderKeyStates {
			if x.KeyID == e.First.ID && string(x.SigningKeyPublic) == string(e.First.Signing) {
				if x.SenderChainKey.Iteration != next || found {
					g.T.Fatalf("member %d is at %d of key %d, expected %d", who, x.SenderChainKey.Iteration, e.N, next)
				}
				x.SenderChainKey.Iteration += add
				found = true
			}
		}
		if !found {
			g.T.Fatalf("member %d lacks key %d", who, e.N)
		}
		r, err := groupRecord.NewSenderKeyFromStruct(st, p.Ser.SenderKeyRecord, p.Ser.SenderKeyState)
		if err != nil {
			g.T.Fatalf("a sender key cannot be made of its structure: %v", err)
		}
		p.Store.StoreSenderKey(e.Name.Signal(), r)
		s.next += add
		n++
	}
	e.Next = own.next
	e.shifts = append(e.shifts, shift{next + add, add})
	g.C.Log("key %d ages by %d at %d members", e.N, add, n)
	g.C.Label("aged")
}

// AgeSenderKey moves the sending key that a party uses forward.
func (p *Party) AgeSenderKey(n SKName, add uint32) {
	st, err := p.Ser.SenderKeyRecord.Deserialize(p.Store.SenderKeyBytes(n))
	if err != nil {
		panic(fmt.Sprintf("a sender key cannot be read: %v", err))
	}
	st.SenderKeyStates[0].SenderChainKey.Iteration += add
	r, err := groupRecord.NewSenderKeyFromStruct(st, p.Ser.SenderKeyRecord, p.Ser.SenderKeyState)
	if err != nil {
		panic(fmt.Sprintf("a sender key cannot be made of its structure: %v", err))
	}
	p.Store.StoreSenderKey(n.Signal(), r)
}

// AgePair makes the sending chain of one party older that is the one another
// receives with, if the other is up to date with it. It tells whether that was so.
func AgePair(p, q *Party, i int) bool {
	if !p.Store.ContainsSession(q.Addr.Signal()) || !q.Store.ContainsSession(p.Addr.Signal()) {
		return false
	}
	st, to := p.Session(q.Addr), q.Session(p.Addr)
	if st.SessionState == nil || st.SessionState.SenderChain == nil || st.SessionState.SenderChain.ChainKey == nil {
		return false
	}
	s := st.SessionState.SenderChain
	for _, x := range append([]*record.StateStructure{to.SessionState}, to.PreviousStates...) {
		if x == nil {
			continue
		}
		for _, y := range x.ReceiverChains {
			if string(y.SenderRatchetKeyPublic) != string(s.SenderRatchetKeyPublic) || string(y.ChainKey.Key) != string(s.ChainKey.Key) || y.ChainKey.Index != s.ChainKey.Index {
				continue
			}
			add := older(s.ChainKey.Index, i)
			s.ChainKey.Index += add
			y.ChainKey.Index += add
			p.putSession(q.Addr, st)
			q.putSession(p.Addr, to)
			return add > 0
		}
	}
	return false
}

// AgeGroup does so for the sending key of a party and all that are up to date with it.
func AgeGroup(p *Party, n SKName, all []*Party, i int) bool {
	b := p.Store.SenderKeyBytes(n)
	if b == nil {
		return false
	}
	st, err := p.Ser.SenderKeyRecord.Deserialize(b)
	if err != nil || len(st.SenderKeyStates) == 0 || st.SenderKeyStates[0].SenderChainKey == nil {
		return false
	}
	own := st.SenderKeyStates[0]
	add := older(own.SenderChainKey.Iteration, i)
	for _, q := range all {
		b := q.Store.SenderKeyBytes(n)
		if b == nil {
			continue
		}
		to, err := q.Ser.SenderKeyRecord.Deserialize(b)
		if err != nil {
			panic(fmt.Sprintf("a sender key cannot be read: %v", err))
		}
		for _, x := range to.SenderKeyStates {
			if x.KeyID == own.KeyID && string(x.SenderChainKey.ChainKey) == string(own.SenderChainKey.ChainKey) && x.SenderChainKey.Iteration == own.SenderChainKey.Iteration {
				x.SenderChainKey.Iteration += add
			}
		}
		r, err := groupRecord.NewSenderKeyFromStruct(to, q.Ser.SenderKeyRecord, q.Ser.SenderKeyState)
		if err != nil {
			panic(fmt.Sprintf("a sender key cannot be made of its structure: %v", err))
		}
		q.Store.StoreSenderKey(n.Signal(), r)
	}
	return add > 0
}

// AgeReceiving makes a receiving chain of a session older. It returns by how much.
func (p *Party) AgeReceiving(a Addr, ratchet []byte, i int) uint32 {
	st := p.Session(a)
	for _, x := range append([]*record.StateStructure{st.SessionState}, st.PreviousStates...) {
		if x == nil {
			continue
		}
		for _, y := range x.ReceiverChains {
			if string(y.SenderRatchetKeyPublic) == string(ratchet) {
				add := older(y.ChainKey.Index, i)
				y.ChainKey.Index += add
				p.putSession(a, st)
				return add
			}
		}
	}
	return 0
}

// AgeSending makes the current sending chain of a party older, together with
// its receiver, which has to agree.
func (p *Party) AgeSending(a Addr, i int, receiver func(ratchet []byte, next, add uint32) bool) uint32 {
	st := p.Session(a)
	if st == nil || st.SessionState == nil || st.SessionState.SenderChain == nil {
		return 0
	}
	c := st.SessionState.SenderChain
	add := older(c.ChainKey.Index, i)
	if add == 0 || !receiver(c.SenderRatchetKeyPublic, c.ChainKey.Index, add) {
		return 0
	}
	c.ChainKey.Index += add
	p.putSession(a, st)
	return add
}

// AgeReceivingAt is AgeReceiving for a chain whose next counter is known.
func (p *Party) AgeReceivingAt(a Addr, ratchet []byte, next uint32, i int) uint32 {
	st := p.Session(a)
	if st == nil {
		return 0
	}
	for _, x := range append([]*record.StateStructure{st.SessionState}, st.PreviousStates...) {
		if x == nil {
			continue
		}
		for _, y := range x.ReceiverChains {
			if string(y.SenderRatchetKeyPublic) == string(ratchet) && y.ChainKey.Index == next {
				return p.AgeReceiving(a, ratchet, i)
			}
		}
	}
	return 0
}
