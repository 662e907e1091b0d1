package kit

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"

	"github.com/prospik/libsignal-protocol-go/state/record"
	"verif/ref"
)

// SendKeys returns the keys that the next message to an address will be
// encrypted with, computed from the stored session.
func (p *Party) SendKeys(to Addr) (ref.MsgKeys, bool) {
	st := p.Session(to)
	if st == nil || st.SessionState == nil || st.SessionState.SenderChain == nil || st.SessionState.SenderChain.ChainKey == nil {
		return ref.MsgKeys{}, false
	}
	return ref.Keys(st.SessionState.SenderChain.ChainKey.Key), true
}

// Opens says whether keys decrypt and authenticate a message of a party to
// another.
func Opens(k ref.MsgKeys, from, to *Party, w Wire) bool {
	inner, err := from.Inner(w)
	if err != nil {
		return false
	}
	_, err = ref.DecCbc(k.Cipher, k.Iv, inner.Body())
	return err == nil
}

// KeySet is a set of message keys by cipher key and iv.
type KeySet map[string]string

func keyID(k ref.MsgKeys) string { return string(k.Cipher) + string(k.Iv) }

// Add adds the key of a message.
func (s KeySet) Add(k ref.MsgKeys, what string) { s[keyID(k)] = what }

// Has looks for a key.
func (s KeySet) Has(k ref.MsgKeys) (string, bool) { w, ok := s[keyID(k)]; return w, ok }

// Reachable calls f for all message keys that are in a session record or can
// be derived from what is in it, knowing all public ratchet keys, up to the
// given index of a chain.
func Reachable(st *record.SessionStructure, publics [][]byte, depth int, f func(ref.MsgKeys, string) bool) {
	var states []*record.StateStructure
	if st.SessionState != nil {
		states = append(states, st.SessionState)
	}
	states = append(states, st.PreviousStates...)
	for n, s := range states {
		if s == nil {
			continue
		}
		where := fmt.Sprintf("state %d", n)
		chain := func(ck []byte, from uint32, w string) bool {
			if len(ck) != 32 {
				return true
			}
			for i := int(from); i <= depth; i++ {
				if !f(ref.Keys(ck), fmt.Sprintf("%s, %s %d steps ahead", where, w, i-int(from))) {
					return false
				}
				ck = ref.NextChain(ck)
			}
			return true
		}
		var privs [][]byte
		addPriv := func(b []byte) {
			if len(b) == 32 {
				privs = append(privs, b)
			}
		}
		chains := append([]*record.ChainStructure{}, s.ReceiverChains...)
		if s.SenderChain != nil {
			chains = append(chains, s.SenderChain)
		}
		for _, c := range chains {
			if c == nil {
				continue
			}
			addPriv(c.SenderRatchetKeyPrivate)
			for _, k := range c.MessageKeys {
				if k != nil && !f(ref.MsgKeys{Cipher: k.CipherKey, Mac: k.MacKey, Iv: k.IV}, where+", stored message key") {
					return
				}
			}
			if c.ChainKey != nil && !chain(c.ChainKey.Key, c.ChainKey.Index, "chain key") {
				return
			}
		}
		if x := s.PendingKeyExchange; x != nil {
			addPriv(x.LocalBaseKeyPrivate)
			addPriv(x.LocalRatchetKeyPrivate)
		}
		// One and two ratchet steps from the root key.
		if len(s.RootKey) == 32 {
			for _, p := range privs {
				for _, u := range publics {
					r, ck := ref.RootStep(s.RootKey, p, u)
					if !chain(ck, 0, "root key") {
						return
					}
					for _, p2 := range privs {
						_, ck2 := ref.RootStep(r, p2, u)
						if !chain(ck2, 0, "root key twice") {
							return
						}
					}
				}
			}
		}
	}
}

// ContainsSecret says whether bytes contain a secret in a usual encoding.
func ContainsSecret(b, secret []byte) bool {
	return bytes.Contains(b, secret) || bytes.Contains(b, []byte(base64.StdEncoding.EncodeToString(secret))) ||
		bytes.Contains(b, []byte(base64.RawURLEncoding.EncodeToString(secret))) || bytes.Contains(b, []byte(hex.EncodeToString(secret)))
}
