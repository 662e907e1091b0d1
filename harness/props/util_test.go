package props

import (
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
)

func libIDOf(k *ecc.ECKeyPair) *identity.Key { return identity.NewKey(k.PublicKey()) }

func libIDOfBytes(b [33]byte) *identity.Key {
	var k [32]byte
	copy(k[:], b[1:])
	return identity.NewKey(ecc.NewDjbECPublicKey(k))
}
