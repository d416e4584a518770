id='C28-seeded-padding'; prop='C28'
needs='the same ephemeral share sent twice, or an attacker who knows the position'
breaks='The randomness of the encryption of a share is derived from the position, which everyone knows.'
edits=[('signer/local_cosigner.go','''	"fmt"
	"sync"
''','''	"fmt"
	mrand "math/rand"
	"sync"
'''),('signer/local_cosigner.go','''	encrypted, err := rsa.EncryptOAEP(sha256.New(), rand.Reader, &peer.PublicKey, sharePart, nil)
''','''	// the same answer if asked again
	padding := mrand.New(mrand.NewSource(hrst.Height ^ hrst.Round<<32 ^ hrst.Timestamp)) //nolint
	encrypted, err := rsa.EncryptOAEP(sha256.New(), padding, &peer.PublicKey, sharePart, nil)
''')]
test='''
package signer_test

import (
	"testing"

	"github.com/stretchr/testify/require"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

func TestDemo(t *testing.T) {
	c := newCluster(t, 2, 2)
	k := hrstOf(vote(tmProto.PrevoteType, 10, 0, 1, 1))
	a, err := c.cos[0].GetEphemeralSecretParts(k)
	require.NoError(t, err)
	b, err := c.cos[0].GetEphemeralSecretParts(k)
	require.NoError(t, err)
	require.NotEqual(t, a.EncryptedSecrets[0].EncryptedSharePart, b.EncryptedSecrets[0].EncryptedSharePart, "the encryption is predictable")
}
'''
