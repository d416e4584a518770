id='C12-nonce-by-hrs'; prop='C12'
needs='two requests for the same height, round and step with different timestamps'
breaks='The nonce secret dealt for one timestamp is stored for another timestamp as well, so it takes part in two signatures.'
edits=[('signer/local_cosigner.go','''	secret := make([]byte, 32)
	if _, err''','''	// another timestamp of the same block needs no other shares
	for key, existing := range cosigner.hrsMeta {
		if key.Height == hrsKey.Height && key.Round == hrsKey.Round && key.Step == hrsKey.Step {
			meta = HrsMetadata{
				Secret:      existing.Secret,
				DealtShares: existing.DealtShares,
				Peers:       make([]PeerMetadata, cosigner.total),
			}
			cosigner.hrsMeta[hrsKey] = meta
			return meta, nil
		}
	}

	secret := make([]byte, 32)
	if _, err''')]
test='''
package signer_test

import (
	"testing"

	"github.com/stretchr/testify/require"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

func TestDemo(t *testing.T) {
	c := newCluster(t, 2, 2)
	a, err := c.cos[0].GetEphemeralSecretParts(hrstOf(vote(tmProto.PrevoteType, 10, 0, 1, 1)))
	require.NoError(t, err)
	b, err := c.cos[0].GetEphemeralSecretParts(hrstOf(vote(tmProto.PrevoteType, 10, 0, 1, 2)))
	require.NoError(t, err)
	require.NotEqual(t, a.EncryptedSecrets[0].SourceEphemeralSecretPublicKey, b.EncryptedSecrets[0].SourceEphemeralSecretPublicKey)
}
'''
