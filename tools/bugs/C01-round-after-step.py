id='C01-round-after-step'; prop='C01'
needs='a record at (h, r, s) and a later offer at the same height, a lower round and a higher step'
breaks='A lower position replaces the last-signed record: the step is compared before the round.'
edits=[('signer/sign_state.go','''	// Height is equal

	if round < signState.Round {''','''	// Height is equal
	if step > signState.Step {
		return nil
	}

	if round < signState.Round {''')]
test='''
package signer_test

import (
	"testing"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
)

func TestDemo(t *testing.T) {
	c := newCluster(t, 2, 2)
	require.NoError(t, c.cos[0].SaveLastSignedState(signer.NewSignStateConsensus(5, 3, 1)))
	require.Error(t, c.cos[0].SaveLastSignedState(signer.NewSignStateConsensus(5, 2, 3)))
	require.NoError(t, c.cos[0].SaveLastSignedState(signer.NewSignStateConsensus(5, 3, 2)))
	require.Equal(t, int64(3), c.load2(t, "share1.json").Round)
}
'''
