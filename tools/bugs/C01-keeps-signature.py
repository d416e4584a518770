id='C01-keeps-signature'; prop='C01'
needs='a record with a signature, then a newer position recorded without one (operator state set)'
breaks='The record at the new position keeps signature and signed bytes of the old one.'
edits=[('signer/sign_state.go','''	signState.Signature = ssc.Signature
	signState.SignBytes = ssc.SignBytes
''','''	if ssc.Signature != nil {
		signState.Signature = ssc.Signature
		signState.SignBytes = ssc.SignBytes
	}
''')]
test='''
package signer_test

import (
	"testing"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
)

func TestDemo(t *testing.T) {
	c := newCluster(t, 2, 2)
	require.NoError(t, c.cos[0].SaveLastSignedState(signer.SignStateConsensus{Height: 5, Step: 2, Signature: []byte("sig"), SignBytes: []byte("bytes")}))
	require.NoError(t, c.cos[0].SaveLastSignedState(signer.NewSignStateConsensus(9, 0, 0)))
	st := c.load2(t, "share1.json")
	require.Equal(t, int64(9), st.Height)
	require.Empty(t, st.Signature)
	require.Empty(t, st.SignBytes)
}
'''
