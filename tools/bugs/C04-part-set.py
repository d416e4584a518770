id='C04-part-set'; prop='C04'
needs='two precommits for one position with the same block hash but another part set'
breaks='Votes that differ in the part set header are taken to differ in the timestamp only and are signed again.'
edits=[('signer/sign_state.go','''	newVote.Timestamp = lastVote.Timestamp

	isEqual := proto.Equal(&newVote, &lastVote)
''','''	newVote.Timestamp = lastVote.Timestamp

	isEqual := newVote.ChainID == lastVote.ChainID && newVote.Type == lastVote.Type &&
		newVote.Height == lastVote.Height && newVote.Round == lastVote.Round &&
		(newVote.BlockID == nil) == (lastVote.BlockID == nil) &&
		bytes.Equal(newVote.GetBlockID().GetHash(), lastVote.GetBlockID().GetHash())
'''),]
test='''
package signer_test

import (
	"testing"

	"github.com/stretchr/testify/require"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

func TestDemo(t *testing.T) {
	c := newCluster(t, 2, 2)
	_, err := c.sign(t, 0, vote(tmProto.PrecommitType, 10, 0, 1, 1))
	require.NoError(t, err)
	v := vote(tmProto.PrecommitType, 10, 0, 1, 2)
	_, err = c.sign(t, 0, v)
	require.NoError(t, err, "only the timestamp differs")
	v = vote(tmProto.PrecommitType, 10, 0, 1, 3)
	v.BlockID.PartSetHeader.Total = 2
	_, err = c.sign(t, 0, v)
	require.Error(t, err)
}
'''
