id='C07-pol-round'; prop='C07'
needs='a proposal in a later round whose proof-of-lock round is 0'
breaks='Other bytes are signed than those of the requested proposal, and the message that is handed back is changed.'
edits=[('signer/threshold_validator.go','''func (pv *ThresholdValidator) SignProposal(chainID string, proposal *tmProto.Proposal) error {
''','''func (pv *ThresholdValidator) SignProposal(chainID string, proposal *tmProto.Proposal) error {
	if proposal.Round > 0 && proposal.PolRound == 0 {
		// not set, there is no proof of lock
		proposal.PolRound = -1
	}
'''),('signer/threshold_validator.go','''// SignProposal signs a canonical representation of the proposal, along with
''','''// SignProposal signs the canonical representation of the proposal, along with
''')]
test='''
package signer_test

import (
	"testing"
	"time"

	"github.com/stretchr/testify/require"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

func TestDemo(t *testing.T) {
	c := newCluster(t, 2, 2)
	v := c.leader(t, c.state(t, "val.json"), c.cos[1])
	p := &tmProto.Proposal{Type: tmProto.ProposalType, Height: 10, Round: 1, PolRound: 0, Timestamp: time.Unix(1, 0).UTC(),
		BlockID: tmProto.BlockID{Hash: hash(1), PartSetHeader: tmProto.PartSetHeader{Total: 1, Hash: hash(1)}}}
	want := tm.ProposalSignBytes(chain, p)
	require.NoError(t, v.SignProposal(chain, p))
	require.Equal(t, int32(0), p.PolRound)
	require.True(t, c.pub.VerifySignature(want, p.Signature), "other bytes than the requested ones were signed")
}
'''
