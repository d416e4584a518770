id='C02-claimed-position'; prop='C02'
needs='a share request whose claimed position is above the watermark while the bytes to be signed are for a lower one'
breaks='The cosigner checks the position the request claims instead of the one decoded from the bytes, so it signs below its watermark.'
edits=[('signer/local_cosigner.go','''	hrst, err := UnpackHRST(req.SignBytes)
	if err != nil {
		return res, err
	}

	sameHRS''','''	if _, err := UnpackHRST(req.SignBytes); err != nil {
		return res, err
	}
	hrst := req.HRST

	sameHRS'''),
('signer/Cosigner.go','''type CosignerSignRequest struct {
''','''type CosignerSignRequest struct {
	HRST      HRSTKey
'''),
('signer/local_cosigner.go','CosignerSignRequest{req.SignBytes}','CosignerSignRequest{req.HRST, req.SignBytes}')]
test='''
package signer_test

import (
	"testing"

	"github.com/stretchr/testify/require"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

func TestDemo(t *testing.T) {
	c := newCluster(t, 2, 2)
	_, err := c.sign(t, 0, vote(tmProto.PrevoteType, 10, 0, 1, 1))
	require.NoError(t, err)
	// claims height 11, the bytes are a conflicting vote at height 9
	_, err = c.signBytes(t, 0, hrstOf(vote(tmProto.PrevoteType, 11, 0, 1, 1)), tm.VoteSignBytes(chain, vote(tmProto.PrevoteType, 9, 0, 2, 1)))
	require.Error(t, err)
}
'''
