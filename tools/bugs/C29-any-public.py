id='C29-any-public'; prop='C29'
needs='a cosigner that answers last and reports another ephemeral public key than ours'
breaks='The signature is put together with the ephemeral public key of whoever answered last.'
edits=[('signer/threshold_validator.go','''	if peerID == ourID {
		*ephemeralPublic = sigRes.EphemeralPublic
	}
''','''	// all cosigners have the same
	*ephemeralPublic = sigRes.EphemeralPublic
'''),('signer/threshold_validator.go','''	ourID int,
	peer Cosigner,
''','''	peer Cosigner,
'''),('signer/threshold_validator.go','''	ourID := pv.cosigner.GetID()

''',''),('signer/threshold_validator.go','''		go pv.waitForPeerSetEphemeralSharesAndSign(ourID, peer,''','''		go pv.waitForPeerSetEphemeralSharesAndSign(peer,''')]
test='''
package signer_test

import (
	"testing"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

type odd struct{ signer.Cosigner }

func (o odd) SetEphemeralSecretPartsAndSign(
	req signer.CosignerSetEphemeralSecretPartsAndSignRequest) (*signer.CosignerSignResponse, error) {
	res, err := o.Cosigner.SetEphemeralSecretPartsAndSign(req)
	time.Sleep(time.Second)
	if err == nil {
		res.EphemeralPublic = make([]byte, 32)
	}
	return res, err
}

func TestDemo(t *testing.T) {
	c := newCluster(t, 2, 2)
	v := c.leader(t, c.state(t, "val.json"), odd{c.cos[1]})
	m := vote(tmProto.PrevoteType, 10, 0, 1, 1)
	require.NoError(t, v.SignVote(chain, m))
	require.True(t, c.pub.VerifySignature(tm.VoteSignBytes(chain, m), m.Signature))
}
'''
