id='C06-reuse-signature'; prop='C06'
needs='a second request for a signed position that differs in the timestamp only'
breaks='The recorded signature is returned for other bytes than it was made for, with the new timestamp: it does not verify.'
edits=[('signer/threshold_validator.go','''		// only differ by timestamp, okay to sign again
		return nil, stamp, nil
''','''		// only differ by timestamp, the signature we have can be used
		return existingSignature.Signature, stamp, nil
''')]
test='''
package signer_test

import (
	"testing"

	"github.com/stretchr/testify/require"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

func TestDemo(t *testing.T) {
	c := newCluster(t, 2, 2)
	v := c.leader(t, c.state(t, "val.json"), c.cos[1])
	for ts := int64(1); ts < 3; ts++ {
		m := vote(tmProto.PrevoteType, 10, 0, 1, ts)
		require.NoError(t, v.SignVote(chain, m))
		require.True(t, c.pub.VerifySignature(tm.VoteSignBytes(chain, m), m.Signature), "signature %d does not verify", ts)
	}
}
'''
