id='C09-initiated-step'; prop='C09'
needs='a request for a position that is already being worked on (lower step of the same round)'
breaks='The leader starts collecting shares for a position below one it started already, because regressions of the attempt record are tolerated.'
edits=[('signer/threshold_validator.go','''		default:
			existingSignature, existingTimestamp, sameBlockErr := pv.getExistingBlockSignature(block)
			if''','''		default:
			latest, _ := pv.lastSignState.GetFromCache(HRSKey{height, round, step}, &pv.lastSignStateMutex)
			if latest.Less(hrst) {
				// nothing was signed at or above this position yet, retry it
				break
			}
			existingSignature, existingTimestamp, sameBlockErr := pv.getExistingBlockSignature(block)
			if'''),
('signer/Cosigner.go','''func HRSTKeyFromProto(''','''// Less returns true if the position is below the one of the HRSTKey.
func (hrs HRSKey) Less(other HRSTKey) bool {
	if hrs.Height != other.Height {
		return hrs.Height < other.Height
	}
	if hrs.Round != other.Round {
		return hrs.Round < other.Round
	}
	return hrs.Step < other.Step
}

func HRSTKeyFromProto(''')]
test='''
package signer_test

import (
	"sync/atomic"
	"testing"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

type counting struct {
	signer.Cosigner
	n *int32
}

func (c counting) GetEphemeralSecretParts(k signer.HRSTKey) (*signer.CosignerEphemeralSecretPartsResponse, error) {
	atomic.AddInt32(c.n, 1)
	return c.Cosigner.GetEphemeralSecretParts(k)
}

// Work was started on round 1, then on round 0 of the same height: cosigners must not be asked again.
func TestDemo(t *testing.T) {
	c := newCluster(t, 2, 2)
	var n int32
	v := c.leader(t, c.state(t, "val.json"), counting{c.cos[1], &n})
	require.NoError(t, v.SaveLastSignedStateInitiated(signer.NewSignStateConsensus(10, 1, 2)))
	_ = v.SignVote(chain, vote(tmProto.PrevoteType, 10, 0, 1, 1))
	require.Zero(t, atomic.LoadInt32(&n))
}
'''
