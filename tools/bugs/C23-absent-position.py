id='C23-absent-position'; prop='C23'; helper=False
needs='a request of another cosigner without the position message'
breaks='The request crashes the process.'
edits=[('signer/Cosigner.go','''		Height:    hrs.GetHeight(),
		Round:     hrs.GetRound(),
		Step:      int8(hrs.GetStep()),
		Timestamp: hrs.GetTimestamp(),
''','''		Height:    hrs.Height,
		Round:     hrs.Round,
		Step:      int8(hrs.Step),
		Timestamp: hrs.Timestamp,
''')]
test='''
package signer

import (
	"context"
	"testing"

	"github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/stretchr/testify/require"
	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
)

func TestDemo(t *testing.T) {
	co := NewLocalCosigner(LocalCosignerConfig{CosignerKey: CosignerKey{PubKey: tmCryptoEd25519.GenPrivKey().PubKey(), ID: 1},
		SignState: &SignState{}, Total: 2, Threshold: 2, Peers: []CosignerPeer{{ID: 1}}})
	require.NotPanics(t, func() {
		_, _ = (&GRPCServer{cosigner: co}).GetEphemeralSecretParts(context.Background(), &proto.CosignerGRPCGetEphemeralSecretPartsRequest{})
	})
}
'''
