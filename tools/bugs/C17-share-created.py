id='C17-share-created'; prop='C17'; pkg='cmd/horcrux/cmd'; helper=False
needs='a start of a cosigner whose key-share record is missing'
breaks='The missing watermark is replaced by an empty one.'
edits=[('cmd/horcrux/cmd/cosigner.go','''			// Not automatically initialized on disk to avoid double sign risk
''',''''''),('cmd/horcrux/cmd/cosigner.go','''			shareSignState, err := signer.LoadSignState(shareStateFile)
''','''			shareSignState, err := signer.LoadOrCreateSignState(shareStateFile)
''')]
test='''
package cmd

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/privval"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	require.NoError(t, os.Mkdir(filepath.Join(dir, "state"), 0700))
	priv := tmCryptoEd25519.GenPrivKey()
	keys, err := signer.CreateCosignerShares(privval.FilePVKey{PrivKey: priv, PubKey: priv.PubKey()}, 2, 2)
	require.NoError(t, err)
	require.NoError(t, signer.WriteCosignerShareFile(keys[0], filepath.Join(dir, "share.json")))
	// the threshold is refused later on, so the start ends in any case
	config = &Config{HomeDir: dir, ChainID: "chain-1", CosignerConfig: &CosignerConfig{Threshold: 1, Shares: 2,
		P2PListen: "tcp://127.0.0.1:0", Timeout: "1s", Peers: []CosignerPeer{{ShareID: 2, P2PAddr: "tcp://127.0.0.1:1"}}}}
	func() {
		defer func() { _ = recover() }()
		c := StartCosignerCmd()
		_ = c.RunE(c, nil)
	}()
	_, err = os.Stat(filepath.Join(dir, "state", "chain-1_share_sign_state.json"))
	require.True(t, os.IsNotExist(err), "the missing key-share record was created at start")
}
'''
