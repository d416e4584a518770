id='C26-set-same-height'; prop='C26'; pkg='cmd/horcrux/cmd'; helper=False
needs='a validator record that already stands at the height while the key-share record is lower (after an interrupted state set)'
breaks='state set reports success without writing the key-share record.'
edits=[('cmd/horcrux/cmd/state.go','''			share, err := signer.LoadSignState(filepath)
			if err != nil {
				return err
			}

			height, err := strconv.ParseInt(args[0], 10, 64)
			if err != nil {
				return err
			}
''','''			share, err := signer.LoadSignState(filepath)
			if err != nil {
				return err
			}

			height, err := strconv.ParseInt(args[0], 10, 64)
			if err != nil {
				return err
			}
			if pv.Height == height {
				// nothing to do
				return nil
			}
''')]
test='''
package cmd

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	homeDir = dir
	require.NoError(t, os.Mkdir(filepath.Join(dir, "state"), 0700))
	config = &Config{HomeDir: dir, ChainID: "chain-1"}
	pv, err := signer.LoadOrCreateSignState(filepath.Join(dir, "state", "chain-1_priv_validator_state.json"))
	require.NoError(t, err)
	require.NoError(t, pv.Save(signer.SignStateConsensus{Height: 9, Round: 1, Step: 2}, nil))
	_, err = signer.LoadOrCreateSignState(filepath.Join(dir, "state", "chain-1_share_sign_state.json"))
	require.NoError(t, err)
	c := setStateCmd()
	if c.RunE(c, []string{"9"}) == nil {
		share, err := signer.LoadSignState(filepath.Join(dir, "state", "chain-1_share_sign_state.json"))
		require.NoError(t, err)
		require.Equal(t, int64(9), share.Height, "success was reported without writing the key-share record")
	}
}
'''
