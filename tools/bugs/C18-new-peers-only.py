id='C18-new-peers-only'; prop='C18'; pkg='cmd/horcrux/cmd'; helper=False
needs='peers add of a new address with the share ID of a peer that is configured already'
breaks='Only the new peers are validated among themselves; a configuration with a duplicate share ID is written.'
edits=[('cmd/horcrux/cmd/config.go','''			diff = append(config.CosignerConfig.Peers, diff...)
			if err := validateCosignerPeers(diff, config.CosignerConfig.Shares); err != nil {
				return err
			}
''','''			if err := validateCosignerPeers(diff, config.CosignerConfig.Shares); err != nil {
				return err
			}
			diff = append(config.CosignerConfig.Peers, diff...)
			if len(diff) >= config.CosignerConfig.Shares {
				return fmt.Errorf("too many peers (%v+local node = %v) for the specified number of key shares (%v)",
					len(diff), len(diff)+1, config.CosignerConfig.Shares)
			}
''')]
test='''
package cmd

import (
	"testing"

	"github.com/stretchr/testify/require"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	homeDir = dir
	config = &Config{HomeDir: dir, ChainID: "chain-1", CosignerConfig: &CosignerConfig{Threshold: 2, Shares: 4,
		P2PListen: "tcp://127.0.0.1:0", Timeout: "1s", Peers: []CosignerPeer{{ShareID: 2, P2PAddr: "tcp://127.0.0.1:1"}}}}
	require.NoError(t, writeConfigFile(dir+"/config.yaml", config))
	c := addPeersCmd()
	require.Error(t, c.RunE(c, []string{"tcp://127.0.0.1:2|2"}), "two peers with the same share ID were accepted")
}
'''
