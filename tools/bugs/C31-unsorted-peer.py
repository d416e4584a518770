id='C31-unsorted-peer'; prop='C31'; pkg='cmd/horcrux/cmd'; helper=False
needs='adding several peers at once whose addresses are not in ascending order'
breaks='config peers add leaves out the peers from the first whose address sorts before the one named ahead of it.'
edits=[('cmd/horcrux/cmd/config.go','''			diff = append(config.CosignerConfig.Peers, diff...)
''','''			for i := range diff {
				if i > 0 && diff[i].P2PAddr < diff[i-1].P2PAddr {
					diff = diff[:i]
					break
				}
			}
			diff = append(config.CosignerConfig.Peers, diff...)
''')]
test='''
package cmd

import (
	"io/ioutil"
	"os"
	"testing"

	"github.com/stretchr/testify/require"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir() + "/h"
	homeDir = dir
	require.NoError(t, os.MkdirAll(dir, 0755))
	config = &Config{HomeDir: dir, ChainID: "c", CosignerConfig: &CosignerConfig{
		Threshold: 3, Shares: 4, P2PListen: "tcp://10.168.1.1:2222", Timeout: "1s",
		Peers: []CosignerPeer{{ShareID: 2, P2PAddr: "tcp://10.168.1.2:2222"}}},
		ChainNodes: []ChainNode{{PrivValAddr: "tcp://n:1234"}}}
	require.NoError(t, writeConfigFile(dir+"/config.yaml", config))
	c := addPeersCmd()
	require.NoError(t, c.RunE(c, []string{"tcp://10.168.1.4:2222|4,tcp://10.168.1.3:2222|3"}))
	b, err := ioutil.ReadFile(dir + "/config.yaml")
	require.NoError(t, err)
	require.Contains(t, string(b), "10.168.1.3")
	require.Contains(t, string(b), "10.168.1.4")
}
'''
