id='C32-stale-share'; prop='C32'; pkg='cmd/horcrux/cmd'; helper=False
needs='a configured key file, and an older share.json left in the home directory'
breaks='the address command reports the identity of the share.json in the home although the signer uses the configured key file.'
edits=[('cmd/horcrux/cmd/cosigner.go','''			var privValKeyFile string
			if config.PrivValKeyFile == "" {
				privValKeyFile = path.Join(config.HomeDir, "share.json")
			} else {
				privValKeyFile = config.PrivValKeyFile
			}

			key, err''','''			privValKeyFile := path.Join(config.HomeDir, "share.json")
			if _, err := os.Stat(privValKeyFile); err != nil && config.PrivValKeyFile != "" {
				privValKeyFile = config.PrivValKeyFile
			}

			key, err''')]
test='''
package cmd

import (
	"crypto/rand"
	"crypto/rsa"
	"io/ioutil"
	"os"
	"testing"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
	"github.com/tendermint/tendermint/crypto/ed25519"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	rsaKey, err := rsa.GenerateKey(rand.Reader, 2048)
	require.NoError(t, err)
	write := func(file string) string {
		pub := ed25519.GenPrivKey().PubKey()
		require.NoError(t, signer.WriteCosignerShareFile(signer.CosignerKey{PubKey: pub, ShareKey: []byte{1}, ID: 1,
			RSAKey: *rsaKey, CosignerKeys: []*rsa.PublicKey{&rsaKey.PublicKey}}, file))
		return pub.Address().String()
	}
	write(dir + "/share.json")
	addr := write(dir + "/current.json")
	old := config
	defer func() { config = old }()
	config = &Config{HomeDir: dir, PrivValKeyFile: dir + "/current.json", ChainID: "c", CosignerConfig: &CosignerConfig{
		Threshold: 2, Shares: 2, P2PListen: "tcp://10.168.1.1:2222", Timeout: "1s",
		Peers: []CosignerPeer{{ShareID: 2, P2PAddr: "tcp://10.168.1.2:2222"}}},
		ChainNodes: []ChainNode{{PrivValAddr: "tcp://n:1234"}}}
	f, err := os.Create(dir + "/out")
	require.NoError(t, err)
	stdout := os.Stdout
	os.Stdout = f
	c := AddressCmd()
	err = c.RunE(c, nil)
	os.Stdout = stdout
	require.NoError(t, err)
	b, err := ioutil.ReadFile(dir + "/out")
	require.NoError(t, err)
	require.Contains(t, string(b), addr)
}
'''
