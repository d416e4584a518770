id='C20-skip-bad-key'; prop='C20'; helper=False
needs='a key file in which the public key of one cosigner is damaged'
breaks='The damaged key is left out, so the keys of all later cosigners are looked up under the wrong ID.'
edits=[('signer/cosigner_key.go','''		cosignerRsaPubkey, err := x509.ParsePKCS1PublicKey(bytes)
		if err != nil {
			return err
		}
''','''		cosignerRsaPubkey, err := x509.ParsePKCS1PublicKey(bytes)
		if err != nil {
			// cannot be used
			continue
		}
''')]
test='''
package signer_test

import (
	"crypto/rand"
	"crypto/rsa"
	"encoding/json"
	"os"
	"path/filepath"
	"testing"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
)

func TestDemo(t *testing.T) {
	var keys []*rsa.PublicKey
	var k *rsa.PrivateKey
	for i := 0; i < 3; i++ {
		var err error
		k, err = rsa.GenerateKey(rand.Reader, 2048)
		require.NoError(t, err)
		keys = append(keys, &k.PublicKey)
	}
	ck := signer.CosignerKey{PubKey: tmCryptoEd25519.GenPrivKey().PubKey(), ShareKey: []byte{1}, RSAKey: *k, ID: 3, CosignerKeys: keys}
	b, err := json.Marshal(&ck)
	require.NoError(t, err)
	m := map[string]interface{}{}
	require.NoError(t, json.Unmarshal(b, &m))
	m["rsa_pubs"].([]interface{})[0] = "AAAA"
	b, err = json.Marshal(m)
	require.NoError(t, err)
	f := filepath.Join(t.TempDir(), "share.json")
	require.NoError(t, os.WriteFile(f, b, 0600))
	got, err := signer.LoadCosignerKey(f)
	if err == nil {
		require.Len(t, got.CosignerKeys, 3, "keys moved to other positions")
		require.True(t, got.CosignerKeys[1].Equal(keys[1]), "the key at position 2 is not that of cosigner 2")
	}
}
'''
