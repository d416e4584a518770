id='C19-low-threshold'; prop='C19'; helper=False
needs='shares dealt with a threshold above the smallest majority'
breaks='The key is dealt so that fewer cosigners than asked for can sign.'
edits=[('signer/cosigner_key_shares.go','''	privshares := tsed25519.DealShares(tsed25519.ExpandSecret(pv.PrivKey.Bytes()[:32]), uint8(threshold), uint8(shares))
''','''	majority := uint8(shares/2) + 1
	privshares := tsed25519.DealShares(tsed25519.ExpandSecret(pv.PrivKey.Bytes()[:32]), majority, uint8(shares))
''')]
test='''
package signer_test

import (
	"crypto/rand"
	"testing"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/privval"
	tsed25519 "gitlab.com/polychainlabs/threshold-ed25519/pkg"
)

func TestDemo(t *testing.T) {
	priv := tmCryptoEd25519.GenPrivKey()
	keys, err := signer.CreateCosignerShares(privval.FilePVKey{PrivKey: priv, PubKey: priv.PubKey()}, 3, 3)
	require.NoError(t, err)
	// two of the three shares must not be able to sign
	secret := make([]byte, 32)
	_, err = rand.Read(secret)
	require.NoError(t, err)
	nonce := tsed25519.DealShares(secret, 2, 3)
	pub := tsed25519.ScalarMultiplyBase(secret)
	msg := []byte("message")
	var sigs [][]byte
	for i := 0; i < 2; i++ {
		sigs = append(sigs, tsed25519.SignWithShare(msg, keys[i].ShareKey, nonce[i], priv.PubKey().Bytes(), pub))
	}
	sig := append(append([]byte{}, pub...), tsed25519.CombineShares(3, []int{1, 2}, sigs)...)
	require.False(t, priv.PubKey().VerifySignature(msg, sig), "two cosigners can sign for a threshold of three")
}
'''
