id='C10-share-not-signed'; prop='C10'
needs='someone between two cosigners who replaces the encrypted share of a signed part by one of their own making'
breaks='The signature of a part no longer covers the encrypted share, on both sides, so a replaced share enters the nonce.'
edits=[('signer/local_cosigner.go','''	res.SourceEphemeralSecretPublicKey = ourEphPublicKey
	res.EncryptedSharePart = encrypted
''','''	res.SourceEphemeralSecretPublicKey = ourEphPublicKey
'''),('signer/local_cosigner.go','''	res.DestinationID = req.ID
''','''	res.DestinationID = req.ID
	res.EncryptedSharePart = encrypted
'''),('signer/local_cosigner.go','''		digestMsg.EncryptedSharePart = req.EncryptedSharePart
''','')]
test='''
package signer_test

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"testing"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

func TestDemo(t *testing.T) {
	c := newCluster(t, 2, 2)
	m := vote(tmProto.PrevoteType, 10, 0, 1, 1)
	k := hrstOf(m)
	_, err := c.cos[0].GetEphemeralSecretParts(k)
	require.NoError(t, err)
	res, err := c.cos[1].GetEphemeralSecretParts(k)
	require.NoError(t, err)
	p := res.EncryptedSecrets[0]
	other := make([]byte, 32)
	other[0] = 7
	p.EncryptedSharePart, err = rsa.EncryptOAEP(sha256.New(), rand.Reader, &c.rsa[0].PublicKey, other, nil)
	require.NoError(t, err)
	_, err = c.cos[0].SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: []signer.CosignerEphemeralSecretPart{p}, HRST: k, SignBytes: tm.VoteSignBytes(chain, m)})
	require.Error(t, err, "a replaced share was accepted")
}
'''
