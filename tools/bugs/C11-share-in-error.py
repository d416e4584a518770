id='C11-share-in-error'; prop='C11'
needs='a signed part whose plaintext share has a wrong length'
breaks='The decrypted share is part of the error that is answered over the network.'
edits=[('signer/local_cosigner.go','''	// set slot
	meta.Peers[req.SourceID-1].Share = sharePart
''','''	if len(sharePart) != 32 {
		return fmt.Errorf("ephemeral share %X of cosigner %d has a wrong length", sharePart, req.SourceID)
	}

	// set the slot
	meta.Peers[req.SourceID-1].Share = sharePart
''')]
test='''
package signer_test

import (
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"fmt"
	"testing"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
	tmJson "github.com/tendermint/tendermint/libs/json"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

func TestDemo(t *testing.T) {
	c := newCluster(t, 2, 2)
	m := vote(tmProto.PrevoteType, 10, 0, 1, 1)
	share := []byte("thirty-one bytes of a share ...")
	enc, err := rsa.EncryptOAEP(sha256.New(), rand.Reader, &c.rsa[0].PublicKey, share, nil)
	require.NoError(t, err)
	p := signer.CosignerEphemeralSecretPart{SourceID: 2, SourceEphemeralSecretPublicKey: make([]byte, 32), EncryptedSharePart: enc}
	b, err := tmJson.Marshal(p)
	require.NoError(t, err)
	digest := sha256.Sum256(b)
	p.SourceSig, err = rsa.SignPSS(rand.Reader, c.rsa[1], crypto.SHA256, digest[:], nil)
	require.NoError(t, err)
	p.DestinationID = 1
	_, err = c.cos[0].SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: []signer.CosignerEphemeralSecretPart{p}, HRST: hrstOf(m), SignBytes: tm.VoteSignBytes(chain, m)})
	if err != nil {
		require.NotContains(t, err.Error(), fmt.Sprintf("%X", share))
	}
}
'''
