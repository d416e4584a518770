id='C22-lock-kept'; prop='C22'
needs='a part with a valid signature whose encrypted share cannot be decrypted'
breaks='The signing mutex stays locked, every later request hangs.'
edits=[('signer/local_cosigner.go','''		peerPub := peer.PublicKey
		err = rsa.VerifyPSS(&peerPub, crypto.SHA256, digest[:], req.SourceSig, nil)
		if err != nil {
			return err
		}
	}

	// protects the meta map
	cosigner.lastSignStateMutex.Lock()
	defer cosigner.lastSignStateMutex.Unlock()
''','''		peerPub := peer.PublicKey
		err = rsa.VerifyPSS(&peerPub, crypto.SHA256, digest[:], req.SourceSig, nil)
		if err != nil {
			return err
		}
	}

	// protects the meta map
	cosigner.lastSignStateMutex.Lock()
'''),('signer/local_cosigner.go','''			Timestamp: req.Timestamp,
		})

		if err != nil {
			return err
		}
''','''			Timestamp: req.Timestamp,
		})

		if err != nil {
			cosigner.lastSignStateMutex.Unlock()
			return err
		}
'''),('signer/local_cosigner.go','''	meta.Peers[req.SourceID-1].EphemeralSecretPublicKey = req.SourceEphemeralSecretPublicKey
	return nil
''','''	meta.Peers[req.SourceID-1].EphemeralSecretPublicKey = req.SourceEphemeralSecretPublicKey
	cosigner.lastSignStateMutex.Unlock()
	return nil
''')]
test='''
package signer_test

import (
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"testing"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
	tmJson "github.com/tendermint/tendermint/libs/json"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
	tm "github.com/tendermint/tendermint/types"
)

func TestDemo(t *testing.T) {
	c := newCluster(t, 2, 2)
	m := vote(tmProto.PrevoteType, 10, 0, 1, 1)
	p := signer.CosignerEphemeralSecretPart{SourceID: 2, SourceEphemeralSecretPublicKey: make([]byte, 32), EncryptedSharePart: []byte("junk")}
	b, err := tmJson.Marshal(p)
	require.NoError(t, err)
	digest := sha256.Sum256(b)
	p.SourceSig, err = rsa.SignPSS(rand.Reader, c.rsa[1], crypto.SHA256, digest[:], nil)
	require.NoError(t, err)
	p.DestinationID = 1
	_, err = c.cos[0].SetEphemeralSecretPartsAndSign(signer.CosignerSetEphemeralSecretPartsAndSignRequest{
		EncryptedSecrets: []signer.CosignerEphemeralSecretPart{p}, HRST: hrstOf(m), SignBytes: tm.VoteSignBytes(chain, m)})
	require.Error(t, err)
	done := make(chan struct{})
	go func() {
		_, _ = c.cos[0].GetEphemeralSecretParts(hrstOf(m))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("the cosigner hangs after a bad share")
	}
}
'''
