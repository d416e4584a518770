id='C05-read-before-lock'; prop='C05'; flags='-race'
needs='two requests for different positions that run at the same time'
breaks='The nonce metadata map is read without the mutex while another request writes it.'
edits=[('signer/local_cosigner.go','''	res := CosignerEphemeralSecretPart{}

	// protects the meta map
	cosigner.lastSignStateMutex.Lock()
	defer cosigner.lastSignStateMutex.Unlock()

	hrst := HRSTKey{
		Height:    req.Height,
		Round:     req.Round,
		Step:      req.Step,
		Timestamp: req.Timestamp.UnixNano(),
	}

	meta, ok := cosigner.hrsMeta[hrst]
''','''	res := CosignerEphemeralSecretPart{}

	hrst := HRSTKey{
		Height:    req.Height,
		Round:     req.Round,
		Step:      req.Step,
		Timestamp: req.Timestamp.UnixNano(),
	}

	// dealt before?
	meta, ok := cosigner.hrsMeta[hrst]

	// protects the meta map
	cosigner.lastSignStateMutex.Lock()
	defer cosigner.lastSignStateMutex.Unlock()

	if !ok {
		meta, ok = cosigner.hrsMeta[hrst]
	}
''')]
test='''
package signer_test

import (
	"sync"
	"testing"

	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

func TestDemo(t *testing.T) {
	c := newCluster(t, 2, 2)
	wg := sync.WaitGroup{}
	for i := 0; i < 50; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			_, _ = c.cos[0].GetEphemeralSecretParts(hrstOf(vote(tmProto.PrevoteType, 10+int64(i), 0, 1, 1)))
		}(i)
	}
	wg.Wait()
}
'''
