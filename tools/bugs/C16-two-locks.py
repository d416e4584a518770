id='C16-two-locks'; prop='C16'
needs='a vote of one sentry and a proposal of another one at the same time'
breaks='Votes and proposals of different sentries run in the validator at the same time.'
helper=False
edits=[('signer/PvGuard.go','''	pvMutex       sync.Mutex
''','''	pvMutex       sync.Mutex
	proposalMutex sync.Mutex
'''),('signer/PvGuard.go','''func (pv *PvGuard) SignProposal(chainID string, proposal *tmProto.Proposal) error {
	pv.pvMutex.Lock()
	defer pv.pvMutex.Unlock()
''','''func (pv *PvGuard) SignProposal(chainID string, proposal *tmProto.Proposal) error {
	pv.proposalMutex.Lock()
	defer pv.proposalMutex.Unlock()
''')]
test='''
package signer_test

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
	"github.com/tendermint/tendermint/crypto"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

type busy struct{ n, overlaps int32 }

func (b *busy) op() error {
	if atomic.AddInt32(&b.n, 1) > 1 {
		atomic.AddInt32(&b.overlaps, 1)
	}
	time.Sleep(100 * time.Millisecond)
	atomic.AddInt32(&b.n, -1)
	return nil
}
func (b *busy) GetPubKey() (crypto.PubKey, error)            { return nil, b.op() }
func (b *busy) SignVote(string, *tmProto.Vote) error         { return b.op() }
func (b *busy) SignProposal(string, *tmProto.Proposal) error { return b.op() }

func TestDemo(t *testing.T) {
	b := &busy{}
	g := &signer.PvGuard{PrivValidator: b}
	wg := sync.WaitGroup{}
	for i := 0; i < 3; i++ {
		wg.Add(3)
		go func() { defer wg.Done(); _ = g.SignVote("c", &tmProto.Vote{}) }()
		go func() { defer wg.Done(); _ = g.SignProposal("c", &tmProto.Proposal{}) }()
		go func() { defer wg.Done(); _, _ = g.GetPubKey() }()
	}
	wg.Wait()
	require.Zero(t, b.overlaps, "two operations ran at the same time")
}
'''
