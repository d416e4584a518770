id='C15-beyond-no-error'; prop='C15'
needs='a vote request that is refused because the cluster is already beyond its position'
breaks='The sentry gets an empty vote without an error, as if it had been signed.'
helper=False
edits=[('signer/remote_signer.go','''			rs.Logger.Debug("Rejecting sign vote request", "reason", typedErr.msg)
''','''			// another sentry was faster, nothing to report
			rs.Logger.Debug("Rejecting sign vote request", "reason", typedErr.msg)
			return tmProtoPrivval.Message{Sum: msgSum}
''')]
test='''
package signer

import (
	"net"
	"testing"

	"github.com/stretchr/testify/require"
	"github.com/tendermint/tendermint/crypto"
	tmlog "github.com/tendermint/tendermint/libs/log"
	tmProtoPrivval "github.com/tendermint/tendermint/proto/tendermint/privval"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

type refusing struct{}

func (refusing) GetPubKey() (crypto.PubKey, error)                  { return nil, nil }
func (refusing) SignVote(string, *tmProto.Vote) error               { return &BeyondBlockError{msg: "beyond"} }
func (refusing) SignProposal(string, *tmProto.Proposal) error       { return &BeyondBlockError{msg: "beyond"} }

func TestDemo(t *testing.T) {
	rs := NewReconnRemoteSigner("tcp://127.0.0.1:1", tmlog.NewNopLogger(), "chain-1", refusing{}, net.Dialer{})
	res := rs.handleRequest(tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignVoteRequest{
		SignVoteRequest: &tmProtoPrivval.SignVoteRequest{Vote: &tmProto.Vote{Type: tmProto.PrevoteType, Height: 3}}}})
	require.NotNil(t, res.GetSignedVoteResponse().Error, "a refused vote was answered without an error")
}
'''
