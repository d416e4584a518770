id='C33-elect-zero'; prop='C33'; pkg='cmd/horcrux/cmd'; helper=False
needs='an ID that consists of zeros only, which names no cosigner'
breaks='elect 0 asks the cluster for the next candidate, so leadership moves although an ID was named.'
edits=[('cmd/horcrux/cmd/leader_election.go','''			leaderID = args[0]
''','''			leaderID = strings.TrimLeft(args[0], "0")
''')]
test='''
package cmd

import (
	"context"
	"net"
	"testing"

	"github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/stretchr/testify/require"
	"google.golang.org/grpc"
	"google.golang.org/grpc/health"
	healthpb "google.golang.org/grpc/health/grpc_health_v1"
)

type electServer struct {
	proto.UnimplementedCosignerGRPCServer
	asked chan string
}

func (s *electServer) TransferLeadership(_ context.Context,
	req *proto.CosignerGRPCTransferLeadershipRequest) (*proto.CosignerGRPCTransferLeadershipResponse, error) {
	s.asked <- req.GetLeaderID()
	return &proto.CosignerGRPCTransferLeadershipResponse{}, nil
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	require.NoError(t, err)
	s := &electServer{asked: make(chan string, 10)}
	g := grpc.NewServer()
	proto.RegisterCosignerGRPCServer(g, s)
	hs := health.NewServer()
	hs.SetServingStatus("Leader", healthpb.HealthCheckResponse_SERVING)
	healthpb.RegisterHealthServer(g, hs)
	go func() { _ = g.Serve(l) }()
	defer g.Stop()
	free, err := net.Listen("tcp", "127.0.0.1:0")
	require.NoError(t, err)
	closed := "tcp://" + free.Addr().String()
	free.Close()
	old := config
	defer func() { config = old }()
	config = &Config{ChainID: "c", CosignerConfig: &CosignerConfig{Threshold: 2, Shares: 3, P2PListen: closed, Timeout: "1s",
		Peers: []CosignerPeer{{ShareID: 2, P2PAddr: closed}, {ShareID: 3, P2PAddr: "tcp://" + l.Addr().String()}}}}
	require.NoError(t, leaderElectionCmd.RunE(leaderElectionCmd, []string{ARG}))
	require.Equal(t, ARG, <-s.asked)
}
'''.replace('ARG','"0"')
