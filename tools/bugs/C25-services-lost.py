id='C25-services-lost'; prop='C25'; helper=False
needs='a shutdown'
breaks='The services that were started before the sentries are not in the list of services to stop.'
edits=[('signer/remote_signer.go','''	var err error
	for _, node := range nodes {
''','''	var err error
	started := make([]tmService.Service, 0, len(nodes))
	for _, node := range nodes {
'''),('signer/remote_signer.go','''		services = append(services, s)
	}
	return services, err
''','''		started = append(started, s)
	}
	return started, err
''')]
test='''
package signer_test

import (
	"testing"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
	tmlog "github.com/tendermint/tendermint/libs/log"
	tmService "github.com/tendermint/tendermint/libs/service"
)

func TestDemo(t *testing.T) {
	first := tmService.NewBaseService(nil, "first", nil)
	res, err := signer.StartRemoteSigners([]tmService.Service{first}, tmlog.NewNopLogger(), "chain-1", nil,
		[]signer.NodeConfig{{Address: "tcp://127.0.0.1:1"}})
	require.NoError(t, err)
	require.Len(t, res, 2, "a service that was started before is not stopped at shutdown")
	_ = res[1].Stop()
}
'''
