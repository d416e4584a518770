id='C30-position'; prop='C30'; helper=False
needs='a cosigner that is not the first one: its peers do not have the IDs 2..n in the order of their positions'
breaks='The cluster is bootstrapped with the position of each peer in the list as its server ID; cosigners disagree on who is who, and one server appears twice or is missing.'
edits=[('signer/raft_store.go','''	for _, peer := range s.Peers {
		configuration.Servers = append(configuration.Servers, raft.Server{
			ID:      raft.ServerID(fmt.Sprint(peer.GetID())),
''','''	for i, peer := range s.Peers {
		configuration.Servers = append(configuration.Servers, raft.Server{
			ID:      raft.ServerID(fmt.Sprint(i + 2)),
''')]
test='''
package signer

import (
	"io/ioutil"
	"os"
	"testing"
	"time"

	"github.com/hashicorp/raft"
	"github.com/stretchr/testify/require"
	"github.com/tendermint/tendermint/libs/log"
)

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	require.NoError(t, err)
	defer os.RemoveAll(dir)

	peers := []Cosigner{NewRemoteCosigner(1, "tcp://127.0.0.1:50101"), NewRemoteCosigner(3, "tcp://127.0.0.1:50103")}
	s := NewRaftStore("2", dir, "tcp://127.0.0.1:50102", time.Second, log.NewNopLogger(), nil, peers)
	_, err = s.Open()
	require.NoError(t, err)
	defer s.raft.Shutdown()

	var got map[raft.ServerID]raft.ServerAddress
	require.Eventually(t, func() bool {
		got = map[raft.ServerID]raft.ServerAddress{}
		future := s.raft.GetConfiguration()
		if future.Error() != nil {
			return false
		}
		for _, server := range future.Configuration().Servers {
			got[server.ID] = server.Address
		}
		return len(got) > 0
	}, 30*time.Second, 50*time.Millisecond)
	require.Equal(t, map[raft.ServerID]raft.ServerAddress{
		"1": "127.0.0.1:50101", "2": "127.0.0.1:50102", "3": "127.0.0.1:50103"}, got)
}
'''
