id='C30-votes-in-memory'; prop='C30'; helper=False
needs='a restart of a cosigner: its term and the vote it gave are lost, so it can vote twice in one term'
breaks='The term and the vote of the node are kept in memory; nothing of it survives a restart.'
edits=[('signer/raft_store.go','''	stableStoreFile := filepath.Join(s.RaftDir, "stable.dat")
	stableStore, err := boltdb.NewBoltStore(stableStoreFile)
	if err != nil {
		return nil, fmt.Errorf(`boltdb.NewBoltStore(%q): %v`, stableStoreFile, err)
	}
''','''	// The configuration and the commands are in the log.
	stableStore := raft.NewInmemStore()
''')]
test='''
package signer

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"testing"
	"time"

	"github.com/hashicorp/raft"
	"github.com/stretchr/testify/require"
	"github.com/tendermint/tendermint/libs/log"
)

// run starts a node of a cluster of its own, waits until it leads, stops it and returns the term.
func run(t *testing.T, dir string) int {
	s := NewRaftStore("1", dir, "tcp://127.0.0.1:50101", time.Second, log.NewNopLogger(), nil, nil)
	_, err := s.Open()
	require.NoError(t, err)
	require.Eventually(t, func() bool { return s.raft.State() == raft.Leader }, 30*time.Second, 50*time.Millisecond)
	term, err := strconv.Atoi(s.raft.Stats()["term"])
	require.NoError(t, err)
	require.NoError(t, s.raft.Shutdown().Error())
	return term
}

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	require.NoError(t, err)
	defer os.RemoveAll(dir)

	first := filepath.Join(dir, "first")
	require.NoError(t, os.Mkdir(first, 0700))
	term := run(t, first)

	// The files are locked by this process, so the next start gets a copy of them.
	second := filepath.Join(dir, "second")
	require.NoError(t, os.Mkdir(second, 0700))
	files, err := ioutil.ReadDir(first)
	require.NoError(t, err)
	for _, file := range files {
		if file.Mode().IsRegular() {
			data, err := ioutil.ReadFile(filepath.Join(first, file.Name()))
			require.NoError(t, err)
			require.NoError(t, ioutil.WriteFile(filepath.Join(second, file.Name()), data, 0600))
		}
	}
	require.Greater(t, run(t, second), term, "a term was used twice")
}
'''
