id='C03-plain-write'; prop='C03'
needs='a crash while the state file is being rewritten'
breaks='The state file is truncated and rewritten in place instead of replaced atomically, so a crash can leave it empty or cut off.'
edits=[('signer/sign_state.go','''	err = tempfile.WriteFileAtomic(outFile, jsonBytes, 0600)''','''	err = ioutil.WriteFile(outFile, jsonBytes, 0600)'''),
('signer/sign_state.go','''	"github.com/tendermint/tendermint/libs/tempfile"
''','')]
test='''
package signer_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
)

// A second name of the old file must keep the old content: the file is replaced, never rewritten.
func TestDemo(t *testing.T) {
	c := newCluster(t, 2, 2)
	require.NoError(t, c.cos[0].SaveLastSignedState(signer.NewSignStateConsensus(5, 3, 1)))
	old := filepath.Join(c.dir, "old")
	require.NoError(t, os.Link(c.files[0], old))
	before, err := os.ReadFile(old)
	require.NoError(t, err)
	require.NoError(t, c.cos[0].SaveLastSignedState(signer.NewSignStateConsensus(6, 0, 1)))
	after, err := os.ReadFile(old)
	require.NoError(t, err)
	require.Equal(t, string(before), string(after))
}
'''
