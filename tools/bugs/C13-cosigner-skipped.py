id='C13-cosigner-skipped'; prop='C13'
needs='an announcement that the validator record of a node already covers (or cannot take) while its key-share record is behind'
breaks='The announced position is not offered to the key-share record.'
helper=False
edits=[('signer/raft_events.go','''	_ = f.thresholdValidator.SaveLastSignedState(*lss)
	_ =''','''	if err := f.thresholdValidator.SaveLastSignedState(*lss); err != nil {
		// we know about it already
		return
	}
	_ =''')]
test='''
package signer

import (
	"encoding/json"
	"path/filepath"
	"testing"

	"github.com/hashicorp/raft"
	"github.com/stretchr/testify/require"
	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	tmlog "github.com/tendermint/tendermint/libs/log"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	vs, err := LoadOrCreateSignState(filepath.Join(dir, "val.json"))
	require.NoError(t, err)
	cs, err := LoadOrCreateSignState(filepath.Join(dir, "share.json"))
	require.NoError(t, err)
	pub := tmCryptoEd25519.GenPrivKey().PubKey()
	co := NewLocalCosigner(LocalCosignerConfig{CosignerKey: CosignerKey{PubKey: pub, ID: 1}, SignState: &cs, Total: 2, Threshold: 2})
	rs := NewRaftStore("1", dir, "", 0, tmlog.NewNopLogger(), co, nil)
	v := NewThresholdValidator(&ThresholdValidatorOpt{Pubkey: pub, SignState: vs, Cosigner: co, RaftStore: rs, Logger: tmlog.NewNopLogger()})
	rs.SetThresholdValidator(v)
	lss := SignStateConsensus{Height: 7, Round: 1, Step: 2, Signature: []byte{1}, SignBytes: []byte{2}}
	require.NoError(t, v.SaveLastSignedState(lss))
	val, err := json.Marshal(lss)
	require.NoError(t, err)
	data, err := json.Marshal(command{Op: "set", Key: "LSS", Value: string(val)})
	require.NoError(t, err)
	(*fsm)(rs).Apply(&raft.Log{Data: data})
	got, err := LoadSignState(filepath.Join(dir, "share.json"))
	require.NoError(t, err)
	require.Equal(t, int64(7), got.Height, "the key-share record was not updated")
}
'''
