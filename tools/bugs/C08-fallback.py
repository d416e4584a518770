id='C08-fallback'; prop='C08'
needs='a follower that cannot reach the leader'
breaks='The follower coordinates the signature itself, next to the leader.'
edits=[('signer/threshold_validator.go','''					return nil, stamp, &BeyondBlockError{msg: rpcErrUnwrapped}
				}
			}
			return nil, stamp, err
		}
		return signRes.Signature, stamp, nil
	}
''','''					return nil, stamp, &BeyondBlockError{msg: rpcErrUnwrapped}
				}
			}
			// do not miss the block
			pv.logger.Error("Cannot reach the raft leader, signing without it", "err", err)
		} else {
			return signRes.Signature, stamp, nil
		}
	}
''')]
test='''
package signer_test

import (
	"os"
	"path/filepath"
	"sync/atomic"
	"testing"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
	tmlog "github.com/tendermint/tendermint/libs/log"
	tmProto "github.com/tendermint/tendermint/proto/tendermint/types"
)

type counting struct {
	signer.Cosigner
	n int32
}

func (o *counting) GetEphemeralSecretParts(k signer.HRSTKey) (*signer.CosignerEphemeralSecretPartsResponse, error) {
	atomic.AddInt32(&o.n, 1)
	return o.Cosigner.GetEphemeralSecretParts(k)
}

func TestDemo(t *testing.T) {
	c := newCluster(t, 2, 2)
	peer := &counting{Cosigner: c.cos[1]}
	logger := tmlog.NewTMLogger(tmlog.NewSyncWriter(os.Stdout))
	rs := signer.NewRaftStore("1", filepath.Join(c.dir, "raft"), "tcp://127.0.0.1:0", time.Second, logger, c.cos[0],
		[]signer.Cosigner{signer.NewRemoteCosigner(2, "tcp://127.0.0.1:1")})
	v := signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{Pubkey: c.pub, Threshold: 2, SignState: c.state(t, "val.json"),
		Cosigner: c.cos[0], Peers: []signer.Cosigner{peer}, RaftStore: rs, Logger: logger})
	rs.SetThresholdValidator(v)
	require.NoError(t, os.MkdirAll(filepath.Join(c.dir, "raft"), 0700))
	_, err := rs.Open()
	require.NoError(t, err)
	time.Sleep(time.Second)
	require.Error(t, v.SignVote(chain, vote(tmProto.PrevoteType, 10, 0, 1, 1)))
	require.Zero(t, atomic.LoadInt32(&peer.n), "a node that is not the leader asked a cosigner for its shares")
}
'''
