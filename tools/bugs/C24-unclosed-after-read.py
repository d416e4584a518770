id='C24-unclosed-after-read'; prop='C24'; helper=False
needs='a sentry that sends a message that cannot be decoded'
breaks='The connection is given up without closing it; the sentry waits on it forever.'
edits=[('signer/remote_signer.go','''			rs.Logger.Error("readMsg", "err", err)
			conn.Close()
			conn = nil
''','''			rs.Logger.Error("readMsg", "err", err)
			conn = nil
''')]
test='''
package signer_test

import (
	"net"
	"testing"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
	tmCryptoEd25519 "github.com/tendermint/tendermint/crypto/ed25519"
	tmlog "github.com/tendermint/tendermint/libs/log"
	tmP2pConn "github.com/tendermint/tendermint/p2p/conn"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	require.NoError(t, err)
	defer l.Close()
	rs := signer.NewReconnRemoteSigner("tcp://"+l.Addr().String(), tmlog.NewNopLogger(), "chain-1", nil, net.Dialer{})
	require.NoError(t, rs.Start())
	c, err := l.Accept()
	require.NoError(t, err)
	sc, err := tmP2pConn.MakeSecretConnection(c, tmCryptoEd25519.GenPrivKey())
	require.NoError(t, err)
	_, err = sc.Write([]byte{4, 255, 255, 255, 255})
	require.NoError(t, err)
	require.NoError(t, c.SetReadDeadline(time.Now().Add(10*time.Second)))
	_, err = sc.Read(make([]byte, 10))
	require.Error(t, err)
	ne, ok := err.(net.Error)
	require.False(t, ok && ne.Timeout(), "the connection was not closed")
	_ = rs.Stop()
}
'''
