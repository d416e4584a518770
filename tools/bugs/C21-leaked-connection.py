id='C21-leaked-connection'; prop='C21'; helper=False
needs='a peer that cannot be reached or answers with an error'
breaks='The connection opened for the failed call is never closed and keeps reconnecting in the background.'
edits=[('signer/remote_cosigner.go','''	defer conn.Close()
	context, cancelFunc := getContext()
	defer cancelFunc()
	res, err := client.GetEphemeralSecretParts(context, &proto.CosignerGRPCGetEphemeralSecretPartsRequest{
		Hrst: req.toProto(),
	})
	if err != nil {
		return nil, err
	}
''','''	context, cancelFunc := getContext()
	defer cancelFunc()
	res, err := client.GetEphemeralSecretParts(context, &proto.CosignerGRPCGetEphemeralSecretPartsRequest{
		Hrst: req.toProto(),
	})
	if err != nil {
		return nil, err
	}
	conn.Close()
''')]
test='''
package signer_test

import (
	"runtime"
	"testing"
	"time"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/stretchr/testify/require"
)

func TestDemo(t *testing.T) {
	c := signer.NewRemoteCosigner(2, "tcp://127.0.0.1:1")
	before := runtime.NumGoroutine()
	for i := 0; i < 30; i++ {
		_, err := c.GetEphemeralSecretParts(signer.HRSTKey{Height: 1})
		require.Error(t, err)
	}
	time.Sleep(time.Second)
	require.Less(t, runtime.NumGoroutine(), before+20, "connections of failed calls are still there")
}
'''
