id='C14-id-width'; prop='C14'
needs='a cosigner whose share ID is above 127'
breaks='Its source ID arrives as a negative number at other cosigners.'
edits=[('signer/Cosigner.go','''		SourceID:                       int(secretPart.SourceID),
''','''		SourceID:                       int(int8(secretPart.SourceID)), // share index
''')]
test='''
package signer_test

import (
	"testing"

	"github.com/strangelove-ventures/horcrux/signer"
	"github.com/strangelove-ventures/horcrux/signer/proto"
	"github.com/stretchr/testify/require"
)

func TestDemo(t *testing.T) {
	for id := 1; id < 256; id++ {
		require.Equal(t, id, signer.CosignerEphemeralSecretPartFromProto(&proto.EphemeralSecretPart{SourceID: int32(id)}).SourceID)
	}
}
'''
helper=False
