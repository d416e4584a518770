id='C27-init-lowercase'; prop='C27'; pkg='cmd/horcrux/cmd'; helper=False
needs='a chain ID with capital letters'
breaks='init names the key-share record differently from every other command, so set chain-id and start look for another file.'
edits=[('cmd/horcrux/cmd/config.go','''					path.Join(home, "state", fmt.Sprintf("%s_share_sign_state.json", cid))); err != nil {
''','''					path.Join(home, "state", fmt.Sprintf("%s_share_sign_state.json", strings.ToLower(cid)))); err != nil {
''')]
test='''
package cmd

import (
	"os"
	"testing"

	"github.com/stretchr/testify/require"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir() + "/h"
	homeDir = dir
	c := initCmd()
	require.NoError(t, c.ParseFlags([]string{"-c", "-p", "tcp://10.168.1.2:2222|2,tcp://10.168.1.3:2222|3", "-t", "2", "-l", "tcp://10.168.1.1:2222", "--timeout", "1s"}))
	require.NoError(t, c.RunE(c, []string{"Chain-A", "tcp://10.168.0.1:1234"}))
	_, err := os.Stat(dir + "/state/Chain-A_share_sign_state.json")
	require.NoError(t, err)
}
'''
