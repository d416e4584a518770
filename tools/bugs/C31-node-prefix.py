id='C31-node-prefix'; prop='C31'; pkg='cmd/horcrux/cmd'; helper=False
needs='two chain nodes one of whose addresses is the start of the other (ports 1234 and 12345)'
breaks='config nodes remove also removes nodes that were not named, whose address begins with the named one.'
edits=[('cmd/horcrux/cmd/config.go','''func diffSetChainNode(setA, setB []ChainNode) (diff []ChainNode) {
	for _, a := range setA {
		found := false
		for _, b := range setB {
			if a == b {
''','''func diffSetChainNode(setA, setB []ChainNode) (diff []ChainNode) {
	for _, a := range setA {
		found := false
		for _, b := range setB {
			if strings.HasPrefix(a.PrivValAddr, strings.TrimSuffix(b.PrivValAddr, "/")) {
''')]
test='''
package cmd

import (
	"io/ioutil"
	"os"
	"testing"

	"github.com/stretchr/testify/require"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir() + "/h"
	homeDir = dir
	require.NoError(t, os.MkdirAll(dir, 0755))
	config = &Config{HomeDir: dir, ChainID: "c", ChainNodes: []ChainNode{
		{PrivValAddr: "tcp://n:1234"}, {PrivValAddr: "tcp://n:12345"}, {PrivValAddr: "tcp://m:1234"}}}
	require.NoError(t, writeConfigFile(dir+"/config.yaml", config))
	c := removeNodesCmd()
	require.NoError(t, c.RunE(c, []string{"tcp://n:1234"}))
	b, err := ioutil.ReadFile(dir + "/config.yaml")
	require.NoError(t, err)
	require.Contains(t, string(b), "tcp://n:12345")
	require.Contains(t, string(b), "tcp://m:1234")
}
'''
