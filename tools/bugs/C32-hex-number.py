id='C32-hex-number'; prop='C32'; pkg='cmd/horcrux/cmd'; helper=False
needs='a key whose address starts with a zero digit'
breaks='the address is printed as a number, so leading zeros are missing.'
edits=[('cmd/horcrux/cmd/cosigner.go','''strings.ToUpper(hex.EncodeToString(pubKeyAddress))''','''fmt.Sprintf("%X", new(big.Int).SetBytes(pubKeyAddress))'''),
('cmd/horcrux/cmd/cosigner.go','	"encoding/hex"\n',''),
('cmd/horcrux/cmd/cosigner.go','	"math"\n','	"math"\n	"math/big"\n'),
('cmd/horcrux/cmd/cosigner.go','	"strings"\n','')]
test=open('/verif/tools/bugs/C32-stale-share.py').read().split("test='''")[1].split("'''")[0].replace('''		pub := ed25519.GenPrivKey().PubKey()
''','''		pub := ed25519.GenPrivKey().PubKey()
		for pub.Address()[0] > 0xf {
			pub = ed25519.GenPrivKey().PubKey()
		}
''')
