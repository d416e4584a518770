F='cmd/horcrux/cmd/cosigner.go'
C='signer/Config.go'
T='signer/threshold_validator.go'
B,K="C32","=C32"
IH=(F,'	"encoding/hex"\n','')
IS=(F,'	"strings"\n','')
def one(n,p,a,b,f=F): return (n,p,[(f,a,b)])
def more(m,*e): return (m[0],m[1],m[2]+list(e))
HEX="				HexAddress: strings.ToUpper(hex.EncodeToString(pubKeyAddress)),\n"
FILE='''			var privValKeyFile string
			if config.PrivValKeyFile == "" {
				privValKeyFile = path.Join(config.HomeDir, "share.json")
			} else {
				privValKeyFile = config.PrivValKeyFile
			}

			key, err'''
STARTFILE='''				privValKeyFile = path.Join(config.HomeDir, "share.json")
			} else {
				privValKeyFile = config.PrivValKeyFile
			}

			cfg = '''
M=[
 ("c32-bigint",B,[(F,HEX,HEX.replace("strings.ToUpper(hex.EncodeToString(pubKeyAddress))",'fmt.Sprintf("%X", new(big.Int).SetBytes(pubKeyAddress))')),IH,(F,'	"strings"\n','	"math/big"\n')]),
 more(one("c32-minpct",B,HEX,HEX.replace("strings.ToUpper(hex.EncodeToString(pubKeyAddress))",'fmt.Sprintf("0x%X", []byte(pubKeyAddress))')),IH,IS),
 one("c32-slice",B,HEX,HEX.replace("(pubKeyAddress)","(pubKeyAddress[:16])")),
 one("c32-slice2",B,'"valcons", pubKeyAddress)','"valcons", pubKeyAddress[:19])'),
 more(one("c32-lower",B,HEX,HEX.replace("strings.ToUpper(hex.EncodeToString(pubKeyAddress))","hex.EncodeToString(pubKeyAddress)")),IS),
 one("c32-hexpub",B,HEX,HEX.replace("(pubKeyAddress)","(pubKey.Bytes())")),
 more(one("c32-hexpct",K,HEX,HEX.replace("strings.ToUpper(hex.EncodeToString(pubKeyAddress))",'fmt.Sprintf("%X", []byte(pubKeyAddress))')),IH,IS),
 more(one("c32-hexstring",K,HEX,HEX.replace("strings.ToUpper(hex.EncodeToString(pubKeyAddress))",'pubKeyAddress.String()')),IH,IS),
 one("c32-valcons",B,'args[0]+"valcons"','args[0]'),
 one("c32-valconspub",B,'bech32BasePrefix + "valconspub"','bech32BasePrefix + "valcons"',C),
 one("c32-valoper",B,'args[0]+"valcons"','args[0]+"valoper"'),
 one("c32-lowprefix",B,'ConvertAndEncode(args[0]+"valcons"','ConvertAndEncode(strings.TrimSuffix(args[0], "valcons")+"valcons"'),
 one("c32-pubjson",B,'signer.PubKey(args[0], pubKey)','signer.PubKey("", pubKey)'),
 one("c32-swapped",B,'output.ValConsPubAddress = pubKeyBech32','_ = pubKeyBech32\n				output.ValConsPubAddress = bech32ValConsAddress'),
 one("c32-bytes",B,'legacy.Cdc.Amino.MustMarshalBinaryBare(pubkey)','append(legacy.Cdc.Amino.MustMarshalBinaryBare(pubkey)[:0], pubKey.Address()...)',C),
 one("c32-print",B,'			fmt.Println(string(jsonOut))\n','			if len(args) == 1 {\n				fmt.Println(string(jsonOut))\n			}\n'),
 one("c32-ignore",B,'''			jsonOut, err := json.Marshal(output)
			if err != nil {
				return err
			}
''','''			jsonOut, err := json.Marshal(output)
			if err != nil {
				return nil
			}
'''),
 one("c32-file",B,FILE,FILE.replace('"share.json"','"priv_validator_key.json"')),
 one("c32-startfile",B,STARTFILE,STARTFILE.replace('config.PrivValKeyFile\n','path.Join(config.HomeDir, config.PrivValKeyFile)\n')),
 one("c32-alwaysdefault",B,FILE,FILE.replace('= config.PrivValKeyFile\n','= path.Join(config.HomeDir, "share.json")\n')),
 one("c32-field",B,"	return pv.pubkey, nil","	return pv.cosigner.GetPubKey(), nil",T) if False else one("c32-hint",B,'len(args) == 1 {\n				bech32Val','len(args) == 1 && len(args[0]) > 3 {\n				bech32Val'),
 one("c32-marshalindent",K,'json.Marshal(output)','json.MarshalIndent(output, "", "  ")'),
 one("c32-ptr",K,'json.Marshal(output)','json.Marshal(&output)'),
 one("c32-printf",K,'fmt.Println(string(jsonOut))','fmt.Printf("%s\\n", jsonOut)'),
 one("c32-cmdout",K,'fmt.Println(string(jsonOut))','fmt.Fprintln(os.Stdout, string(jsonOut))'),
 one("c32-write",K,'fmt.Println(string(jsonOut))','_, _ = os.Stdout.Write(append(jsonOut, 10))'),
 one("c32-direct",K,'			pubKey := key.PubKey\n			pubKeyAddress := pubKey.Address()\n','			pubKey := key.PubKey\n			pubKeyAddress := key.PubKey.Address()\n'),
 one("c32-sprintf",K,'args[0]+"valcons"','fmt.Sprintf("%svalcons", args[0])'),
 ("c32-helper",K,[(F,FILE,'''			key, err'''),(F,"signer.LoadCosignerKey(privValKeyFile)\n","signer.LoadCosignerKey(keyFile())\n"),(F,"func StartCosignerCmd()",'''// keyFile is where the key share is.
func keyFile() string {
	if config.PrivValKeyFile != "" {
		return config.PrivValKeyFile
	}
	return path.Join(config.HomeDir, "share.json")
}

func StartCosignerCmd()''')]),
 one("c32-lateset",K,'''			output := AddressCmdOutput{
				HexAddress: strings.ToUpper(hex.EncodeToString(pubKeyAddress)),
				PubKey:     pubKeyJSON,
			}
''','''			var output AddressCmdOutput
			output.HexAddress = strings.ToUpper(hex.EncodeToString(pubKeyAddress))
			output.PubKey = pubKeyJSON
'''),
]
