F='cmd/horcrux/cmd/leader_election.go'; A='cmd/horcrux/cmd/cosigner.go'; G='signer/grpc_server.go'; G2='signer/cosigner_grpc_server.go'
K="=C33"; L="=C32"
LOOP='''		for _, peer := range config.CosignerConfig.Peers {
			url, err := url.Parse(peer.P2PAddr)
			if err != nil {
				fmt.Printf("Error parsing peer URL: %v", err)
			} else {
				host, port, err := net.SplitHostPort(url.Host)
				if err == nil {
					grpcAddresses = append(grpcAddresses, fmt.Sprintf("%s:%s", host, port))
				}
			}
		}
'''
FIRST='''		var grpcAddresses []string
		url, err := url.Parse(config.CosignerConfig.P2PListen)
		if err != nil {
			fmt.Printf("Error parsing peer URL: %v", err)
		} else {
			host, port, err := net.SplitHostPort(url.Host)
			if err == nil {
				grpcAddresses = append(grpcAddresses, fmt.Sprintf("%s:%s", host, port))
			}
		}

'''
SRV='''		for _, peer := range rpc.raftStore.Peers {
			thisPeerID := fmt.Sprint(peer.GetID())
			if thisPeerID == leaderID {
				peerRaftAddress := p2pURLToRaftAddress(peer.GetAddress())
				fmt.Printf("Transferring leadership to ID: %s - Address: %s\\n", thisPeerID, peerRaftAddress)
				f := rpc.raftStore.raft.LeadershipTransferToServer(raft.ServerID(thisPeerID), raft.ServerAddress(peerRaftAddress))
				if err := f.Error(); err != nil {
					return nil, err
				}
				return &proto.CosignerGRPCTransferLeadershipResponse{LeaderID: thisPeerID, LeaderAddress: peerRaftAddress}, nil
			}
		}
		return nil, fmt.Errorf("no peer of the leader has the ID %s", leaderID)
	}
'''
HEX='strings.ToUpper(hex.EncodeToString(pubKeyAddress))'
FILE='''			var privValKeyFile string
			if config.PrivValKeyFile == "" {
				privValKeyFile = path.Join(config.HomeDir, "share.json")
			} else {
				privValKeyFile = config.PrivValKeyFile
			}

			key, err'''
M=[
("joinhp",K,[(F,LOOP,LOOP.replace('fmt.Sprintf("%s:%s", host, port)','host+":"+port'))]),
("continue",K,[(F,LOOP,'''		for _, peer := range config.CosignerConfig.Peers {
			peerURL, err := url2(peer.P2PAddr)
			if err != nil {
				fmt.Printf("Error parsing peer URL: %v", err)
				continue
			}
			host, port, err := net.SplitHostPort(peerURL.Host)
			if err != nil {
				continue
			}
			grpcAddresses = append(grpcAddresses, fmt.Sprintf("%s:%s", host, port))
		}
'''),(F,'var leaderElectionCmd','func url2(s string) (*url.URL, error) { return url.Parse(s) }\n\nvar leaderElectionCmd')]),
("prealloc",K,[(F,'		var grpcAddresses []string\n','		grpcAddresses := make([]string, 0, len(config.CosignerConfig.Peers)+1)\n')]),
("builder",K,[(F,'fmt.Sprintf("multi:///%s", strings.Join(grpcAddresses, ","))','"multi:///" + strings.Join(grpcAddresses, ",")')]),
("helper-addrs",K,[(F,FIRST+LOOP,'''		grpcAddresses := electionAddresses(config.CosignerConfig)
'''),(F,'var leaderElectionCmd','''func electionAddresses(cfg *CosignerConfig) (addrs []string) {
	add := func(addr string) {
		u, err := url.Parse(addr)
		if err != nil {
			fmt.Printf("Error parsing peer URL: %v", err)
			return
		}
		if host, port, err := net.SplitHostPort(u.Host); err == nil {
			addrs = append(addrs, fmt.Sprintf("%s:%s", host, port))
		}
	}
	add(cfg.P2PListen)
	for _, peer := range cfg.Peers {
		add(peer.P2PAddr)
	}
	return addrs
}

var leaderElectionCmd''')]),
("index-loop",K,[(F,LOOP,LOOP.replace("for _, peer := range config.CosignerConfig.Peers {","peers := config.CosignerConfig.Peers\n		for i := 0; i < len(peers); i++ {\n			peer := peers[i]"))]),
("leader-fn",K,[(F,'''		leaderID := ""

		if len(args) > 0 {
			leaderID = args[0]
		}
''','''		leaderID := firstArg(args)
'''),(F,'var leaderElectionCmd','''func firstArg(args []string) string {
	if len(args) == 0 {
		return ""
	}
	return args[0]
}

var leaderElectionCmd''')]),
("switch-len",K,[(F,'''		if len(args) > 0 {
			leaderID = args[0]
		}
''','''		switch len(args) {
		case 1:
			leaderID = args[0]
		}
''')]),
("dial-helper",K,[(F,'''		conn, err := grpc.Dial(grpcAddress,
			grpc.WithDefaultServiceConfig(serviceConfig), grpc.WithTransportCredentials(insecure.NewCredentials()),
			grpc.WithDefaultCallOptions(grpc.WaitForReady(true)),
			grpc.WithUnaryInterceptor(grpc_retry.UnaryClientInterceptor(retryOpts...)))
''','''		dialOpts := []grpc.DialOption{
			grpc.WithDefaultServiceConfig(serviceConfig),
			grpc.WithTransportCredentials(insecure.NewCredentials()),
			grpc.WithDefaultCallOptions(grpc.WaitForReady(true)),
			grpc.WithUnaryInterceptor(grpc_retry.UnaryClientInterceptor(retryOpts...)),
		}
		conn, err := grpc.Dial(grpcAddress, dialOpts...)
''')]),
("const-svc",K,[(F,'''		serviceConfig := `{"healthCheckConfig": {"serviceName": "Leader"}, "loadBalancingConfig": [ { "round_robin": {} } ]}`
''',''),(F,'serviceConfig)','electServiceConfig)'),(F,'var leaderElectionCmd','''const electServiceConfig = `{"healthCheckConfig": {"serviceName": "Leader"}, "loadBalancingConfig": [ { "round_robin": {} } ]}`

var leaderElectionCmd''')]),
("req-var",K,[(F,'''		_, err = grpcClient.TransferLeadership(
			context,
			&proto.CosignerGRPCTransferLeadershipRequest{LeaderID: leaderID},
		)
		if err != nil {
			return err
		}

		return nil
''','''		req := &proto.CosignerGRPCTransferLeadershipRequest{}
		req.LeaderID = leaderID
		_, err = grpcClient.TransferLeadership(context, req)
		return err
''')]),
("wrap-err",K,[(F,'''			&proto.CosignerGRPCTransferLeadershipRequest{LeaderID: leaderID},
		)
		if err != nil {
			return err
		}
''','''			&proto.CosignerGRPCTransferLeadershipRequest{LeaderID: leaderID},
		)
		if err != nil {
			return fmt.Errorf("electing a leader: %w", err)
		}
''')]),
("runfn",K,[(F,'	RunE: func(cmd *cobra.Command, args []string) (err error) {\n','	RunE: runElect,\n}\n\nfunc runElect(cmd *cobra.Command, args []string) (err error) {\n'),(F,'''		return nil
	},
}
''','''		return nil
}
''')]),
("srv-continue",K,[(G,SRV,SRV.replace('''			if thisPeerID == leaderID {
''','''			if thisPeerID != leaderID {
				continue
			}
			{
'''))]),
("srv-itoa",K,[(G2,'thisPeerID := fmt.Sprint(peer.GetID())','thisPeerID := strconv.Itoa(peer.GetID())'),(G2,'import (\n','import (\n	"strconv"\n')]),
("srv-early",K,[(G,'''	leaderID := req.GetLeaderID()
	if leaderID != "" {
'''+SRV+'''	fmt.Printf("Transferring leadership to next candidate\\n")
	if err := rpc.raftStore.raft.LeadershipTransfer().Error(); err != nil {
		return nil, err
	}
	return &proto.CosignerGRPCTransferLeadershipResponse{}, nil
''','''	leaderID := req.GetLeaderID()
	if leaderID == "" {
		fmt.Printf("Transferring leadership to next candidate\\n")
		if err := rpc.raftStore.raft.LeadershipTransfer().Error(); err != nil {
			return nil, err
		}
		return &proto.CosignerGRPCTransferLeadershipResponse{}, nil
	}
	{
'''+SRV)]),
("srv-method",K,[(G,SRV,'''		return rpc.transferTo(leaderID)
	}
'''),(G,'func (rpc *GRPCServer) TransferLeadership(','''func (rpc *GRPCServer) transferTo(leaderID string) (*proto.CosignerGRPCTransferLeadershipResponse, error) {
	var target Cosigner
	for _, peer := range rpc.raftStore.Peers {
		if fmt.Sprint(peer.GetID()) == leaderID {
			target = peer
			break
		}
	}
	if target == nil {
		return nil, fmt.Errorf("no peer of the leader has the ID %s", leaderID)
	}
	addr := p2pURLToRaftAddress(target.GetAddress())
	f := rpc.raftStore.raft.LeadershipTransferToServer(raft.ServerID(leaderID), raft.ServerAddress(addr))
	if err := f.Error(); err != nil {
		return nil, err
	}
	return &proto.CosignerGRPCTransferLeadershipResponse{LeaderID: leaderID, LeaderAddress: addr}, nil
}

func (rpc *GRPCServer) TransferLeadership(''')]),
("a-cosignershort",L,[(A,FILE,'''			privValKeyFile := config.PrivValKeyFile
			if privValKeyFile == "" {
				privValKeyFile = filepath.Join(config.HomeDir, "share.json")
			}

			key, err'''),(A,'import (\n','import (\n	"path/filepath"\n')]),
("a-fmtX",L,[(A,HEX,'fmt.Sprintf("%X", []byte(pubKeyAddress))'),(A,'	"encoding/hex"\n',''),(A,'	"strings"\n','')]),
("a-string",L,[(A,HEX,'pubKeyAddress.String()'),(A,'	"encoding/hex"\n',''),(A,'	"strings"\n','')]),
("a-early",L,[(A,'''			pubKeyJSON, err := signer.PubKey("", pubKey)
''','''			bz := []byte(pubKeyAddress)
			_ = bz
			pubKeyJSON, err := signer.PubKey("", pubKey)
''')]),
("a-arghint",L,[(A,'''			if len(args) == 1 {
				bech32ValConsAddress''','''			if len(args) > 0 {
				bech32ValConsAddress''')]),
("a-fill",L,[(A,'''			output := AddressCmdOutput{
				HexAddress: strings.ToUpper(hex.EncodeToString(pubKeyAddress)),
				PubKey:     pubKeyJSON,
			}
''','''			var output AddressCmdOutput
			output.HexAddress = strings.ToUpper(hex.EncodeToString(pubKeyAddress))
			output.PubKey = pubKeyJSON
''')]),
("a-helper",L,[(A,'''				bech32ValConsAddress, err := bech32.ConvertAndEncode(args[0]+"valcons", pubKeyAddress)
				if err != nil {
					return err
				}
				output.ValConsAddress = bech32ValConsAddress
				pubKeyBech32, err := signer.PubKey(args[0], pubKey)
				if err != nil {
					return err
				}
				output.ValConsPubAddress = pubKeyBech32
''','''				if err := output.addBech32(args[0], key.PubKey); err != nil {
					return err
				}
'''),(A,'func StartCosignerCmd()','''func (o *AddressCmdOutput) addBech32(prefix string, pk crypto.PubKey) (err error) {
	if o.ValConsAddress, err = bech32.ConvertAndEncode(prefix+"valcons", pk.Address()); err != nil {
		return err
	}
	o.ValConsPubAddress, err = signer.PubKey(prefix, pk)
	return err
}

func StartCosignerCmd()'''),(A,'import (\n','import (\n	"github.com/tendermint/tendermint/crypto"\n')]),
("a-keyaddr",L,[(A,'			pubKeyAddress := pubKey.Address()\n','			pubKeyAddress := key.PubKey.Address().Bytes()\n')]),
("a-encoder",L,[(A,'''			jsonOut, err := json.Marshal(output)
			if err != nil {
				return err
			}

			fmt.Println(string(jsonOut))

			return nil
''','''			return printJSON(output)
'''),(A,'func StartCosignerCmd()','''func printJSON(v interface{}) error {
	out, err := json.Marshal(v)
	if err != nil {
		return err
	}
	fmt.Println(string(out))
	return nil
}

func StartCosignerCmd()''')]),

("one-or-more",K,[(F,"		if len(args) > 0 {\n","		if len(args) >= 1 {\n")]),
("not-empty",K,[(F,"		if len(args) > 0 {\n","		if len(args) != 0 {\n")]),
("is-one",K,[(F,"		if len(args) > 0 {\n","		if len(args) == 1 {\n")]),
("a-one",L,[(A,"			if len(args) == 1 {\n","			if len(args) != 0 {\n")]),
]
