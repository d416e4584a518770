F='cmd/horcrux/cmd/leader_election.go'
G='signer/grpc_server.go'
R='signer/raft_store.go'
B,K="C33","=C33"
def one(n,p,a,b,f=F): return (n,p,[(f,a,b)])
PEER='''		for _, peer := range config.CosignerConfig.Peers {
			url, err := url.Parse(peer.P2PAddr)
			if err != nil {
				fmt.Printf("Error parsing peer URL: %v", err)
			} else {
				host, port, err := net.SplitHostPort(url.Host)
				if err == nil {
					grpcAddresses = append(grpcAddresses, fmt.Sprintf("%s:%s", host, port))
				}
			}
		}
'''
OWN='''		url, err := url.Parse(config.CosignerConfig.P2PListen)
		if err != nil {
			fmt.Printf("Error parsing peer URL: %v", err)
		} else {
			host, port, err := net.SplitHostPort(url.Host)
			if err == nil {
				grpcAddresses = append(grpcAddresses, fmt.Sprintf("%s:%s", host, port))
			}
		}

'''
LEAD='''		leaderID := ""

		if len(args) > 0 {
			leaderID = args[0]
		}
'''
SRV='''		return nil, fmt.Errorf("no peer of the leader has the ID %s", leaderID)
'''
M=[
 one("c33-trim",B,"			leaderID = args[0]\n","			leaderID = strings.TrimLeft(args[0], \"0\")\n"),
 one("c33-noerr",B,"		if err != nil {\n			return err\n		}\n\n		return nil\n","		if err != nil {\n			fmt.Println(err)\n		}\n\n		return nil\n"),
 one("c33-only2",B,"		if len(args) > 0 {\n","		if len(args) > 0 && len(args[0]) < 3 {\n"),
 one("c33-ownfirst",B,PEER,PEER.replace("P2PAddr)","P2PAddr)\n			if peer.ShareID > len(config.CosignerConfig.Peers) {\n				continue\n			}")),
 one("c33-stop",B,PEER,PEER.replace('				fmt.Printf("Error parsing peer URL: %v", err)\n','				fmt.Printf("Error parsing peer URL: %v", err)\n				break\n')),
 one("c33-noself",B,OWN,OWN.replace("if err == nil {","if err == nil && len(args) == 0 {")),
 one("c33-healthname",B,'"serviceName": "Leader"','"serviceName": "leader"'),
 one("c33-healthsrv",B,'[]string{"Leader"}','[]string{"Raft"}',R),
 one("c33-healthnone",B,'{"healthCheckConfig": {"serviceName": "Leader"}, "load','{"load'),
 one("c33-env",B,'strings.Join(grpcAddresses, ",")','strings.Join(append(grpcAddresses, homeDir), ",")'),
 one("c33-srv-fall",B,SRV,"",G),
 one("c33-srv-fall2",B,SRV,"",'signer/cosigner_grpc_server.go'),
 one("c33-srv-self",B,SRV,'		if leaderID != rpc.raftStore.NodeID {\n			return nil, fmt.Errorf("no peer of the leader has the ID %s", leaderID)\n		}\n',G),
 one("c33-srv-space",B,'	if leaderID != "" {','	if leaderID != "" && leaderID != "0" {',G),
 one("c33-k-len",K,'	if leaderID != "" {','	if len(leaderID) > 0 {',G),
 one("c33-k-direct",K,LEAD,'''		var leaderID string
		if len(args) != 0 {
			leaderID = args[0]
		}
'''),
 one("c33-k-dialctx",K,'conn, err := grpc.Dial(grpcAddress,','conn, err := grpc.DialContext(cmd.Context(), grpcAddress,'),
 ("c33-k-helper",K,[(F,OWN,'''		grpcAddresses = appendAddress(grpcAddresses, config.CosignerConfig.P2PListen)
'''),(F,PEER,'''		for _, peer := range config.CosignerConfig.Peers {
			grpcAddresses = appendAddress(grpcAddresses, peer.P2PAddr)
		}
'''),(F,'var leaderElectionCmd =','''func appendAddress(addresses []string, p2pAddr string) []string {
	parsed, err := url.Parse(p2pAddr)
	if err != nil {
		fmt.Printf("Error parsing peer URL: %v", err)
		return addresses
	}
	host, port, err := net.SplitHostPort(parsed.Host)
	if err != nil {
		return addresses
	}
	return append(addresses, net.JoinHostPort(host, port))
}

var leaderElectionCmd ='''),(F,'conn, err := grpc.Dial(','conn, err := grpc.Dial(')]),
 ("c33-k-list",K,[(F,OWN,'''		all := []string{config.CosignerConfig.P2PListen}
		for _, peer := range config.CosignerConfig.Peers {
			all = append(all, peer.P2PAddr)
		}
'''),(F,PEER,'''		for _, a := range all {
			u, err := url.Parse(a)
			if err != nil {
				fmt.Printf("Error parsing peer URL: %v", err)
				continue
			}
			if host, port, err := net.SplitHostPort(u.Host); err == nil {
				grpcAddresses = append(grpcAddresses, fmt.Sprintf("%s:%s", host, port))
			}
		}
'''),(F,'conn, err := grpc.Dial(','conn, err := grpc.Dial(')]),
 ("c33-k-srv",K,[(G,'			thisPeerID := fmt.Sprint(peer.GetID())\n			if thisPeerID == leaderID {\n','			thisPeerID := fmt.Sprint(peer.GetID())\n			if thisPeerID != leaderID {\n				continue\n			}\n			{\n')]),
 one("c33-k-inline",K,'''		_, err = grpcClient.TransferLeadership(
			context,
			&proto.CosignerGRPCTransferLeadershipRequest{LeaderID: leaderID},
		)
		if err != nil {
			return err
		}

		return nil
''','''		req := &proto.CosignerGRPCTransferLeadershipRequest{}
		req.LeaderID = leaderID
		_, err = grpcClient.TransferLeadership(context, req)
		return err
'''),
]
