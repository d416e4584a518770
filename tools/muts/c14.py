C="signer/Cosigner.go"; RC="signer/remote_cosigner.go"; E="signer/raft_events.go"; G="signer/grpc_server.go"; H="signer/cosigner_grpc_server.go"; TV="signer/threshold_validator.go"
M=[
("c14-dropts","C14",[(C,"		Timestamp: hrst.Timestamp,\n","")]),
("c14-trunc","C14",[(C,"		Height:    hrs.GetHeight(),","		Height:    int64(int32(hrs.GetHeight())),")]),
("c14-step","C14",[(C,"		Step:      int8(hrs.GetStep()),","		Step:      int8(hrs.GetRound()),")]),
("c14-secs","C14",[(RC,"time.Unix(0, res.GetTimestamp())","time.Unix(res.GetTimestamp()/1e9, 0)")]),
("c14-break","C14",[(C,"		out = append(out, CosignerEphemeralSecretPartFromProto(secretPart))\n","		out = append(out, CosignerEphemeralSecretPartFromProto(secretPart))\n		if len(out) >= 16 {\n			break\n		}\n")]),
("c14-skip","C14",[(C,"		out = append(out, secretPart.toProto())\n","		if secretPart.DestinationID == 0 {\n			continue\n		}\n		out = append(out, secretPart.toProto())\n")]),
("c14-swapids","C14",[(C,"		SourceID:                       int32(secretPart.SourceID),\n		DestinationID:                  int32(secretPart.DestinationID),","		SourceID:                       int32(secretPart.DestinationID),\n		DestinationID:                  int32(secretPart.SourceID),")]),
("c14-int8id","C14",[(C,"		DestinationID:                  int(secretPart.DestinationID),","		DestinationID:                  int(uint8(secretPart.DestinationID)),")]),
("c14-err","C14",[(RC,"	if err != nil {\n		return nil, err\n	}\n	return &CosignerSignResponse{","	if err != nil && res == nil {\n		return nil, err\n	}\n	return &CosignerSignResponse{")]),
("c14-one","C14",[(G,"		Timestamp: time.Unix(0, req.Block.GetTimestamp()),","		Timestamp: time.Unix(req.Block.GetTimestamp(), 0),")]),
("c14-unixsec","C14",[(H,"res.Timestamp.UnixNano()","res.Timestamp.Unix()")]),
("c14-chain","C14",[(E,"		ChainID: req.ChainID,\n","")]),
("c14-blockround","C14",[(TV,"		Round:     block.Round,\n","		Round:     int64(int16(block.Round)),\n"),]),
("c14-emptysig","C14",[(G,"	res, _, err := rpc.thresholdValidator.SignBlock(req.ChainID, block)\n	if err != nil {\n		return nil, err\n	}\n","	res, _, err := rpc.thresholdValidator.SignBlock(req.ChainID, block)\n	if err != nil {\n		if isBeyond(err) {\n			return &proto.CosignerGRPCSignBlockResponse{}, nil\n		}\n		return nil, err\n	}\n"),(G,"func (rpc *GRPCServer) SignBlock(","func isBeyond(err error) bool { _, ok := err.(*BeyondBlockError); return ok }\n\nfunc (rpc *GRPCServer) SignBlock(")]),
("c14-addr","C14",[(RC,"		grpcAddress = url.Host","		grpcAddress = url.Hostname()+\":2222\"")]),
("c14-lead","C14",[(G,"			if thisPeerID == leaderID {","			if len(thisPeerID) >= len(leaderID) && thisPeerID[:len(leaderID)] == leaderID {")]),
("c14-leadaddr","C14",[(G,"raft.ServerID(thisPeerID), raft.ServerAddress(peerRaftAddress))","raft.ServerID(thisPeerID), raft.ServerAddress(p2pURLToRaftAddress(rpc.raftStore.Peers[0].GetAddress())))")]),
("c14-leaderr","C14",[(G,"	if err := rpc.raftStore.raft.LeadershipTransfer().Error(); err != nil {\n		return nil, err\n	}\n","	rpc.raftStore.raft.LeadershipTransfer()\n")]),
("c14-loopvar","C14",[(C,"	for _, secretPart := range secretParts {\n		out = append(out, secretPart.toProto())\n	}","	var p proto.EphemeralSecretPart\n	for _, secretPart := range secretParts {\n		p.SourceID = int32(secretPart.SourceID)\n		p.DestinationID = int32(secretPart.DestinationID)\n		p.SourceEphemeralSecretPublicKey = secretPart.SourceEphemeralSecretPublicKey\n		p.EncryptedSharePart = secretPart.EncryptedSharePart\n		p.SourceSig = secretPart.SourceSig\n		out = append(out, &p)\n	}")]),
("c14-keep-index","=C14",[(C,"	for _, secretPart := range secretParts {\n		out = append(out, CosignerEphemeralSecretPartFromProto(secretPart))\n	}\n	return","	out = make([]CosignerEphemeralSecretPart, len(secretParts))\n	for i := range secretParts {\n		out[i] = CosignerEphemeralSecretPartFromProto(secretParts[i])\n	}\n	return")]),
("c14-keep-index2","=C14",[(C,"	for _, secretPart := range secretParts {\n		out = append(out, secretPart.toProto())\n	}\n	return","	for i := 0; i < len(secretParts); i++ {\n		p := secretParts[i].toProto()\n		out = append(out, p)\n	}\n	return out")]),
("c14-keep-cap","=C14",[(C,"	for _, secretPart := range secretParts {\n		out = append(out, secretPart.toProto())\n	}\n	return","	out = make([]*proto.EphemeralSecretPart, 0, len(secretParts))\n	for i := range secretParts {\n		sp := &secretParts[i]\n		out = append(out, sp.toProto())\n	}\n	return out")]),
("c14-keep-helper","=C14",[(G,"	block := &Block{\n		Height:    req.Block.GetHeight(),\n		Round:     req.Block.GetRound(),\n		Step:      int8(req.Block.GetStep()),\n		SignBytes: req.Block.GetSignBytes(),\n		Timestamp: time.Unix(0, req.Block.GetTimestamp()),\n	}\n	res","	block := blockOf(req.GetBlock())\n	res"),(G,"req.ChainID, block","req.GetChainID(), block"),(G,"type GRPCServer struct","func blockOf(b *proto.Block) *Block {\n	out := new(Block)\n	out.Height, out.Round = b.GetHeight(), b.GetRound()\n	out.Step = int8(b.GetStep())\n	out.SignBytes = b.GetSignBytes()\n	out.Timestamp = time.Unix(0, b.GetTimestamp())\n	return out\n}\n\ntype GRPCServer struct")]),
("c14-keep-local","=C14",[(RC,"	res, err := client.SetEphemeralSecretPartsAndSign(context, &proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest{\n		EncryptedSecrets: CosignerEphemeralSecretParts(req.EncryptedSecrets).toProto(),\n		Hrst:             req.HRST.toProto(),\n		SignBytes:        req.SignBytes,\n	})","	r := new(proto.CosignerGRPCSetEphemeralSecretPartsAndSignRequest)\n	r.Hrst = req.HRST.toProto()\n	r.EncryptedSecrets = CosignerEphemeralSecretParts(req.EncryptedSecrets).toProto()\n	r.SignBytes = append([]byte(nil), req.SignBytes...)\n	res, err := client.SetEphemeralSecretPartsAndSign(context, r)")]),
("c14-keep-lead","=C14",[(G,"	if leaderID != \"\" {\n		for _, peer := range rpc.raftStore.Peers {\n			thisPeerID := fmt.Sprint(peer.GetID())\n			if thisPeerID == leaderID {","	if leaderID != \"\" {\n		for i := range rpc.raftStore.Peers {\n			peer := rpc.raftStore.Peers[i]\n			thisPeerID := fmt.Sprintf(\"%d\", peer.GetID())\n			if leaderID == thisPeerID {")]),
]
