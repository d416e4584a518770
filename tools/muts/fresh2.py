SS="signer/sign_state.go"; LC="signer/local_cosigner.go"; TV="signer/threshold_validator.go"; RE="signer/raft_events.go"; RS="signer/raft_store.go"
RC="signer/remote_cosigner.go"; CG="signer/cosigner_grpc_server.go"; GS="signer/grpc_server.go"; PG="signer/PvGuard.go"; CO="signer/Cosigner.go"; SR="signer/remote_signer.go"
CK="signer/cosigner_key.go"; KS="signer/cosigner_key_shares.go"; SV="signer/services.go"
ST="cmd/horcrux/cmd/state.go"; CF="cmd/horcrux/cmd/config.go"; CS="cmd/horcrux/cmd/cosigner.go"; SI="cmd/horcrux/cmd/signer.go"; K2="cmd/horcrux/cmd/key2shares.go"; LE="cmd/horcrux/cmd/leader_election.go"
M=[
# C10
("g10-optsig","C10",[(LC,"		err = rsa.VerifyPSS(&peerPub, crypto.SHA256, digest[:], req.SourceSig, nil)\n		if err != nil {\n			return err\n		}","		if len(req.SourceSig) > 0 {\n			err = rsa.VerifyPSS(&peerPub, crypto.SHA256, digest[:], req.SourceSig, nil)\n			if err != nil {\n				return err\n			}\n		}")]),
("g10-ownpub","C10",[(LC,"		peerPub := peer.PublicKey\n","		peerPub := peer.PublicKey\n		if req.SourceID == cosigner.GetID() {\n			peerPub = cosigner.rsaKey.PublicKey\n		}\n		peerPub = cosigner.rsaKey.PublicKey\n")]),
("g10-shortdigest","C10",[(LC,"		digestMsg.SourceEphemeralSecretPublicKey = req.SourceEphemeralSecretPublicKey\n","")]),
("g10-destslot","C10",[(LC,"	meta.Peers[req.SourceID-1].EphemeralSecretPublicKey = req.SourceEphemeralSecretPublicKey","	meta.Peers[req.SourceID-1].EphemeralSecretPublicKey = tsed25519.ScalarMultiplyBase(sharePart)")]),
("g10-setbefore","C10",[(LC,"	// decrypt share\n	sharePart, err","	meta.Peers[req.SourceID-1].EphemeralSecretPublicKey = req.SourceEphemeralSecretPublicKey\n	// decrypt share\n	sharePart, err")]),
("g10-fromwire","C10",[(LC,"	for _, secretPart := range req.EncryptedSecrets {\n		err := cosigner.setEphemeralSecretPart(CosignerSetEphemeralSecretPartRequest{\n			SourceID:                       secretPart.SourceID,","	for i, secretPart := range req.EncryptedSecrets {\n		if i >= int(cosigner.threshold) {\n			break\n		}\n		err := cosigner.setEphemeralSecretPart(CosignerSetEphemeralSecretPartRequest{\n			SourceID:                       secretPart.DestinationID,")]),
("g10-pkcs","C10",[(LC,"		return err\n	}\n\n	// set slot","		sharePart = req.EncryptedSharePart\n	}\n\n	// set slot")]),
# C11
("g11-logkey","C11",[(CS,"			localCosigner := signer.NewLocalCosigner(localCosignerConfig)\n","			localCosigner := signer.NewLocalCosigner(localCosignerConfig)\n			logger.Debug(\"Local cosigner\", \"config\", localCosignerConfig)\n")]),
("g11-errmeta","C11",[(LC,"		return res, errors.New(\"no metadata at HRS\")","		return res, fmt.Errorf(\"no metadata at HRS, have %v\", cosigner.hrsMeta)")]),
("g11-firstpeer","C11",[(LC,"	sharePart := meta.DealtShares[req.ID-1]\n","	sharePart := meta.DealtShares[peer.ID%int(cosigner.total)]\n")]),
("g11-owndest","C11",[(LC,"	res.DestinationID = req.ID\n","	res.DestinationID = cosigner.GetID()\n")]),
("g11-perm","C11",[(KS,"	return ioutil.WriteFile(file, jsonBytes, 0600)","	return ioutil.WriteFile(file, jsonBytes, 0640)")]),
("g11-dump","C11",[(K2,"				fmt.Printf(\"Created Share %d\\n\", c.ID)","				fmt.Printf(\"Created Share %d: %v\\n\", c.ID, c.ShareKey)")]),
("g11-ephsecret","C11",[(LC,"	ourEphPublicKey := tsed25519.ScalarMultiplyBase(meta.Secret)\n","	ourEphPublicKey := tsed25519.Element(meta.Secret)\n")]),
# C12
("g12-nodelete","C12",[(LC,"	delete(cosigner.hrsMeta, hrst)\n","	if !sameHRS {\n		delete(cosigner.hrsMeta, hrst)\n	}\n")]),
("g12-secretconst","C12",[(LC,"	if _, err := rand.Read(secret); err != nil {\n		return HrsMetadata{}, err\n	}","	if _, err := rand.Read(secret[:16]); err != nil {\n		return HrsMetadata{}, err\n	}")]),
("g12-replace","C12",[(LC,"	if ok {\n		return meta, nil\n	}\n\n	secret","	if ok && len(meta.Peers) == int(cosigner.total) && len(meta.Peers[cosigner.key.ID-1].Share) > 0 {\n		return meta, nil\n	}\n\n	secret")]),
("g12-errdelete","C12",[(LC,"		if _, isSameHRSError := err.(*SameHRSError); !isSameHRSError {\n			return res, err\n		}\n	}\n\n	// the nonce is spent: never use it for another signature\n	delete(cosigner.hrsMeta, hrst)\n","		if _, isSameHRSError := err.(*SameHRSError); !isSameHRSError {\n			return res, err\n		}\n	} else {\n		// the nonce is spent: never use it for another signature\n		delete(cosigner.hrsMeta, hrst)\n	}\n")]),
("g12-anyown","C12",[(LC,"	if len(meta.Peers[cosigner.key.ID-1].Share) == 0 {","	if len(meta.Peers) == 0 || meta.Secret == nil {")]),
("g12-dropstamp","C12",[(LC,"	meta, ok := cosigner.hrsMeta[hrst]\n	if !ok {\n		return res, errors.New(\"no metadata at HRS\")\n	}","	meta, ok := cosigner.hrsMeta[hrst]\n	for key, m := range cosigner.hrsMeta {\n		if !ok && key.Height == hrst.Height && key.Round == hrst.Round && key.Step == hrst.Step {\n			meta, ok = m, true\n		}\n	}\n	if !ok {\n		return res, errors.New(\"no metadata at HRS\")\n	}")]),
# C13
("g13-onlyval","C13",[(RE,"	_ = f.thresholdValidator.SaveLastSignedState(*lss)\n	_ = f.cosigner.SaveLastSignedState(*lss)","	if err := f.thresholdValidator.SaveLastSignedState(*lss); err != nil {\n		return\n	}\n	_ = f.cosigner.SaveLastSignedState(*lss)")]),
("g13-nosig","C13",[(RE,"	_ = f.cosigner.SaveLastSignedState(*lss)","	lss.Signature = nil\n	_ = f.cosigner.SaveLastSignedState(*lss)")]),
("g13-asyncemit","C13",[(TV,"	err = pv.raftStore.Emit(raftEventLSS, newLss)\n	if err != nil {\n		pv.logger.Error(\"Error emitting LSS\", err.Error())\n	}","	go func() {\n		if err := pv.raftStore.Emit(raftEventLSS, newLss); err != nil {\n			pv.logger.Error(\"Error emitting LSS\", err.Error())\n		}\n	}()")]),
("g13-nowait","C13",[(RS,"	f := s.raft.Apply(b, s.RaftTimeout)\n	return f.Error()\n}\n\n// Delete","	s.raft.Apply(b, s.RaftTimeout)\n	return nil\n}\n\n// Delete")]),
("g13-retain","C13",[(RS,"	if !f.shouldRetain(key) {\n		return nil\n	}\n","	if eventHandler != nil && !f.shouldRetain(value) {\n		return nil\n	}\n")]),
("g13-merge","C13",[(RS,"	f.m = o\n	return nil","	for k, v := range o {\n		f.m[k] = v\n	}\n	return nil")]),
("g13-snapempty","C13",[(RS,"		o[k] = v\n	}\n	return &fsmSnapshot","		if v != \"\" {\n			o[k] = v\n		}\n	}\n	return &fsmSnapshot")]),
("g13-delall","C13",[(RS,"	delete(f.m, key)","	for k := range f.m {\n		if len(k) >= len(key) && k[:len(key)] == key {\n			delete(f.m, k)\n		}\n	}")]),
("g13-onlynew","C13",[(TV,"		if _, isSameHRSError := err.(*SameHRSError); !isSameHRSError {\n			return nil, stamp, err\n		}\n	}\n\n	// Emit","		if _, isSameHRSError := err.(*SameHRSError); !isSameHRSError {\n			return nil, stamp, err\n		}\n		return signature, stamp, nil\n	}\n\n	// Emit")]),
("g13-ignorejson","C13",[(RE,"		f.logger.Error(\"LSS Unmarshal Error\", err.Error())\n		return\n","		f.logger.Error(\"LSS Unmarshal Error\", err.Error())\n")]),
("g13-snapshare","C13",[(RS,"	o := make(map[string]string)\n	for k, v := range f.m {\n		o[k] = v\n	}\n	return &fsmSnapshot{store: o, logger: f.logger}, nil","	return &fsmSnapshot{store: f.m, logger: f.logger}, nil")]),
# C14
("g14-secs","C14",[(RC,"		Timestamp:       time.Unix(0, res.GetTimestamp()),","		Timestamp:       time.Unix(res.GetTimestamp(), 0),")]),
("g14-nilcheck","C14",[(CO,"	for _, secretPart := range secretParts {\n		out = append(out, secretPart.toProto())","	for _, secretPart := range secretParts {\n		if len(secretPart.SourceSig) == 0 {\n			continue\n		}\n		out = append(out, secretPart.toProto())")]),
("g14-pointer","C14",[(CO,"func (secretPart *CosignerEphemeralSecretPart) toProto() *proto.EphemeralSecretPart {\n	return &proto.EphemeralSecretPart{\n		SourceID:                       int32(secretPart.SourceID),\n		DestinationID:                  int32(secretPart.DestinationID),","func (secretPart *CosignerEphemeralSecretPart) toProto() *proto.EphemeralSecretPart {\n	return &proto.EphemeralSecretPart{\n		SourceID:                       int32(secretPart.DestinationID),\n		DestinationID:                  int32(secretPart.SourceID),")]),
("g14-emptyerr","C14",[(GS,"	res, err := rpc.cosigner.GetEphemeralSecretParts(HRSTKeyFromProto(req.GetHrst()))\n	if err != nil {\n		return nil, err\n	}","	res, err := rpc.cosigner.GetEphemeralSecretParts(HRSTKeyFromProto(req.GetHrst()))\n	if err != nil {\n		return &proto.CosignerGRPCGetEphemeralSecretPartsResponse{}, nil\n	}")]),
("g14-cgonly","C14",[(CG,"		Timestamp: time.Unix(0, req.Block.GetTimestamp()),","		Timestamp: time.Unix(0, req.Block.GetTimestamp()).Truncate(time.Microsecond),")]),
("g14-chain","C14",[(RE,"		ChainID: req.ChainID,\n		Block:   req.Block.toProto(),","		Block: req.Block.toProto(),")]),
("g14-sigempty","C14",[(RE,"	if err != nil {\n		return nil, err\n	}\n	return &CosignerSignBlockResponse{","	if err != nil && len(res.GetSignature()) == 0 {\n		return &CosignerSignBlockResponse{}, nil\n	}\n	return &CosignerSignBlockResponse{")]),
("g14-hrst","C14",[(CO,"		Step:      int32(hrst.Step),","		Step:      int32(hrst.Step) & 1,")]),
# C15
("g15-swaplog","C15",[(SR,"	msgSum.SignedVoteResponse.Vote = *vote\n	return tmProtoPrivval.Message{Sum: msgSum}\n}","	signed := *vote\n	signed.Timestamp = time.Now()\n	msgSum.SignedVoteResponse.Vote = signed\n	return tmProtoPrivval.Message{Sum: msgSum}\n}")]),
("g15-early","C15",[(SR,"	if err := rs.privVal.SignProposal(rs.chainID, proposal); err != nil {","	msgSum.SignedProposalResponse.Proposal = *proposal\n	if err := rs.privVal.SignProposal(rs.chainID, proposal); err != nil {")]),
("g15-nilerr","C15",[(SR,"			rs.Logger.Debug(\"Rejecting proposal sign request\", \"reason\", typedErr.msg)","			rs.Logger.Debug(\"Rejecting proposal sign request\", \"reason\", typedErr.msg)\n			return tmProtoPrivval.Message{Sum: msgSum}")]),
("g15-errempty","C15",[(SR,"	return &tmProtoPrivval.RemoteSignerError{\n		Code:        0,\n		Description: err.Error(),\n	}","	if _, ok := err.(*StillWaitingForBlockError); ok {\n		return nil\n	}\n	return &tmProtoPrivval.RemoteSignerError{\n		Code:        0,\n		Description: err.Error(),\n	}")]),
("g15-oncekey","C15",[(SR,"	pubKey, err := rs.privVal.GetPubKey()","	pubKey, err := rs.privKey.PubKey(), error(nil)")]),
("g15-skipreply","C15",[(SR,"		err = WriteMsg(conn, res)\n","		if res.Sum == nil {\n			continue\n		}\n		err = WriteMsg(conn, res)\n")]),
("g15-breakunknown","C15,C24",[(SR,"		err = WriteMsg(conn, res)\n","		if res.Sum == nil {\n			conn.Close()\n			conn = nil\n			continue\n		}\n		err = WriteMsg(conn, res)\n")]),
("g15-chain","C15",[(SR,"	if err := rs.privVal.SignVote(rs.chainID, vote); err != nil {","	if err := rs.privVal.SignVote(rs.address, vote); err != nil {")]),
# C16
("g16-unlockearly","C16",[(PG,"	pv.pvMutex.Lock()\n	defer pv.pvMutex.Unlock()\n	return pv.PrivValidator.SignProposal(chainID, proposal)","	pv.pvMutex.Lock()\n	val := pv.PrivValidator\n	pv.pvMutex.Unlock()\n	return val.SignProposal(chainID, proposal)")]),
("g16-valrecv","C16",[(PG,"func (pv *PvGuard) GetPubKey()","func (pv *PvGuard) guard() func() {\n	mutex := &sync.Mutex{}\n	mutex.Lock()\n	return mutex.Unlock\n}\n\n// GetPubKey implements types.PrivValidator\nfunc (pv *PvGuard) GetPubKey()"),(PG,"	pv.pvMutex.Lock()\n	defer pv.pvMutex.Unlock()\n	return pv.PrivValidator.SignVote(chainID, vote)","	defer pv.guard()()\n	return pv.PrivValidator.SignVote(chainID, vote)")]),
("g16-perconn","C16",[(SR,"		s := NewReconnRemoteSigner(node.Address, logger, chainID, privVal, dialer)","		s := NewReconnRemoteSigner(node.Address, logger, chainID, &PvGuard{PrivValidator: privVal}, dialer)")]),
("g16-unwrap","C16",[(SR,"		s := NewReconnRemoteSigner(node.Address, logger, chainID, privVal, dialer)","		val := privVal\n		if guard, ok := val.(*PvGuard); ok {\n			val = guard.PrivValidator\n		}\n		s := NewReconnRemoteSigner(node.Address, logger, chainID, val, dialer)")]),
("g16-noguard","C16",[(SI,"StartRemoteSigners(services, logger, cfg.ChainID, pv, cfg.Nodes)","StartRemoteSigners(services, logger, cfg.ChainID, val, cfg.Nodes)")]),
("g16-copy","C16",[(PG,"	return pv.PrivValidator.SignVote(chainID, vote)","	signed := *vote\n	if err := pv.PrivValidator.SignVote(chainID, &signed); err != nil {\n		return err\n	}\n	vote.Signature = signed.Signature\n	return nil")]),
# C17
("g17-create","C17",[(CS,"			shareSignState, err := signer.LoadSignState(shareStateFile)","			shareSignState, err := signer.LoadOrCreateSignState(shareStateFile)")]),
("g17-both","C17",[(CS,"				SignState:   &shareSignState,","				SignState:   &signState,")]),
("g17-size","C17",[(SS,"	} else if info.Size() > 0 {","	} else if info.Size() > 2 {")]),
("g17-staterr","C17",[(SS,"		if !os.IsNotExist(statErr) {\n			return SignState{}, err\n		}\n","")]),
("g17-loadempty","C17",[(SS,"	err = tmJson.Unmarshal(stateJSONBytes, &state)\n	if err != nil {\n		return state, err\n	}\n","	if len(stateJSONBytes) > 0 {\n		err = tmJson.Unmarshal(stateJSONBytes, &state)\n		if err != nil {\n			return state, err\n		}\n	}\n")]),
("g17-pvempty","C17",[(SI,"	if err != nil {\n		// not written by horcrux config or state, but by the FilePV itself\n		return privval.LoadFilePV(keyFile, stateFile), nil","	if err != nil && info.Size() > 0 {\n		// not written by horcrux config or state, but by the FilePV itself\n		return privval.LoadFilePVEmptyState(keyFile, stateFile), nil")]),
("g17-round","C17",[(SI,"	pv.LastSignState.Round = int32(state.Round)\n","")]),
("g17-file","C17",[(CS,"fmt.Sprintf(\"%s_share_sign_state.json\", chainID))\n			shareSignState","fmt.Sprintf(\"%s_priv_validator_state.json\", chainID))\n			shareSignState")]),
("g17-path","C17,C03",[(SS,"	state.filePath = filepath\n	return state, nil\n}\n\n// LoadOrCreate","	state.filePath = filepath\n	if state.Height == 0 {\n		state.filePath = \"none\"\n	}\n	return state, nil\n}\n\n// LoadOrCreate")]),
("g17-recover","C17",[(CS,"			if err != nil {\n				panic(err)\n			}\n\n			total :=","			if err != nil && !os.IsNotExist(err) {\n				panic(err)\n			}\n\n			total :=")]),
# C18
("g18-dupl","C18",[(CF,"	for _, peer := range peers {\n		if _, found := encountered[peer.ShareID]; !found {","	for _, peer := range peers {\n		if addr, found := encountered[peer.ShareID]; !found || addr == peer.P2PAddr {")]),
("g18-range","C18",[(CF,"		if peer.ShareID < 1 || peer.ShareID > shares {","		if peer.ShareID < 0 || peer.ShareID > shares {")]),
("g18-room","C18",[(CF,"	if len(peers) >= shares {","	if len(peers) > shares {")]),
("g18-memory","C18",[(CF,"			config.CosignerConfig.Shares = numShares\n			if err","			if err"),(CF,"			if err := validateCosignerPeers(config.CosignerConfig.Peers, numShares); err != nil {","			config.CosignerConfig.Shares = numShares\n			if err := validateCosignerPeers(config.CosignerConfig.Peers, config.CosignerConfig.Shares); err != nil {")]),
("g18-nodeerr","C18",[(CF,"	for _, n := range nodes {\n		if _, err = url.Parse(n.PrivValAddr); err != nil {\n			return\n		}\n	}\n	return\n","	for _, n := range nodes {\n		_, err = url.Parse(n.PrivValAddr)\n	}\n	return\n")]),
("g18-overwrite","C18",[(CF,"!os.IsNotExist(err) && !overwrite {","err == nil && !overwrite && len(cn) > 0 {")]),
("g18-timeout","C18",[(CF,"	_, err := time.ParseDuration(cfg.CosignerConfig.Timeout)\n	if err != nil {","	_, err := time.ParseDuration(cfg.CosignerConfig.Timeout)\n	if err != nil && cfg.CosignerConfig.Timeout != \"\" {")]),
("g18-thresh","C18",[(CF,"	if len(cfg.CosignerConfig.Peers)+1 < cfg.CosignerConfig.Threshold {","	if len(cfg.CosignerConfig.Peers)+2 < cfg.CosignerConfig.Threshold {")]),
("g18-addnodes","C18",[(CF,"			diff = append(config.ChainNodes, diff...)\n			if err := validateChainNodes(diff); err != nil {\n				return err\n			}\n\n			config.ChainNodes = diff","			config.ChainNodes = append(config.ChainNodes, diff...)\n			if err := validateChainNodes(config.ChainNodes); err != nil {\n				return err\n			}")]),
("g18-rmpeers","C18",[(CF,"			if err := validateCosignerPeers(diff, config.CosignerConfig.Shares); err != nil {\n				return err\n			}\n\n			config.CosignerConfig.Peers = diff\n			if err := writeConfigFile(path.Join(home, \"config.yaml\"), config); err != nil {\n				return err\n			}\n			return nil\n		},\n	}\n}\n\nfunc setSharesCmd","			config.CosignerConfig.Peers = diff\n			if err := writeConfigFile(path.Join(home, \"config.yaml\"), config); err != nil {\n				return err\n			}\n			return nil\n		},\n	}\n}\n\nfunc setSharesCmd")]),
# C19
("g19-half","C19",[(KS,"threshold <= shares/2 {","threshold < shares/2 {")]),
("g19-odd","C19",[(KS,"threshold <= shares/2 {","threshold <= (shares-1)/2 {")]),
("g19-cshalf","C19",[(CS,"			if cfg.CosignerThreshold <= config.CosignerConfig.Shares/2 {","			if cfg.CosignerThreshold < config.CosignerConfig.Shares/2 {")]),
("g19-total","C19",[(CS,"			if total > math.MaxUint8 {","			if total > math.MaxUint16 {")]),
("g19-own","C19",[(CS,"					cosignerConfig.ID > total || cosignerConfig.ID == key.ID {","					cosignerConfig.ID > total {")]),
("g19-ksmax","C19",[(KS,"	if shares < 1 || shares > math.MaxUint8 {","	if shares < 1 || shares > math.MaxUint8+1 {")]),
("g19-keyid","C19",[(CS,"			if key.ID < 1 || key.ID > total {","			if key.ID < 1 || key.ID > len(key.CosignerKeys) {")]),
("g19-thr","C19",[(CS,"				Threshold:   uint8(cfg.CosignerThreshold),","				Threshold:   uint8(cfg.CosignerThreshold - 1),")]),
# C20
("g20-idxid","C20",[(KS,"			ID:           idx + 1,","			ID:           len(out),")]),
("g20-rsa","C20",[(KS,"			RSAKey:       *rsaKeys[idx],","			RSAKey:       *rsaKeys[len(rsaKeys)-1-idx],")]),
("g20-file","C20",[(K2,"fmt.Sprintf(\"private_share_%d.json\", c.ID)","fmt.Sprintf(\"private_share_%d.json\", c.ID%10)")]),
("g20-lookup","C20",[(CS,"				pubKey := key.CosignerKeys[cosignerConfig.ID-1]\n","				pubKey := key.CosignerKeys[len(peers)-1]\n")]),
("g20-order","C20",[(CK,"		cosignerKey.CosignerKeys = append(cosignerKey.CosignerKeys, cosignerRsaPubkey)","		cosignerKey.CosignerKeys = append([]*rsa.PublicKey{cosignerRsaPubkey}, cosignerKey.CosignerKeys...)")]),
("g20-amino","C20",[(CK,"		if errInner != nil {\n			return err\n		}\n		pubkey = pub","		if errInner == nil {\n			pubkey = pub\n		}")]),
("g20-skipnil","C20",[(CK,"		publicBytes := x509.MarshalPKCS1PublicKey(pubKey)\n","		if pubKey.Equal(&cosignerKey.RSAKey.PublicKey) {\n			continue\n		}\n		publicBytes := x509.MarshalPKCS1PublicKey(pubKey)\n")]),
("g20-genkeys","C20",[(KS,"		pubKeys[i] = &rsaKey.PublicKey","		pubKeys[num-1-i] = &rsaKey.PublicKey")]),
("g20-writeerr","C20",[(K2,"				if err = signer.WriteCosignerShareFile(c, fmt.Sprintf(\"private_share_%d.json\", c.ID)); err != nil {\n					return err\n				}","				if err := signer.WriteCosignerShareFile(c, fmt.Sprintf(\"private_share_%d.json\", c.ID)); err != nil {\n					fmt.Println(err)\n				}")]),
# C21
("g21-bg","C21",[(RC,"	return context.WithTimeout(context.Background(), rpcTimeout)","	return context.WithCancel(context.Background())")]),
("g21-leakdial","C21",[(RC,"	conn, err := grpc.Dial(grpcAddress, grpc.WithTransportCredentials(insecure.NewCredentials()))","	conn, err := grpc.Dial(grpcAddress, grpc.WithBlock(), grpc.WithTransportCredentials(insecure.NewCredentials()))")]),
("g21-leader","C21",[(RE,"	for i := 0; i < 30; i++ {\n","	for {\n"),(RE,"	if leader == \"\" {\n		return nil, nil, errors.New(\"timed out waiting for leader election to complete\")\n	}\n","")]),
("g21-sameloop","C21",[(TV,"			for i := 0; i < 100; i++ {","			for i := 0; i < 100; {")]),
("g21-timeoutret","C21",[(TV,"	case <-time.After(timeout):\n		return true // timed out","	case <-time.After(timeout):\n		<-c\n		return true // timed out")]),
("g21-closeok","C21",[(RE,"	defer conn.Close()\n	context","	context"),(RE,"	return &CosignerSignBlockResponse{\n		Signature: res.GetSignature(),\n	}, nil","	conn.Close()\n	return &CosignerSignBlockResponse{\n		Signature: res.GetSignature(),\n	}, nil")]),
("g21-elect","C21",[(LE,"		context, cancelFunc := context.WithTimeout(context.Background(), 30*time.Second)","		context, cancelFunc := context.WithCancel(context.Background())"),(LE,"		serviceConfig :=","		_ = time.Second\n		serviceConfig :=")]),
("g21-emitwait","C21",[(RS,"	f := s.raft.Apply(b, s.RaftTimeout)\n	return f.Error()\n}\n\n// Delete","	for s.raft.State() == raft.Leader {\n		if err = s.raft.Apply(b, s.RaftTimeout).Error(); err == nil {\n			return nil\n		}\n	}\n	return err\n}\n\n// Delete")]),
# C22
("g22-early","C22",[(TV,"	thresholdPeersMutex.Lock()\n	if len(*encryptedEphemeralSharesThresholdMap) < pv.threshold-1 {\n","	thresholdPeersMutex.Lock()\n	if ephemeralSecretParts == nil {\n		return\n	}\n	if len(*encryptedEphemeralSharesThresholdMap) < pv.threshold-1 {\n")]),
("g22-relock","C22",[(LC,"	res := CosignerSignResponse{}\n	lss := cosigner.lastSignState\n","	res := CosignerSignResponse{}\n	lss := cosigner.lastSignState\n	if err := lss.GetErrorIfLessOrEqual(0, 0, 0, &cosigner.lastSignStateMutex); err == nil {\n		return res, nil\n	}\n")]),
("g22-order","C22",[(TV,"	return pv.lastSignStateInitiated.Save(signState, &pv.lastSignStateInitiatedMutex)","	pv.lastSignStateMutex.Lock()\n	defer pv.lastSignStateMutex.Unlock()\n	return pv.lastSignStateInitiated.Save(signState, &pv.lastSignStateInitiatedMutex)"),(TV,"	pv.lastSignStateInitiatedMutex.Lock()\n	defer pv.lastSignStateInitiatedMutex.Unlock()\n	return &BeyondBlockError{","	pv.lastSignStateInitiatedMutex.Lock()\n	defer pv.lastSignStateInitiatedMutex.Unlock()\n	pv.lastSignStateMutex.Lock()\n	defer pv.lastSignStateMutex.Unlock()\n	return &BeyondBlockError{")]),
("g22-held","C22",[(TV,"	sigRes, err := peer.SetEphemeralSecretPartsAndSign(","	shareSignaturesMutex.Lock()\n	defer shareSignaturesMutex.Unlock()\n	sigRes, err := peer.SetEphemeralSecretPartsAndSign("),(TV,"	shareSignaturesMutex.Lock()\n	defer shareSignaturesMutex.Unlock()\n\n	peerIdx","	peerIdx")]),
("g22-emitheld","C22",[(TV,"	err = pv.raftStore.Emit(raftEventLSS, newLss)\n","	pv.lastSignStateMutex.Lock()\n	err = pv.raftStore.Emit(raftEventLSS, newLss)\n	pv.lastSignStateMutex.Unlock()\n")]),
("g22-double","C22",[(RS,"	f.mu.Lock()\n	defer f.mu.Unlock()\n	delete(f.m, key)","	f.mu.Lock()\n	defer f.mu.Unlock()\n	if _, ok := f.m[key]; !ok {\n		f.mu.Unlock()\n		return nil\n	}\n	delete(f.m, key)")]),
# C23
("g23-nilblock","C23",[(GS,"		Height:    req.Block.GetHeight(),","		Height:    req.Block.Height,")]),
("g23-part","C23",[(GS,"		HRST:             HRSTKeyFromProto(req.GetHrst()),","		HRST:             HRSTKeyFromProto(&proto.HRST{Height: req.Hrst.Height, Round: req.Hrst.Round, Step: req.Hrst.Step, Timestamp: req.Hrst.Timestamp}),")]),
("g23-nilsecret","C23",[(LC,"		peer, ok := cosigner.peers[req.SourceID]\n\n		if !ok {\n			return fmt.Errorf(\"unknown cosigner: %d\", req.SourceID)\n		}\n","		peer := cosigner.peers[req.SourceID]\n")]),
("g23-assert","C23",[(TV,"		if err := existingSignature.OnlyDifferByTimestamp(signBytes); err != nil {\n			return nil, stamp, err","		if err := existingSignature.OnlyDifferByTimestamp(signBytes); err != nil {\n			pv.logger.Error(err.(*ConflictingDataError).msg)\n			return nil, stamp, err")]),
("g23-vote","C23",[(SR,"	if vote == nil || (vote.Type","	if (vote != nil) && (vote.Type")]),
("g23-fatal","C23",[(LC,"		return res, errors.New(\"unknown peer ID\")","		panic(\"unknown peer ID\")")]),
("g23-sliceop","C23",[(TV,"				if len(rpcErrUnwrapped) > 33 && rpcErrUnwrapped[:33]","				if rpcErrUnwrapped[:33]")]),
("g23-scalar","C23",[(LC,"		if len(ephemeralShare) != 32 {\n			return res, errors.New(\"ephemeral share is out of bounds\")\n		}\n","		if len(ephemeralShare) != 32 {\n			panic(\"ephemeral share is out of bounds\")\n		}\n")]),
# C24
("g24-nosleep","C24",[(SR,"				rs.Logger.Error(\"Secret Conn\", \"err\", err)\n				rs.Logger.Info(\"Retrying\", \"sleep (s)\", 3, \"address\", rs.address)\n				time.Sleep(time.Second * 3)\n","				rs.Logger.Error(\"Secret Conn\", \"err\", err)\n")]),
("g24-return","C24",[(SR,"			rs.Logger.Error(\"writeMsg\", \"err\", err)\n			conn.Close()\n			conn = nil\n","			rs.Logger.Error(\"writeMsg\", \"err\", err)\n			conn.Close()\n			return\n")]),
("g24-noclose","C24",[(SR,"		if !rs.IsRunning() {\n			if err := conn.Close(); err != nil {\n				rs.Logger.Error(\"Close\", \"err\", err.Error()+\"closing listener failed\")\n			}\n			return\n		}\n\n		req","		if !rs.IsRunning() {\n			return\n		}\n\n		req")]),
("g24-stale","C24",[(SR,"			rs.Logger.Error(\"readMsg\", \"err\", err)\n			conn.Close()\n			conn = nil\n			continue","			rs.Logger.Error(\"readMsg\", \"err\", err)\n			conn.Close()\n			continue")]),
("g24-eof","C24",[(SR,"			rs.Logger.Error(\"readMsg\", \"err\", err)\n			conn.Close()\n			conn = nil\n			continue","			rs.Logger.Error(\"readMsg\", \"err\", err)\n			if netErr, ok := err.(net.Error); ok && netErr.Timeout() {\n				continue\n			}\n			conn.Close()\n			conn = nil\n			continue")]),
("g24-typednil","C24",[(SR,"				conn = nil\n				netConn.Close()\n","				netConn.Close()\n")]),
# C25
("g25-order","C25",[(CS,"			raftStore.SetThresholdValidator(val.(*signer.ThresholdValidator))\n\n			// Start RAFT store listener, now that everything it serves is in place\n			if err := raftStore.Start(); err != nil {\n				log.Fatalf(\"Error starting raft store: %v\\n\", err)\n			}\n","			// Start RAFT store listener, now that everything it serves is in place\n			if err := raftStore.Start(); err != nil {\n				log.Fatalf(\"Error starting raft store: %v\\n\", err)\n			}\n			raftStore.SetThresholdValidator(val.(*signer.ThresholdValidator))\n")]),
("g25-stop","C25",[(SV,"		for _, service := range services {\n			err := service.Stop()\n			if err != nil {\n				panic(err)\n			}\n		}\n","		for i := len(services) - 1; i > 0; i-- {\n			err := services[i].Stop()\n			if err != nil {\n				panic(err)\n			}\n		}\n")]),
("g25-err","C25",[(CS,"				log.Fatalf(\"Error starting raft store: %v\\n\", err)","				logger.Error(\"Error starting raft store\", \"err\", err)")]),
("g25-signers","C25",[(SR,"		err = s.Start()\n		if err != nil {\n			return nil, err\n		}\n","		err = s.Start()\n		if err != nil {\n			continue\n		}\n")]),
("g25-appendlost","C25",[(CS,"			services = append(services, raftStore)\n","			_ = append(services, raftStore)\n")]),
("g25-nilpeers","C25",[(CS,"				raftDir, cfg.ListenAddress, timeout, logger, localCosigner, cosigners)","				raftDir, cfg.ListenAddress, timeout, logger, localCosigner, nil)")]),
("g25-initerr","C25",[(RS,"		err := s.init()\n		if err != nil {\n			panic(err)\n		}","		err := s.init()\n		if err != nil {\n			s.logger.Error(\"raft\", \"err\", err)\n		}")]),
("g25-nocosigner","C25",[(RS,"		cosigner:           s.cosigner,\n		thresholdValidator: s.thresholdValidator,\n","		cosigner: s.cosigner,\n")]),
# C26
("g26-skipshare","C26",[(ST,"			if err := share.Save(signState, nil); err != nil {\n				return fmt.Errorf(\"share sign state: %w\", err)\n			}","			if share.Height < height {\n				if err := share.Save(signState, nil); err != nil {\n					return fmt.Errorf(\"share sign state: %w\", err)\n				}\n			}")]),
("g26-cosonly","C26",[(ST,"			if err := pv.Save(signState, nil); err != nil {\n				return fmt.Errorf(\"priv validator state: %w\", err)\n			}","			if err := pv.Save(signState, nil); err != nil {\n				fmt.Println(fmt.Errorf(\"priv validator state: %w\", err))\n			}")]),
("g26-reset","C26",[(ST,"			pv.EphemeralPublic, share.EphemeralPublic = nil, nil\n","			pv.EphemeralPublic, share.EphemeralPublic = nil, nil\n			pv.Round, share.Round = 0, 0\n			pv.Step, share.Step = -1, -1\n")]),
("g26-running","C26",[(ST,"	bz, _ := exec.Command(\"bash\", \"-c\", pipe).Output()","	bz, err := exec.Command(\"bash\", \"-c\", pipe).Output()\n	if err != nil {\n		return false\n	}")]),
("g26-show","C26",[(ST,"			pv, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			filepath = path.Join(stateDir, config.ChainID+\"_share_sign_state.json\")\n			share, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			fmt","			pv, err := signer.LoadOrCreateSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			filepath = path.Join(stateDir, config.ChainID+\"_share_sign_state.json\")\n			share, err := signer.LoadSignState(filepath)\n			if err != nil {\n				return err\n			}\n\n			fmt")]),
("g26-bits","C26",[(ST,"			height, err := strconv.ParseInt(args[0], 10, 64)\n			if err != nil {\n				return err\n			}","			height, err := strconv.ParseInt(args[0], 10, 64)\n			if err != nil && height == 0 {\n				return err\n			}")]),
("g26-first","C26",[(ST,"		if pid != strconv.Itoa(os.Getpid()) {\n			return true\n		}","		return pid != strconv.Itoa(os.Getpid())")]),
# C27
("g27-nostat","C27",[(CF,"!os.IsNotExist(err) {\n					return fmt.Errorf(\"cannot move the sign state, %s already exists\", shareNewPath)\n				}","err != nil && !os.IsNotExist(err) {\n					return fmt.Errorf(\"cannot move the sign state, %s already exists\", shareNewPath)\n				}")]),
("g27-skipmissing","C27",[(CF,"			if err = os.Rename(pvOldPath, pvNewPath); err != nil {\n				return err\n			}","			if err = os.Rename(pvOldPath, pvNewPath); err != nil && !os.IsNotExist(err) {\n				return err\n			}")]),
("g27-noback","C27",[(CF,"				if isCosigner {\n					err = moveBack(err, shareNewPath, shareOldPath)\n				}\n				return moveBack(err, pvNewPath, pvOldPath)","				return moveBack(err, pvNewPath, pvOldPath)")]),
("g27-backswap","C27",[(CF,"	if undoErr := os.Rename(newPath, oldPath); undoErr != nil {","	if undoErr := os.Rename(oldPath, newPath); undoErr != nil {")]),
("g27-writefirst","C27",[(CF,"			if err = os.Rename(pvOldPath, pvNewPath); err != nil {\n				return err\n			}","			oldChainID := config.ChainID\n			config.ChainID = args[0]\n			if err = writeConfigFile(path.Join(home, \"config.yaml\"), config); err != nil {\n				return err\n			}\n			config.ChainID = oldChainID\n			if err = os.Rename(pvOldPath, pvNewPath); err != nil {\n				return err\n			}")]),
("g27-name","C27",[(SI,"fmt.Sprintf(\"%s_priv_validator_state.json\", chainID)","fmt.Sprintf(\"%s-priv_validator_state.json\", chainID)")]),
("g27-trim","C27",[(CF,"			pvNewPath := path.Join(stateDir, args[0]+","			pvNewPath := path.Join(stateDir, strings.TrimSpace(args[0])+")]),
("g27-copymem","C27",[(CF,"				return moveBack(err, pvNewPath, pvOldPath)\n			}\n			return nil","				config.ChainID = \"\"\n				return moveBack(err, pvNewPath, pvOldPath)\n			}\n			return nil")]),
# C28
("g28-small","C28",[(KS,"		bitSize := 4096","		bitSize := 1024 + 1023*(i%2)")]),
("g28-short","C28",[(LC,"	secret := make([]byte, 32)\n	if _, err := rand.Read(secret); err != nil {","	secret := make([]byte, 32)\n	if n, err := rand.Reader.Read(secret); err != nil && n == 0 {")]),
("g28-rsaerr","C28",[(KS,"		if err != nil {\n			return rsaKeys, pubKeys, err\n		}\n		rsaKeys[i]","		if err != nil {\n			break\n		}\n		rsaKeys[i]")]),
("g28-derive","C28",[(LC,"	secret := make([]byte, 32)\n	if _, err := rand.Read(secret); err != nil {\n		return HrsMetadata{}, err\n	}","	seed := sha256.Sum256(append([]byte(fmt.Sprint(hrsKey)), cosigner.key.ShareKey...))\n	secret := seed[:]\n	if _, err := rand.Read(make([]byte, 1)); err != nil {\n		return HrsMetadata{}, err\n	}")]),
# C29
("g29-idx","C29",[(TV,"		sigIds = append(sigIds, idx+1)","		sigIds = append(sigIds, len(sigIds)+1)")]),
("g29-fewer","C29",[(TV,"	if len(sigIds) < pv.threshold {","	if len(sigIds) < pv.threshold-1 {")]),
("g29-firstpub","C29",[(TV,"	if peerID == ourID {","	if peerID == ourID || len(*ephemeralPublic) == 0 {")]),
("g29-anysource","C29",[(TV,"					if thresholdPeer.GetID() == ephemeralSecretPart.SourceID {","					if thresholdPeer.GetID() != peer.GetID() {")]),
("g29-dest","C29",[(TV,"			if ephemeralSecretPart.DestinationID == peer.GetID() {","			if ephemeralSecretPart.DestinationID == peer.GetID() || len(pv.peers) == 1 {")]),
("g29-nilshare","C29",[(TV,"		if len(shareSig) == 0 {\n			continue\n		}\n","		if shareSig == nil {\n			continue\n		}\n")]),
]
