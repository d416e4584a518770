R="signer/remote_signer.go"; S="signer/Serialization.go"; G="signer/PvGuard.go"; CC="cmd/horcrux/cmd/cosigner.go"; CS="cmd/horcrux/cmd/signer.go"
M=[
("c15-errsig","C15",[(R,"		msgSum.SignedVoteResponse.Error = getRemoteSignerError(err)\n		return tmProtoPrivval.Message{Sum: msgSum}\n	}\n	rs.Logger.Info(\"Signed vote\"","		msgSum.SignedVoteResponse.Vote = *vote\n		msgSum.SignedVoteResponse.Error = getRemoteSignerError(err)\n		return tmProtoPrivval.Message{Sum: msgSum}\n	}\n	rs.Logger.Info(\"Signed vote\"")]),
("c15-copyfirst","C15",[(R,"	if err := rs.privVal.SignVote(rs.chainID, vote); err != nil {","	signed := *vote\n	if err := rs.privVal.SignVote(rs.chainID, vote); err != nil {"),(R,"	msgSum.SignedVoteResponse.Vote = *vote","	msgSum.SignedVoteResponse.Vote = signed")]),
("c15-noerr","C15",[(R,"		msgSum.SignedProposalResponse.Error = getRemoteSignerError(err)\n		return tmProtoPrivval.Message{Sum: msgSum}\n	}\n	rs.Logger.Info(\"Signed proposal\"","		if _, ok := err.(*BeyondBlockError); !ok {\n			msgSum.SignedProposalResponse.Error = getRemoteSignerError(err)\n		}\n		return tmProtoPrivval.Message{Sum: msgSum}\n	}\n	rs.Logger.Info(\"Signed proposal\"")]),
("c15-kind","C15",[(R,"		return rs.handlePingRequest()\n","		return tmProtoPrivval.Message{}\n")]),
("c15-close","C15",[(R,"		err = WriteMsg(conn, res)\n		if err != nil {","		if res.Sum == nil {\n			conn.Close()\n			conn = nil\n			continue\n		}\n		err = WriteMsg(conn, res)\n		if err != nil {")]),
("c15-noanswer","C15",[(R,"		err = WriteMsg(conn, res)\n		if err != nil {","		if res.Sum == nil {\n			continue\n		}\n		err = WriteMsg(conn, res)\n		if err != nil {")]),
("c15-pubkey","C15",[(R,"		msgSum.PubKeyResponse.Error = getRemoteSignerError(err)\n		return tmProtoPrivval.Message{Sum: msgSum}\n	}\n	msgSum","	}\n	msgSum")]),
("c15-chain","C15",[(R,"rs.privVal.SignProposal(rs.chainID, proposal)","rs.privVal.SignProposal(rs.address, proposal)")]),
("c15-chaincfg","C15",[(CS,"logger, cfg.ChainID, pv","logger, cfg.Mode, pv")]),
("c15-goroutine","C15",[(R,"		err = WriteMsg(conn, res)\n		if err != nil {","		go func(c net.Conn) {\n			_ = WriteMsg(c, res)\n		}(conn)\n		if err != nil {")]),
("c15-cache","C15",[(R,"	privKey tmCryptoEd2219.PrivKey\n","	privKey tmCryptoEd2219.PrivKey\n	pubKey *tmProtoPrivval.Message\n"),(R,"	pk, err := tmCryptoEncoding","	if rs.pubKey != nil {\n		return *rs.pubKey\n	}\n	pk, err := tmCryptoEncoding")]),
("c15-generic","C15",[(R,"		Description: err.Error(),","		Description: \"failed\",")]),
("c15-emptyerr","C15",[(R,"	if err == nil {\n		return nil\n	}\n	return &tmProtoPrivval","	if err == nil || err.Error() == \"\" {\n		return nil\n	}\n	return &tmProtoPrivval")]),
("c15-swallow","C15",[(R,"	msgSum := &tmProtoPrivval.Message_SignedVoteResponse{","	if vote.GetHeight() == 0 {\n		return tmProtoPrivval.Message{}\n	}\n	msgSum := &tmProtoPrivval.Message_SignedVoteResponse{")]),
("c15-last","C15",[(R,"	dialer net.Dialer\n}","	dialer net.Dialer\n	last tmProtoPrivval.Message\n}"),(R,"		res := rs.handleRequest(req)\n","		res := rs.handleRequest(req)\n		if res.Sum == nil {\n			res = rs.last\n		}\n		rs.last = res\n")]),
("c15-keep-defer","=C15",[(R,"	msgSum.SignedVoteResponse.Vote = *vote\n	return tmProtoPrivval.Message{Sum: msgSum}","	return tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignedVoteResponse{SignedVoteResponse: &tmProtoPrivval.SignedVoteResponse{Vote: *vote}}}")]),
("c15-keep-helper","=C15",[(R,"		msgSum.SignedVoteResponse.Error = getRemoteSignerError(err)\n		return tmProtoPrivval.Message{Sum: msgSum}\n	}\n	rs.Logger.Info(\"Signed vote\"","		return failVote(err)\n	}\n	rs.Logger.Info(\"Signed vote\""),(R,"func getRemoteSignerError","func failVote(err error) tmProtoPrivval.Message {\n	return tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_SignedVoteResponse{SignedVoteResponse: &tmProtoPrivval.SignedVoteResponse{\n		Error: getRemoteSignerError(err)}}}\n}\n\nfunc getRemoteSignerError")]),
("c15-keep-ifs","=C15",[(R,"	switch typedReq := req.Sum.(type) {\n	case *tmProtoPrivval.Message_SignVoteRequest:\n		return rs.handleSignVoteRequest(typedReq.SignVoteRequest.Vote)\n","	if v, ok := req.Sum.(*tmProtoPrivval.Message_SignVoteRequest); ok {\n		return rs.handleSignVoteRequest(v.SignVoteRequest.Vote)\n	}\n	switch typedReq := req.Sum.(type) {\n")]),
("c15-keep-write","=C15",[(R,"		res := rs.handleRequest(req)\n\n		err = WriteMsg(conn, res)\n","		if res := rs.handleRequest(req); true {\n			err = WriteMsg(conn, res)\n		}\n")]),
("c16-nolock","C16",[(G,"func (pv *PvGuard) GetPubKey() (crypto.PubKey, error) {\n	pv.pvMutex.Lock()\n	defer pv.pvMutex.Unlock()\n","func (pv *PvGuard) GetPubKey() (crypto.PubKey, error) {\n")]),
("c16-earlyunlock","C16",[(G,"	defer pv.pvMutex.Unlock()\n	return pv.PrivValidator.SignVote","	pv.pvMutex.Unlock()\n	return pv.PrivValidator.SignVote")]),
("c16-two","C16",[(G,"	pvMutex       sync.Mutex\n","	pvMutex       sync.Mutex\n	propMutex       sync.Mutex\n"),(G,"	pv.pvMutex.Lock()\n	defer pv.pvMutex.Unlock()\n	return pv.PrivValidator.SignProposal","	pv.propMutex.Lock()\n	defer pv.propMutex.Unlock()\n	return pv.PrivValidator.SignProposal")]),
("c16-rw","C16",[(G,"	pvMutex       sync.Mutex\n","	pvMutex       sync.RWMutex\n"),(G,"	pv.pvMutex.Lock()\n	defer pv.pvMutex.Unlock()\n	return pv.PrivValidator.SignVote","	pv.pvMutex.RLock()\n	defer pv.pvMutex.RUnlock()\n	return pv.PrivValidator.SignVote")]),
("c16-copy","C16",[(G,"func (pv *PvGuard) SignVote(","func (pv PvGuard) SignVote(")]),
("c16-perloop","C16",[(R,"		s := NewReconnRemoteSigner(node.Address, logger, chainID, privVal, dialer)","		s := NewReconnRemoteSigner(node.Address, logger, chainID, &PvGuard{PrivValidator: privVal}, dialer)")]),
("c16-unguarded","C16",[(CS,"logger, cfg.ChainID, pv, cfg","logger, cfg.ChainID, val, cfg")]),
("c16-copyvote","C16",[(G,"	return pv.PrivValidator.SignVote(chainID, vote)","	v := *vote\n	if err := pv.PrivValidator.SignVote(chainID, &v); err != nil {\n		return err\n	}\n	vote.Signature = v.Signature\n	return nil")]),
("c16-retry","C16",[(G,"	return pv.PrivValidator.SignVote(chainID, vote)","	if err := pv.PrivValidator.SignVote(chainID, vote); err == nil {\n		return nil\n	}\n	return pv.PrivValidator.SignVote(chainID, vote)")]),
("c16-keep-var","=C16",[(G,"	defer pv.pvMutex.Unlock()\n	return pv.PrivValidator.SignVote(chainID, vote)","	err := pv.PrivValidator.SignVote(chainID, vote)\n	pv.pvMutex.Unlock()\n	return err")]),
("c16-keep-do","=C16",[(G,"	pv.pvMutex.Lock()\n	defer pv.pvMutex.Unlock()\n	return pv.PrivValidator.SignVote(chainID, vote)","	return pv.guarded(func() error { return pv.PrivValidator.SignVote(chainID, vote) })"),(G,"// GetPubKey impl","func (pv *PvGuard) guarded(f func() error) error {\n	pv.pvMutex.Lock()\n	defer pv.pvMutex.Unlock()\n	return f()\n}\n\n// GetPubKey impl")]),
("c16-keep-outside","=C16,C15",[(CC,"			pv = &signer.PvGuard{PrivValidator: val}\n","			guard := new(signer.PvGuard)\n			guard.PrivValidator = val\n			pv = guard\n"),(R,"	var err error\n	for _, node := range nodes {","	var err error\n	for i := range nodes {\n		node := nodes[i]")]),
("c16-keep-new","=C16,C15",[(R,"	rs := &ReconnRemoteSigner{\n		address: address,\n		chainID: chainID,\n		privVal: privVal,\n","	rs := &ReconnRemoteSigner{}\n	rs.address, rs.chainID, rs.privVal = address, chainID, privVal\n	*rs = ReconnRemoteSigner{\n		address: address, chainID: chainID, privVal: rs.privVal,\n")]),
]
