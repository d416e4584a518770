L="signer/local_cosigner.go"; T="signer/threshold_validator.go"; RS="signer/remote_signer.go"; SS="signer/sign_state.go"; SE="signer/Serialization.go"; RE="signer/raft_events.go"; R="signer/raft_store.go"; G="signer/grpc_server.go"; RC="signer/remote_cosigner.go"; CO="signer/Cosigner.go"
BV="""	// building the sign bytes of a malformed block ID panics
	if _, err := tm.BlockIDFromProto(&vote.BlockID); err != nil {
		rs.Logger.Error("Failed to sign vote", "address", rs.address, "error", err)
		msgSum.SignedVoteResponse.Error = getRemoteSignerError(err)
		return tmProtoPrivval.Message{Sum: msgSum}
	}
"""
BP=BV.replace("&vote.","&proposal.").replace("sign vote","sign proposal").replace("SignedVote","SignedProposal")
M=[
("c23-nilvote","C23",[(RS,"vote == nil || (vote.Type","(vote.Type"),(RS,"!= tmProto.PrecommitType) {","!= tmProto.PrecommitType) {")]),
("c23-nilprop","C23",[(RS,"	if proposal == nil {","	if proposal == nil && rs.privVal == nil {")]),
("c23-votetype","C23",[(RS,"vote == nil || (vote.Type != tmProto.PrevoteType && vote.Type != tmProto.PrecommitType)","vote == nil"),(T,"vote.Type != tmProto.PrevoteType","vote.Height < 0 && vote.Type != tmProto.PrevoteType")]),
("c23-votetype2","C23",[(RS,"vote == nil || (vote.Type != tmProto.PrevoteType && vote.Type != tmProto.PrecommitType)","vote == nil || vote.Type > tmProto.ProposalType")]),
("c23-hrst","C23",[(SE,"			if vote.Type != tmProto.PrevoteType && vote.Type != tmProto.PrecommitType {\n				return HRSTKey{0, 0, 0, 0}, fmt.Errorf(\"unknown vote type: %v\", vote.Type)\n			}\n",""),(SE,'	"fmt"\n','')]),
("c23-bid","C23",[(RS,BV,"")]),
("c23-bidp","C23",[(RS,BP,"")]),
("c23-bidlate","C23",[(RS,"	if _, err := tm.BlockIDFromProto(&vote.BlockID); err != nil {","	if _, err := tm.BlockIDFromProto(&vote.BlockID); err != nil && len(vote.BlockID.Hash) > 0 {")]),
("c23-rpcerr","C23",[(T,"if _, ok := err.(*rpcTypes.RPCError); ok {","{")]),
("c23-rpcslice","C23",[(T,"len(rpcErrUnwrapped) > 33 && rpc","rpc")]),
("c23-rpcslice32","C23",[(T,"len(rpcErrUnwrapped) > 33 && rpc","len(rpcErrUnwrapped) > 31 && rpc")]),
("c23-unknownsrc","C23",[(L,"			return fmt.Errorf(\"unknown cosigner: %d\", req.SourceID)","			_ = fmt.Errorf(\"unknown cosigner: %d\", req.SourceID)")]),
("c23-unknownpeer","C23",[(L,"	if !ok {\n		return res, errors.New(\"unknown peer ID\")\n	}\n","	_ = ok\n"),(T,"func waitUntil","// GetPart gives one part.\nfunc GetPart(c *LocalCosigner, id int) (CosignerEphemeralSecretPart, error) {\n	return c.getEphemeralSecretPart(CosignerGetEphemeralSecretPartRequest{ID: id})\n}\n\nfunc waitUntil"),(L,"peer.ID == cosigner.GetID() {\n			continue","peer.ID == cosigner.GetID() {\n			_, _ = cosigner.getEphemeralSecretPart(CosignerGetEphemeralSecretPartRequest{ID: int(hrst.Round)})\n			continue")]),
("c23-handler","C23",[(RE,"	return map[string]func(string){\n		raftEventLSS: f.handleLSSEvent,\n	}[key]","	return map[string]func(string){\n		raftEventLSS: f.handleLSSEvent,\n	}[key]"),(R,"	if eventHandler != nil {\n		eventHandler(value)\n	}","	eventHandler(value)")]),
("c23-lsspanic","C23",[(RE,'		f.logger.Error("LSS Unmarshal Error", err.Error())\n		return','		panic(err)')]),
("c23-applypanic","C23",[(R,'		f.logger.Error("unrecognized command op", c.Op)\n		return nil','		panic("unrecognized command op: " + c.Op)')]),
("c23-fatal","C23",[(R,'		f.logger.Error("failed to unmarshal command", err.Error())\n		return nil','		f.logger.Error("failed to unmarshal command", err.Error())\n		os.Exit(1)\n		return nil')]),
("c23-hrstnil","C23",[("signer/Cosigner.go","hrs.GetHeight()","hrs.Height") if False else (SE,"package signer","package signer"),("signer/Cosigner.go","		Height:    hrs.GetHeight(),","		Height:    hrs.Height,")]),
("c23-blocknil","C23",[(G,"req.Block.GetHeight()","req.Block.Height")]),
("c23-resnil","C23",[(T,"	if err != nil {\n		pv.logger.Error(\"Error getting secret parts\", \"peer\", peer.GetID(), \"err\", err)\n		return\n	}","	if err != nil {\n		pv.logger.Error(\"Error getting secret parts\", \"peer\", peer.GetID(), \"err\", err)\n	}")]),
("c23-sigresnil","C23",[(T,"		pv.logger.Error(\"Sign error\", err.Error())\n		return\n","		pv.logger.Error(\"Sign error\", err.Error())\n")]),
("c23-leadernil","C23",[(T,"			return nil, stamp, err\n		}\n		return signRes.Signature","			if len(signBytes) > 0 {\n				return nil, stamp, err\n			}\n		}\n		return signRes.Signature")]),
("c23-peeridx","C23",[(T,"	peerIdx := peerID - 1","	peerIdx := peerID")]),
("c23-srcidx","C23",[(L,"	meta.Peers[req.SourceID-1].Share = sharePart","	meta.Peers[req.SourceID].Share = sharePart")]),
("c23-votebid","C23",[(SS,"!bytes.Equal(lastVoteBlockID.GetHash(), newVoteBlockID.GetHash())","!bytes.Equal(lastVoteBlockID.Hash, newVoteBlockID.Hash)")]),
("c23-exact","C23",[(T,"			rpcErrUnwrapped := err.(*rpcTypes.RPCError).Data","			rpcErrUnwrapped := err.(*rpcTypes.RPCError).Data\n				_ = err.(*BeyondBlockError)")]),
("c23-errnil","C23",[(RS,"	if err == nil {\n		return nil\n	}\n	return &tmProtoPrivval.RemoteSignerError","	return &tmProtoPrivval.RemoteSignerError"),(RS,"	msgSum.SignedVoteResponse.Vote = *vote","	msgSum.SignedVoteResponse.Error = getRemoteSignerError(nil)\n	msgSum.SignedVoteResponse.Vote = *vote")]),
("c23-existing","C23",[(T,"	if existingSignature != nil {\n","	if existingSignature != nil || latestBlock == hrs {\n")]),
("c23-first","C23",[(L,"	for _, secretPart := range req.EncryptedSecrets {","	_ = req.EncryptedSecrets[0]\n	for _, secretPart := range req.EncryptedSecrets {")]),
# behaviour-preserving
("c23-k-helper","=C23",[(RS,"	if vote == nil || (vote.Type != tmProto.PrevoteType && vote.Type != tmProto.PrecommitType) {\n		err := errors.New(\"sign vote request without a prevote or precommit\")","	if err := checkVote(vote); err != nil {"),(RS,"func getRemoteSignerError","func checkVote(vote *tmProto.Vote) error {\n	if vote == nil {\n		return errors.New(\"no vote\")\n	}\n	switch vote.Type {\n	case tmProto.PrevoteType, tmProto.PrecommitType:\n		return nil\n	default:\n		return errors.New(\"sign vote request without a prevote or precommit\")\n	}\n}\n\nfunc getRemoteSignerError")]),
("c23-k-bidhelper","=C23",[(RS,"	if _, err := tm.BlockIDFromProto(&vote.BlockID); err != nil {","	if err := checkBlockID(vote.BlockID); err != nil {"),(RS,"	if _, err := tm.BlockIDFromProto(&proposal.BlockID); err != nil {","	if err := checkBlockID(proposal.BlockID); err != nil {"),(RS,"func getRemoteSignerError","func checkBlockID(id tmProto.BlockID) error {\n	_, err := tm.BlockIDFromProto(&id)\n	return err\n}\n\nfunc getRemoteSignerError")]),
("c23-k-rpcerr","=C23",[(T,"if _, ok := err.(*rpcTypes.RPCError); ok {\n				rpcErrUnwrapped := err.(*rpcTypes.RPCError).Data","if rpcErr, ok := err.(*rpcTypes.RPCError); ok {\n				rpcErrUnwrapped := rpcErr.Data")]),
("c23-k-prefix","=C23",[(T,'len(rpcErrUnwrapped) > 33 && rpcErrUnwrapped[:33] == "Progress already started on block"','len(rpcErrUnwrapped) > 33 && strings.HasPrefix(rpcErrUnwrapped, "Progress already started on block")'),(T,'	"sync"\n','	"strings"\n	"sync"\n')]),
("c23-k-loop","=C23",[(L,"	for _, secretPart := range req.EncryptedSecrets {\n","	for i := 0; i < len(req.EncryptedSecrets); i++ {\n		secretPart := req.EncryptedSecrets[i]\n")]),
("c23-k-idx","=C23",[(L,"	meta.Peers[req.SourceID-1].Share = sharePart\n	meta.Peers[req.SourceID-1].EphemeralSecretPublicKey =","	idx := req.SourceID - 1\n	slot := &meta.Peers[idx]\n	slot.Share = sharePart\n	slot.EphemeralSecretPublicKey =")]),
("c23-k-verify","=C23",[(L,"	// Verify the source signature\n	{\n		if req.SourceSig == nil {","	// Verify the source signature\n	if _, known := cosigner.peers[req.SourceID]; !known {\n		return fmt.Errorf(\"unknown cosigner: %d\", req.SourceID)\n	}\n	{\n		if req.SourceSig == nil {")]),
("c23-k-handler","=C23",[(RE,"	return map[string]func(string){\n		raftEventLSS: f.handleLSSEvent,\n	}[key]","	if key == raftEventLSS {\n		return f.handleLSSEvent\n	}\n	return nil")]),
("c23-k-switch","=C23",[(RE,"	return map[string]func(string){\n		raftEventLSS: f.handleLSSEvent,\n	}[key]","	h, ok := map[string]func(string){\n		raftEventLSS: f.handleLSSEvent,\n	}[key]\n	if !ok {\n		return nil\n	}\n	return h")]),
("c23-k-savehelper","=C23",[(SS,"	jsonBytes, err := tmJson.MarshalIndent(signState, \"\", \"  \")\n	if err != nil {\n		panic(err)\n	}\n	err = tempfile.WriteFileAtomic(outFile, jsonBytes, 0600)\n	if err != nil {\n		panic(err)\n	}\n}","	if err := signState.write(outFile); err != nil {\n		panic(err)\n	}\n}\n\nfunc (signState *SignState) write(outFile string) error {\n	jsonBytes, err := tmJson.MarshalIndent(signState, \"\", \"  \")\n	if err != nil {\n		return err\n	}\n	return tempfile.WriteFileAtomic(outFile, jsonBytes, 0600)\n}")]),
("c23-k-loopback","=C23",[(T,"	for idx, shareSig := range shareSignatures {\n		if len(shareSig) == 0 {\n			continue\n		}","	for idx := range shareSignatures {\n		shareSig := shareSignatures[idx]\n		if len(shareSig) == 0 {\n			continue\n		}")]),
("c23-k-hrst","=C23",[("signer/Cosigner.go","	return HRSTKey{\n		Height:    hrs.GetHeight(),\n","	if hrs == nil {\n		return HRSTKey{}\n	}\n	return HRSTKey{\n		Height:    hrs.Height,\n")]),
]
