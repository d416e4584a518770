# behaviour-preserving refactorings of the signing path: every check has to stay quiet
TV="signer/threshold_validator.go"; LC="signer/local_cosigner.go"; SS="signer/sign_state.go"; RS="signer/raft_store.go"; RM="signer/remote_signer.go"
ALL="=C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C21,C22,C23,C29"
M=[
("k-closure",ALL,[(TV,"""	for _, peer := range pv.peers {
		go pv.waitForPeerEphemeralShares(peer, hrst, &getEphemeralWaitGroup,
			&encryptedEphemeralSharesThresholdMap, &thresholdPeersMutex)
	}
""","""	for _, peer := range pv.peers {
		peer := peer
		go func() {
			pv.waitForPeerEphemeralShares(peer, hrst, &getEphemeralWaitGroup,
				&encryptedEphemeralSharesThresholdMap, &thresholdPeersMutex)
		}()
	}
""")]),
("k-closurearg",ALL,[(TV,"""	for _, peer := range pv.peers {
		go pv.waitForPeerEphemeralShares(peer, hrst, &getEphemeralWaitGroup,
			&encryptedEphemeralSharesThresholdMap, &thresholdPeersMutex)
	}
""","""	for _, peer := range pv.peers {
		go func(p Cosigner) {
			pv.waitForPeerEphemeralShares(p, hrst, &getEphemeralWaitGroup,
				&encryptedEphemeralSharesThresholdMap, &thresholdPeersMutex)
		}(peer)
	}
""")]),
("k-combine",ALL,[(TV,"""	// collect all valid responses into array of ids and signatures for the threshold lib
	sigIds := make([]int, 0)
	shareSigs := make([][]byte, 0)
	for idx, shareSig := range shareSignatures {
		if len(shareSig) == 0 {
			continue
		}
		sigIds = append(sigIds, idx+1)

		// we are ok to use the share signatures - complete boolean
		// prevents future concurrent access
		shareSigs = append(shareSigs, shareSig)
	}
""","""	sigIds, shareSigs := collectShares(shareSignatures)
"""),(TV,"""func waitUntilCompleteOrTimeout(""","""func collectShares(shareSignatures [][]byte) (ids []int, sigs [][]byte) {
	for idx, shareSig := range shareSignatures {
		if len(shareSig) > 0 {
			ids = append(ids, idx+1)
			sigs = append(sigs, shareSig)
		}
	}
	return ids, sigs
}

func waitUntilCompleteOrTimeout(""")]),
("k-earlyunlock",ALL,[(TV,"""	shareSignaturesMutex.Lock()
	defer shareSignaturesMutex.Unlock()

	peerIdx := peerID - 1
	(*shareSignatures)[peerIdx] = make([]byte, len(sigRes.Signature))
	copy((*shareSignatures)[peerIdx], sigRes.Signature)
	if peerID == ourID {
		*ephemeralPublic = sigRes.EphemeralPublic
	}
""","""	share := append([]byte(nil), sigRes.Signature...)
	shareSignaturesMutex.Lock()
	(*shareSignatures)[peerID-1] = share
	if peerID == ourID {
		*ephemeralPublic = sigRes.EphemeralPublic
	}
	shareSignaturesMutex.Unlock()
""")]),
("k-lss",ALL,[(TV,"""	newLss := SignStateConsensus{
		Height:    height,
		Round:     round,
		Step:      step,
		Signature: signature,
		SignBytes: signBytes,
	}
""","""	newLss := NewSignStateConsensus(height, round, step)
	newLss.Signature = signature
	newLss.SignBytes = signBytes
""")]),
("k-hrs",ALL,[(TV,"""	} else if latestBlock.Height > height ||
		(latestBlock.Height == height && latestBlock.Round > round) ||
		(latestBlock.Height == height && latestBlock.Round == round && latestBlock.Step > step) {
		return""","""	} else if hrs.before(latestBlock) {
		return"""),(TV,"""func waitUntilCompleteOrTimeout(""","""func (hrs HRSKey) before(o HRSKey) bool {
	if hrs.Height != o.Height {
		return hrs.Height < o.Height
	}
	if hrs.Round != o.Round {
		return hrs.Round < o.Round
	}
	return hrs.Step < o.Step
}

func waitUntilCompleteOrTimeout(""")]),
("k-split",ALL,[(TV,"""	// assemble into final signature
	combinedSig := tsed25519.CombineShares(total, sigIds, shareSigs)

	signature := ephemeralPublic
	signature = append(signature, combinedSig...)

	// verify the combined signature before saving to watermark
	if !pv.pubkey.VerifySignature(signBytes, signature) {
		return nil, stamp, errors.New("combined signature is not valid")
	}
""","""	signature, err := pv.combine(total, sigIds, shareSigs, ephemeralPublic, signBytes)
	if err != nil {
		return nil, stamp, err
	}
"""),(TV,"""func waitUntilCompleteOrTimeout(""","""func (pv *ThresholdValidator) combine(total uint8, ids []int, shares [][]byte, r, signBytes []byte) ([]byte, error) {
	signature := append(append([]byte{}, r...), tsed25519.CombineShares(total, ids, shares)...)
	if !pv.pubkey.VerifySignature(signBytes, signature) {
		return nil, errors.New("combined signature is not valid")
	}
	return signature, nil
}

func waitUntilCompleteOrTimeout(""")]),

("k-save-cmp",ALL,[(SS,"""	if height < signState.Height {
		// lower height than current, don't allow state rollback
		return errors.New("height regression not allowed")
	}
	if height > signState.Height {
		return nil
	}
	// Height is equal

	if round < signState.Round {
		// lower round than current round for same block, don't allow state rollback
		return errors.New("round regression not allowed")
	}
	if round > signState.Round {
		return nil
	}
	// Height and Round are equal

	if step < signState.Step {
		// lower round than current round for same block, don't allow state rollback
		return errors.New("step regression not allowed")
	}
	if step == signState.Step {
		// same HRS as current
		return newSameHRSError(HRSKey{Height: height, Round: round, Step: step})
	}
	// Step is greater, so all good
	return nil
""","""	switch {
	case height != signState.Height:
		if height < signState.Height {
			return errors.New("height regression not allowed")
		}
	case round != signState.Round:
		if round < signState.Round {
			return errors.New("round regression not allowed")
		}
	case step < signState.Step:
		return errors.New("step regression not allowed")
	case step == signState.Step:
		return newSameHRSError(HRSKey{Height: height, Round: round, Step: step})
	}
	return nil
""")]),
("k-save-order",ALL,[(SS,"""	signState.Height = ssc.Height
	signState.Round = ssc.Round
	signState.Step = ssc.Step
	signState.Signature = ssc.Signature
	signState.SignBytes = ssc.SignBytes
""","""	signState.set(ssc)
"""),(SS,"""// Save persists the FilePvLastSignState to its filePath.
""","""func (signState *SignState) set(ssc SignStateConsensus) {
	signState.SignBytes = ssc.SignBytes
	signState.Signature = ssc.Signature
	signState.Step = ssc.Step
	signState.Round = ssc.Round
	signState.Height = ssc.Height
}

// Save persists the FilePvLastSignState to its filePath.
""")]),
("k-save-cache",ALL,[(SS,"""	signState.cache[HRSKey{Height: ssc.Height, Round: ssc.Round, Step: ssc.Step}] = ssc
	for hrs := range signState.cache {
		if hrs.Height < ssc.Height-blocksToCache {
			delete(signState.cache, hrs)
		}
	}

	signState.Height = ssc.Height
	signState.Round = ssc.Round
	signState.Step = ssc.Step
	signState.Signature = ssc.Signature
	signState.SignBytes = ssc.SignBytes
""","""	signState.Height = ssc.Height
	signState.Round = ssc.Round
	signState.Step = ssc.Step
	signState.Signature = ssc.Signature
	signState.SignBytes = ssc.SignBytes

	key := HRSKey{Height: ssc.Height, Round: ssc.Round, Step: ssc.Step}
	signState.cache[key] = ssc
	oldest := ssc.Height - blocksToCache
	for hrs := range signState.cache {
		if hrs.Height >= oldest {
			continue
		}
		delete(signState.cache, hrs)
	}
""")]),
("k-checkhrs",ALL,[(SS,"""	if signState.Height == hrst.Height {
		if signState.Round > hrst.Round {
			return false, fmt.Errorf("round regression at height %v. Got %v, last round %v",
				hrst.Height, hrst.Round, signState.Round)
		}

		if signState.Round == hrst.Round {
			if signState.Step > hrst.Step {
				return false, fmt.Errorf("step regression at height %v round %v. Got %v, last step %v",
					hrst.Height, hrst.Round, hrst.Step, signState.Step)
			} else if signState.Step == hrst.Step {
				if signState.SignBytes != nil {
					if signState.Signature == nil {
						panic("pv: Signature is nil but SignBytes is not!")
					}
					return true, nil
				}
				return false, errors.New("no SignBytes found")
			}
		}
	}
	return false, nil
""","""	if signState.Height < hrst.Height {
		return false, nil
	}
	if signState.Round > hrst.Round {
		return false, fmt.Errorf("round regression at height %v. Got %v, last round %v",
			hrst.Height, hrst.Round, signState.Round)
	}
	if signState.Round < hrst.Round {
		return false, nil
	}
	if signState.Step > hrst.Step {
		return false, fmt.Errorf("step regression at height %v round %v. Got %v, last step %v",
			hrst.Height, hrst.Round, hrst.Step, signState.Step)
	}
	if signState.Step < hrst.Step {
		return false, nil
	}
	if signState.SignBytes == nil {
		return false, errors.New("no SignBytes found")
	}
	if signState.Signature == nil {
		panic("pv: Signature is nil but SignBytes is not!")
	}
	return true, nil
""")]),
("k-sign-lss",ALL,[(LC,"""	res := CosignerSignResponse{}
	lss := cosigner.lastSignState

	hrst, err""","""	var res CosignerSignResponse
	hrst, err"""),(LC,"""	sameHRS, err := lss.CheckHRS(hrst)
	if err""","""	lss := cosigner.lastSignState
	sameHRS, err := lss.CheckHRS(hrst)
	if err""")]),
("k-sign-share",ALL,[(LC,"""	shareParts := make([]tsed25519.Scalar, 0)
	publicKeys := make([]tsed25519.Element, 0)

	// calculate secret and public keys
	for _, peer := range meta.Peers {
		if len(peer.Share) == 0 {
			continue
		}
		shareParts = append(shareParts, peer.Share)
		publicKeys = append(publicKeys, peer.EphemeralSecretPublicKey)
	}

	ephemeralShare := tsed25519.AddScalars(shareParts)
	ephemeralPublic := tsed25519.AddElements(publicKeys)
""","""	ephemeralShare, ephemeralPublic := meta.nonce()
"""),(LC,"""func (cosigner *LocalCosigner) dealShares(""","""func (meta HrsMetadata) nonce() (share []byte, public []byte) {
	shareParts := make([]tsed25519.Scalar, 0, len(meta.Peers))
	publicKeys := make([]tsed25519.Element, 0, len(meta.Peers))
	for i := range meta.Peers {
		peer := &meta.Peers[i]
		if len(peer.Share) != 0 {
			shareParts = append(shareParts, peer.Share)
			publicKeys = append(publicKeys, peer.EphemeralSecretPublicKey)
		}
	}
	return tsed25519.AddScalars(shareParts), tsed25519.AddElements(publicKeys)
}

func (cosigner *LocalCosigner) dealShares(""")]),
("k-sign-bounds",ALL,[(LC,"""	// check bounds for ephemeral share to avoid passing out of bounds valids to SignWithShare
	{
		if len(ephemeralShare) != 32 {
			return res, errors.New("ephemeral share is out of bounds")
		}

		var scalarBytes [32]byte
		copy(scalarBytes[:], ephemeralShare)
		if !edwards25519.ScMinimal(&scalarBytes) {
			return res, errors.New("ephemeral share is out of bounds")
		}
	}
""","""	if err := checkScalar(ephemeralShare); err != nil {
		return res, err
	}
"""),(LC,"""func (cosigner *LocalCosigner) dealShares(""","""func checkScalar(scalar []byte) error {
	var scalarBytes [32]byte
	if len(scalar) != len(scalarBytes) {
		return errors.New("ephemeral share is out of bounds")
	}
	copy(scalarBytes[:], scalar)
	if !edwards25519.ScMinimal(&scalarBytes) {
		return errors.New("ephemeral share is out of bounds")
	}
	return nil
}

func (cosigner *LocalCosigner) dealShares(""")]),
("k-sign-cleanup",ALL,[(LC,"""	for existingKey := range cosigner.hrsMeta {
		// delete any HRS lower than our signed level
		// we will not be providing parts for any lower HRS
		if existingKey.Less(hrst) {
			delete(cosigner.hrsMeta, existingKey)
		}
	}

	res.EphemeralPublic = ephemeralPublic
	res.Signature = sig
	return res, nil
}
""","""	cosigner.forgetBelow(hrst)

	return CosignerSignResponse{EphemeralPublic: ephemeralPublic, Signature: sig}, nil
}

func (cosigner *LocalCosigner) forgetBelow(hrst HRSTKey) {
	for k := range cosigner.hrsMeta {
		if k.Less(hrst) {
			delete(cosigner.hrsMeta, k)
		}
	}
}
""")]),
("k-sign-reuse",ALL,[(LC,"""	if sameHRS {
		if bytes.Equal(req.SignBytes, lss.SignBytes) {
			res.EphemeralPublic = lss.EphemeralPublic
			res.Signature = lss.Signature
			return res, nil
		} else if err := lss.OnlyDifferByTimestamp(req.SignBytes); err != nil {
			return res, err
		}

		// same HRS, and only differ by timestamp - ok to sign again
	}
""","""	if sameHRS && bytes.Equal(req.SignBytes, lss.SignBytes) {
		return CosignerSignResponse{EphemeralPublic: lss.EphemeralPublic, Signature: lss.Signature}, nil
	}
	if sameHRS {
		if err = lss.OnlyDifferByTimestamp(req.SignBytes); err != nil {
			return res, err
		}
	}
""")]),
("k-part-digest",ALL+",C10",[(LC,"""		digestMsg := CosignerEphemeralSecretPart{}
		digestMsg.SourceID = req.SourceID
		digestMsg.SourceEphemeralSecretPublicKey = req.SourceEphemeralSecretPublicKey
		digestMsg.EncryptedSharePart = req.EncryptedSharePart

		digestBytes, err := tmJson.Marshal(digestMsg)
""","""		digestBytes, err := tmJson.Marshal(CosignerEphemeralSecretPart{
			SourceID:                       req.SourceID,
			SourceEphemeralSecretPublicKey: req.SourceEphemeralSecretPublicKey,
			EncryptedSharePart:             req.EncryptedSharePart,
		})
""")]),
("k-part-verify",ALL,[(LC,"""	// Verify the source signature
	{
		if req.SourceSig == nil {
			return errors.New("SourceSig field is required")
		}

		digestMsg :=""","""	if err := cosigner.verifyPart(req); err != nil {
		return err
	}

	return cosigner.storePart(req)
}

func (cosigner *LocalCosigner) verifyPart(req CosignerSetEphemeralSecretPartRequest) error {
	// Verify the source signature
	{
		if req.SourceSig == nil {
			return errors.New("SourceSig field is required")
		}

		digestMsg :="""),(LC,"""		err = rsa.VerifyPSS(&peerPub, crypto.SHA256, digest[:], req.SourceSig, nil)
		if err != nil {
			return err
		}
	}

	// protects""","""		err = rsa.VerifyPSS(&peerPub, crypto.SHA256, digest[:], req.SourceSig, nil)
		if err != nil {
			return err
		}
	}
	return nil
}

func (cosigner *LocalCosigner) storePart(req CosignerSetEphemeralSecretPartRequest) error {
	// protects""")]),
("k-part-meta",ALL,[(LC,"""	hrst := HRSTKey{
		Height:    req.Height,
		Round:     req.Round,
		Step:      req.Step,
		Timestamp: req.Timestamp.UnixNano(),
	}

	meta, ok := cosigner.hrsMeta[hrst]
	// generate metadata placeholder
	if !ok {
		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
			Height:    req.Height,
			Round:     req.Round,
			Step:      req.Step,
			Timestamp: req.Timestamp,
		})

		if err != nil {
			return err
		}

		meta = newMeta
		cosigner.hrsMeta[hrst] = meta
	}

	// decrypt share""","""	meta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
		Height:    req.Height,
		Round:     req.Round,
		Step:      req.Step,
		Timestamp: req.Timestamp,
	})
	if err != nil {
		return err
	}

	// decrypt share""")]),
("k-part-decrypt",ALL,[(LC,"""	// protects the meta map
	cosigner.lastSignStateMutex.Lock()
	defer cosigner.lastSignStateMutex.Unlock()

	hrst := HRSTKey{
		Height:    req.Height,
		Round:     req.Round,
		Step:      req.Step,
		Timestamp: req.Timestamp.UnixNano(),
	}

	meta, ok := cosigner.hrsMeta[hrst]
	// generate metadata placeholder
	if !ok {
		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
			Height:    req.Height,
			Round:     req.Round,
			Step:      req.Step,
			Timestamp: req.Timestamp,
		})

		if err != nil {
			return err
		}

		meta = newMeta
		cosigner.hrsMeta[hrst] = meta
	}

	// decrypt share
	sharePart, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, &cosigner.rsaKey, req.EncryptedSharePart, nil)
	if err != nil {
		return err
	}

	// set slot
	meta.Peers[req.SourceID-1].Share = sharePart
	meta.Peers[req.SourceID-1].EphemeralSecretPublicKey = req.SourceEphemeralSecretPublicKey
	return nil
""","""	// decrypt share
	sharePart, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, &cosigner.rsaKey, req.EncryptedSharePart, nil)
	if err != nil {
		return err
	}

	// protects the meta map
	cosigner.lastSignStateMutex.Lock()
	defer cosigner.lastSignStateMutex.Unlock()

	hrst := HRSTKey{
		Height:    req.Height,
		Round:     req.Round,
		Step:      req.Step,
		Timestamp: req.Timestamp.UnixNano(),
	}

	meta, ok := cosigner.hrsMeta[hrst]
	// generate metadata placeholder
	if !ok {
		if meta, err = cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
			Height:    req.Height,
			Round:     req.Round,
			Step:      req.Step,
			Timestamp: req.Timestamp,
		}); err != nil {
			return err
		}
		cosigner.hrsMeta[hrst] = meta
	}

	// set slot
	slot := &meta.Peers[req.SourceID-1]
	slot.Share, slot.EphemeralSecretPublicKey = sharePart, req.SourceEphemeralSecretPublicKey
	return nil
""")]),
("k-get-parts",ALL,[(LC,"""	// grab the peer info for the ID being requested
	peer, ok := cosigner.peers[req.ID]
	if !ok {
		return res, errors.New("unknown peer ID")
	}

	sharePart""","""	sharePart"""),(LC,"""	// protects the meta map
	cosigner.lastSignStateMutex.Lock()
	defer cosigner.lastSignStateMutex.Unlock()

	hrst := HRSTKey{
		Height:    req.Height,
		Round:     req.Round,
		Step:      req.Step,
		Timestamp: req.Timestamp.UnixNano(),
	}

	meta, ok := cosigner.hrsMeta[hrst]
	// generate metadata placeholder
	if !ok {
		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
			Height:    req.Height,
			Round:     req.Round,
			Step:      req.Step,
			Timestamp: req.Timestamp,
		})

		if err != nil {
			return res, err""","""	// grab the peer info for the ID being requested
	peer, ok := cosigner.peers[req.ID]
	if !ok {
		return res, errors.New("unknown peer ID")
	}

	// protects the meta map
	cosigner.lastSignStateMutex.Lock()
	defer cosigner.lastSignStateMutex.Unlock()

	hrst := HRSTKey{
		Height:    req.Height,
		Round:     req.Round,
		Step:      req.Step,
		Timestamp: req.Timestamp.UnixNano(),
	}

	meta, ok := cosigner.hrsMeta[hrst]
	// generate metadata placeholder
	if !ok {
		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
			Height:    req.Height,
			Round:     req.Round,
			Step:      req.Step,
			Timestamp: req.Timestamp,
		})

		if err != nil {
			return res, err""")]),
("k-signblock-proxy",ALL,[(TV,"""	"github.com/hashicorp/raft"
""",""),(TV,"""	if pv.raftStore.raft.State() != raft.Leader {
		pv.logger.Debug("I am not the raft leader. Proxying request to the leader")
		signRes,""","""	if !pv.raftStore.IsLeader() {
		pv.logger.Debug("I am not the raft leader. Proxying request to the leader")
		signRes,"""),(RS,"""type fsm RaftStore
""","""// IsLeader tells if this node leads the cluster
func (s *RaftStore) IsLeader() bool {
	return s.raft.State() == raft.Leader
}

type fsm RaftStore
""")]),
("k-signblock-proxy2",ALL,[(TV,"""		pv.logger.Debug("I am not the raft leader. Proxying request to the leader")
		signRes, err := pv.raftStore.LeaderSignBlock(CosignerSignBlockRequest{chainID, block})
		if err != nil {
			if _, ok := err.(*rpcTypes.RPCError); ok {
				rpcErrUnwrapped := err.(*rpcTypes.RPCError).Data
				// Need to return BeyondBlockError after proxy since the error type will be lost over RPC
				if len(rpcErrUnwrapped) > 33 && rpcErrUnwrapped[:33] == "Progress already started on block" {
					return nil, stamp, &BeyondBlockError{msg: rpcErrUnwrapped}
				}
			}
			return nil, stamp, err
		}
		return signRes.Signature, stamp, nil
	}
""","""		return pv.proxySignBlock(chainID, block)
	}
"""),(TV,"""func waitUntilCompleteOrTimeout(""","""func (pv *ThresholdValidator) proxySignBlock(chainID string, block *Block) ([]byte, time.Time, error) {
	pv.logger.Debug("I am not the raft leader. Proxying request to the leader")
	signRes, err := pv.raftStore.LeaderSignBlock(CosignerSignBlockRequest{ChainID: chainID, Block: block})
	if err == nil {
		return signRes.Signature, block.Timestamp, nil
	}
	if rpcErr, ok := err.(*rpcTypes.RPCError); ok {
		const beyond = "Progress already started on block"
		if len(rpcErr.Data) > len(beyond) && rpcErr.Data[:len(beyond)] == beyond {
			return nil, block.Timestamp, &BeyondBlockError{msg: rpcErr.Data}
		}
	}
	return nil, block.Timestamp, err
}

func waitUntilCompleteOrTimeout(""")]),
("k-signblock-wait",ALL,[(TV,"""			signAgain := false
			for i := 0; i < 100; i++ {
				existingSignature, existingTimestamp, sameBlockErr := pv.getExistingBlockSignature(block)
				if sameBlockErr == nil {
					if existingSignature == nil {
						signAgain = true
						break
					}
					return existingSignature, existingTimestamp, nil
				}
				switch sameBlockErr.(type) {
				case *StillWaitingForBlockError:
					time.Sleep(10 * time.Millisecond)
					continue
				default:
					return nil, existingTimestamp, sameBlockErr
				}

			}
			if !signAgain {
				return nil, stamp, errors.New("timed out waiting for block signature from cluster")
			}
""","""			existingSignature, existingTimestamp, err := pv.awaitBlock(block)
			if err != nil || existingSignature != nil {
				return existingSignature, existingTimestamp, err
			}
"""),(TV,"""func waitUntilCompleteOrTimeout(""","""func (pv *ThresholdValidator) awaitBlock(block *Block) ([]byte, time.Time, error) {
	for i := 0; i < 100; i++ {
		sig, stamp, err := pv.getExistingBlockSignature(block)
		if err == nil {
			return sig, stamp, nil
		}
		if _, waiting := err.(*StillWaitingForBlockError); !waiting {
			return nil, stamp, err
		}
		time.Sleep(10 * time.Millisecond)
	}
	return nil, block.Timestamp, errors.New("timed out waiting for block signature from cluster")
}

func waitUntilCompleteOrTimeout(""")]),
("k-signvote",ALL,[(TV,"""	sig, stamp, err := pv.SignBlock(chainID, block)

	vote.Signature = sig
	vote.Timestamp = stamp

	return err
""","""	var err error
	vote.Signature, vote.Timestamp, err = pv.SignBlock(chainID, block)
	return err
""")]),
("k-fsm",ALL+",C13",[(RS,"""	switch c.Op {
	case "set":
		return f.applySet(c.Key, c.Value)
	case "delete":
		return f.applyDelete(c.Key)
	default:
		f.logger.Error("unrecognized command op", c.Op)
		return nil
	}
""","""	if c.Op == "set" {
		return f.applySet(c.Key, c.Value)
	} else if c.Op == "delete" {
		return f.applyDelete(c.Key)
	}
	f.logger.Error("unrecognized command op", c.Op)
	return nil
""")]),
("k-peers",ALL,[(TV,"""				for thresholdPeer := range *encryptedEphemeralSharesThresholdMap {
					if thresholdPeer.GetID() == ephemeralSecretPart.SourceID {
						// source peer is included in threshold signature, include in sharing
						peerEphemeralSecretParts = append(peerEphemeralSecretParts, ephemeralSecretPart)
						break
					}
				}
				break
""","""				if takesPart(*encryptedEphemeralSharesThresholdMap, ephemeralSecretPart.SourceID) {
					peerEphemeralSecretParts = append(peerEphemeralSecretParts, ephemeralSecretPart)
				}
				break
"""),(TV,"""func waitUntilCompleteOrTimeout(""","""func takesPart(peers map[Cosigner][]CosignerEphemeralSecretPart, id int) bool {
	for p := range peers {
		if p.GetID() == id {
			return true
		}
	}
	return false
}

func waitUntilCompleteOrTimeout(""")]),
]
