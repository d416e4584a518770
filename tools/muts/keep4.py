# Refactorings that keep the behaviour, in the style of a third person: every check has to stay quiet on each.
ALL = "=" + ",".join("C%02d" % i for i in range(1, 30))
S = "signer/"
LC, SS, TV, RC, RE, RR, CK, CS, GS, ST, SE = (S + x for x in (
    "local_cosigner.go", "sign_state.go", "threshold_validator.go", "remote_cosigner.go", "raft_events.go",
    "remote_signer.go", "cosigner_key.go", "cosigner_key_shares.go", "grpc_server.go", "raft_store.go", "Serialization.go"))
CFG, CC, SC, STC = ("cmd/horcrux/cmd/" + x for x in ("config.go", "cosigner.go", "signer.go", "state.go"))
FOR = {LC: "01,02,03,04,06,10,11,12,22,23,24,29", SS: "01,02,03,04,05,06,08,09,12,13,17,22,26,27", TV: "01,04,05,06,07,08,09,13,15,22,23,29",
    RC: "11,14,21,22,23", RE: "01,08,13,14,21,23,25", RR: "15,16,21,22,23,24", CK: "17,20,28", CS: "19,20,28,11", GS: "06,07,14,21,22,23",
    ST: "08,13,21,22,23,25", SE: "02,04,07,10,12,23", "signer/PvGuard.go": "15,16,22", CFG: "17,18,19,26,27", CC: "16,17,19,20,23,25", SC: "16,17,25", STC: "17,26,27"}
def checks(es): return "=" + ",".join(sorted({"C" + i for f, _, _ in es for i in FOR[f].split(",")}))
M = [
 ("q-hrst-helper", ALL, [(LC, '''	hrsKey := HRSTKey{
		Height:    req.Height,
		Round:     req.Round,
		Step:      req.Step,
		Timestamp: req.Timestamp.UnixNano(),
	}

	meta, ok := cosigner.hrsMeta[hrsKey]

	if ok {
		return meta, nil
	}
''', '''	hrsKey := req.key()

	if existing, found := cosigner.hrsMeta[hrsKey]; found {
		return existing, nil
	}
	var meta HrsMetadata
'''), (LC, '''func (cosigner *LocalCosigner) dealShares(''', '''func (req CosignerGetEphemeralSecretPartRequest) key() HRSTKey {
	return HRSTKey{Height: req.Height, Round: req.Round, Step: req.Step, Timestamp: req.Timestamp.UnixNano()}
}

func (cosigner *LocalCosigner) dealShares('''),
  (LC, '''	hrst := HRSTKey{
		Height:    req.Height,
		Round:     req.Round,
		Step:      req.Step,
		Timestamp: req.Timestamp.UnixNano(),
	}

	meta, ok := cosigner.hrsMeta[hrst]
	// generate metadata placeholder
	if !ok {
		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
			Height:    req.Height,
			Round:     req.Round,
			Step:      req.Step,
			Timestamp: req.Timestamp,
		})

		if err != nil {
			return res, err
		}

		meta = newMeta
		cosigner.hrsMeta[hrst] = meta
	}

	ourEphPublicKey''', '''	meta, err := cosigner.dealShares(req)
	if err != nil {
		return res, err
	}

	ourEphPublicKey'''), (LC, "	encrypted, err := rsa.EncryptOAEP", "	var encrypted []byte\n	encrypted, err = rsa.EncryptOAEP")]),
 ("q-verifypart", ALL, [(LC, '''	// Verify the source signature
	{
		if req.SourceSig == nil {
			return errors.New("SourceSig field is required")
		}

		digestMsg := CosignerEphemeralSecretPart{}
		digestMsg.SourceID = req.SourceID
		digestMsg.SourceEphemeralSecretPublicKey = req.SourceEphemeralSecretPublicKey
		digestMsg.EncryptedSharePart = req.EncryptedSharePart

		digestBytes, err := tmJson.Marshal(digestMsg)
		if err != nil {
			return err
		}

		digest := sha256.Sum256(digestBytes)
		peer, ok := cosigner.peers[req.SourceID]

		if !ok {
			return fmt.Errorf("unknown cosigner: %d", req.SourceID)
		}

		peerPub := peer.PublicKey
		err = rsa.VerifyPSS(&peerPub, crypto.SHA256, digest[:], req.SourceSig, nil)
		if err != nil {
			return err
		}
	}
''', '''	if err := cosigner.verifySource(req); err != nil {
		return err
	}
'''), (LC, '''// Store an ephemeral secret share part provided''', '''// verifySource checks that the part comes from the cosigner that it names.
func (cosigner *LocalCosigner) verifySource(req CosignerSetEphemeralSecretPartRequest) error {
	if req.SourceSig == nil {
		return errors.New("SourceSig field is required")
	}
	peer, known := cosigner.peers[req.SourceID]
	if !known {
		return fmt.Errorf("unknown cosigner: %d", req.SourceID)
	}
	bz, err := tmJson.Marshal(CosignerEphemeralSecretPart{
		SourceID:                       req.SourceID,
		SourceEphemeralSecretPublicKey: req.SourceEphemeralSecretPublicKey,
		EncryptedSharePart:             req.EncryptedSharePart,
	})
	if err != nil {
		return err
	}
	digest := sha256.Sum256(bz)
	return rsa.VerifyPSS(&peer.PublicKey, crypto.SHA256, digest[:], req.SourceSig, nil)
}

// Store an ephemeral secret share part provided''')]),
 ("q-nonce-helper", ALL, [(LC, '''	shareParts := make([]tsed25519.Scalar, 0)
	publicKeys := make([]tsed25519.Element, 0)

	// calculate secret and public keys
	for _, peer := range meta.Peers {
		if len(peer.Share) == 0 {
			continue
		}
		shareParts = append(shareParts, peer.Share)
		publicKeys = append(publicKeys, peer.EphemeralSecretPublicKey)
	}

	ephemeralShare := tsed25519.AddScalars(shareParts)
	ephemeralPublic := tsed25519.AddElements(publicKeys)

	// check bounds for ephemeral share to avoid passing out of bounds valids to SignWithShare
	{
		if len(ephemeralShare) != 32 {
			return res, errors.New("ephemeral share is out of bounds")
		}

		var scalarBytes [32]byte
		copy(scalarBytes[:], ephemeralShare)
		if !edwards25519.ScMinimal(&scalarBytes) {
			return res, errors.New("ephemeral share is out of bounds")
		}
	}
''', '''	ephemeralShare, ephemeralPublic := meta.nonce()

	// check bounds for ephemeral share to avoid passing out of bounds valids to SignWithShare
	if !inBounds(ephemeralShare) {
		return res, errors.New("ephemeral share is out of bounds")
	}
'''), (LC, '''// LocalCosigner responds to sign requests''', '''// nonce adds up what the cosigners contributed
func (meta HrsMetadata) nonce() (tsed25519.Scalar, tsed25519.Element) {
	shareParts := make([]tsed25519.Scalar, 0, len(meta.Peers))
	publicKeys := make([]tsed25519.Element, 0, len(meta.Peers))
	for i := 0; i < len(meta.Peers); i++ {
		peer := meta.Peers[i]
		if len(peer.Share) > 0 {
			shareParts = append(shareParts, peer.Share)
			publicKeys = append(publicKeys, peer.EphemeralSecretPublicKey)
		}
	}
	return tsed25519.AddScalars(shareParts), tsed25519.AddElements(publicKeys)
}

func inBounds(share tsed25519.Scalar) bool {
	if len(share) != 32 {
		return false
	}
	var scalarBytes [32]byte
	copy(scalarBytes[:], share)
	return edwards25519.ScMinimal(&scalarBytes)
}

// LocalCosigner responds to sign requests''')]),
 ("q-sign-split", ALL, [(LC, '''func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignResponse, error) {
	cosigner.lastSignStateMutex.Lock()
	defer cosigner.lastSignStateMutex.Unlock()

	res := CosignerSignResponse{}
	lss := cosigner.lastSignState

	hrst, err := UnpackHRST(req.SignBytes)
	if err != nil {
		return res, err
	}
''', '''func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignResponse, error) {
	hrst, err := UnpackHRST(req.SignBytes)
	if err != nil {
		return CosignerSignResponse{}, err
	}

	cosigner.lastSignStateMutex.Lock()
	defer cosigner.lastSignStateMutex.Unlock()

	return cosigner.signLocked(req, hrst)
}

func (cosigner *LocalCosigner) signLocked(req CosignerSignRequest, hrst HRSTKey) (CosignerSignResponse, error) {
	res := CosignerSignResponse{}
	lss := cosigner.lastSignState
'''), (LC, '''	for existingKey := range cosigner.hrsMeta {
		// delete any HRS lower than our signed level
		// we will not be providing parts for any lower HRS
		if existingKey.Less(hrst) {
			delete(cosigner.hrsMeta, existingKey)
		}
	}

	res.EphemeralPublic = ephemeralPublic
	res.Signature = sig
	return res, nil
''', '''	cosigner.dropLower(hrst)

	return CosignerSignResponse{EphemeralPublic: ephemeralPublic, Signature: sig}, nil
'''), (LC, '''func (cosigner *LocalCosigner) dealShares(''', '''func (cosigner *LocalCosigner) dropLower(hrst HRSTKey) {
	var lower []HRSTKey
	for k := range cosigner.hrsMeta {
		if k.Less(hrst) {
			lower = append(lower, k)
		}
	}
	for _, k := range lower {
		delete(cosigner.hrsMeta, k)
	}
}

func (cosigner *LocalCosigner) dealShares(''')]),
 ("q-sign-switch", ALL, [(LC, '''		if bytes.Equal(req.SignBytes, lss.SignBytes) {
			res.EphemeralPublic = lss.EphemeralPublic
			res.Signature = lss.Signature
			return res, nil
		} else if err := lss.OnlyDifferByTimestamp(req.SignBytes); err != nil {
			return res, err
		}
''', '''		switch {
		case bytes.Equal(lss.SignBytes, req.SignBytes):
			return CosignerSignResponse{
				EphemeralPublic: lss.EphemeralPublic,
				Signature:       lss.Signature,
			}, nil
		default:
			if err := onlyDifferByTimestamp(lss.Step, lss.SignBytes, req.SignBytes); err != nil {
				return res, err
			}
		}
''')]),
 ("q-less", ALL, [(LC, '''	if hrst.Height < other.Height {
		return true
	}

	if hrst.Height > other.Height {
		return false
	}

	// height is equal, check round

	if hrst.Round < other.Round {
		return true
	}

	if hrst.Round > other.Round {
		return false
	}

	// round is equal, check step

	if hrst.Step < other.Step {
		return true
	}

	// HRS is greater or equal
	return false
''', '''	if hrst.Height != other.Height {
		return hrst.Height < other.Height
	}
	if hrst.Round != other.Round {
		return hrst.Round < other.Round
	}
	return hrst.Step < other.Step
''')]),
 ("q-compare", ALL, [(SS, '''	if height < signState.Height {
		// lower height than current, don't allow state rollback
		return errors.New("height regression not allowed")
	}
	if height > signState.Height {
		return nil
	}
	// Height is equal

	if round < signState.Round {
		// lower round than current round for same block, don't allow state rollback
		return errors.New("round regression not allowed")
	}
	if round > signState.Round {
		return nil
	}
	// Height and Round are equal

	if step < signState.Step {
		// lower round than current round for same block, don't allow state rollback
		return errors.New("step regression not allowed")
	}
	if step == signState.Step {
		// same HRS as current
		return newSameHRSError(HRSKey{Height: height, Round: round, Step: step})
	}
	// Step is greater, so all good
	return nil
''', '''	switch {
	case height != signState.Height:
		if height < signState.Height {
			return errors.New("height regression not allowed")
		}
		return nil
	case round != signState.Round:
		if round < signState.Round {
			return errors.New("round regression not allowed")
		}
		return nil
	case step < signState.Step:
		return errors.New("step regression not allowed")
	case step > signState.Step:
		return nil
	}
	return newSameHRSError(HRSKey{Height: height, Round: round, Step: step})
''')]),
 ("q-save-helpers", ALL, [(SS, '''	signState.cache[HRSKey{Height: ssc.Height, Round: ssc.Round, Step: ssc.Step}] = ssc
	for hrs := range signState.cache {
		if hrs.Height < ssc.Height-blocksToCache {
			delete(signState.cache, hrs)
		}
	}

	signState.Height = ssc.Height
	signState.Round = ssc.Round
	signState.Step = ssc.Step
	signState.Signature = ssc.Signature
	signState.SignBytes = ssc.SignBytes
''', '''	signState.advance(ssc)
	signState.remember(ssc)

'''), (SS, '''// Save persists the FilePvLastSignState''', '''func (signState *SignState) advance(ssc SignStateConsensus) {
	signState.SignBytes, signState.Signature = ssc.SignBytes, ssc.Signature
	signState.Height, signState.Round, signState.Step = ssc.Height, ssc.Round, ssc.Step
}

func (signState *SignState) remember(ssc SignStateConsensus) {
	key := HRSKey{ssc.Height, ssc.Round, ssc.Step}
	signState.cache[key] = ssc
	oldest := ssc.Height - blocksToCache
	for hrs := range signState.cache {
		if hrs.Height >= oldest {
			continue
		}
		delete(signState.cache, hrs)
	}
}

// Save persists the FilePvLastSignState''')]),
 ("q-save-file", ALL, [(SS, '''	jsonBytes, err := tmJson.MarshalIndent(signState, "", "  ")
	if err != nil {
		panic(err)
	}
	err = tempfile.WriteFileAtomic(outFile, jsonBytes, 0600)
	if err != nil {
		panic(err)
	}
''', '''	if err := signState.writeTo(outFile); err != nil {
		panic(err)
	}
'''), (SS, '''// CheckHRS checks the given''', '''func (signState *SignState) writeTo(file string) error {
	bz, err := tmJson.MarshalIndent(signState, "", "  ")
	if err != nil {
		return err
	}
	return tempfile.WriteFileAtomic(file, bz, 0600)
}

// CheckHRS checks the given''')]),
 ("q-checkhrs", ALL, [(SS, '''	if signState.Height == hrst.Height {
		if signState.Round > hrst.Round {
			return false, fmt.Errorf("round regression at height %v. Got %v, last round %v",
				hrst.Height, hrst.Round, signState.Round)
		}

		if signState.Round == hrst.Round {
			if signState.Step > hrst.Step {
				return false, fmt.Errorf("step regression at height %v round %v. Got %v, last step %v",
					hrst.Height, hrst.Round, hrst.Step, signState.Step)
			} else if signState.Step == hrst.Step {
				if signState.SignBytes != nil {
					if signState.Signature == nil {
						panic("pv: Signature is nil but SignBytes is not!")
					}
					return true, nil
				}
				return false, errors.New("no SignBytes found")
			}
		}
	}
	return false, nil
''', '''	if signState.Height < hrst.Height {
		return false, nil
	}

	// same height
	if signState.Round > hrst.Round {
		return false, fmt.Errorf("round regression at height %v. Got %v, last round %v",
			hrst.Height, hrst.Round, signState.Round)
	}
	if signState.Round < hrst.Round {
		return false, nil
	}

	// same height and round
	if signState.Step > hrst.Step {
		return false, fmt.Errorf("step regression at height %v round %v. Got %v, last step %v",
			hrst.Height, hrst.Round, hrst.Step, signState.Step)
	}
	if signState.Step < hrst.Step {
		return false, nil
	}

	if signState.SignBytes == nil {
		return false, errors.New("no SignBytes found")
	}
	if signState.Signature == nil {
		panic("pv: Signature is nil but SignBytes is not!")
	}
	return true, nil
''')]),
 ("q-load-helper", ALL, [(SS, '''	state.cache = make(map[HRSKey]SignStateConsensus)
	state.cache[HRSKey{Height: state.Height, Round: state.Round, Step: state.Step}] = SignStateConsensus{
		Height:    state.Height,
		Round:     state.Round,
		Step:      state.Step,
		Signature: state.Signature,
		SignBytes: state.SignBytes,
	}
	state.filePath = filepath
	return state, nil
}
''', '''	latest := NewSignStateConsensus(state.Height, state.Round, state.Step)
	latest.Signature, latest.SignBytes = state.Signature, state.SignBytes
	state.filePath = filepath
	state.cache = map[HRSKey]SignStateConsensus{state.hrs(): latest}
	return state, nil
}

func (signState *SignState) hrs() HRSKey {
	return HRSKey{Height: signState.Height, Round: signState.Round, Step: signState.Step}
}
'''), (SS, '''	latestBlock := HRSKey{
		Height: signState.Height,
		Round:  signState.Round,
		Step:   signState.Step,
	}
	if ssc, ok := signState.cache[hrs]; ok {
		return latestBlock, &ssc
	}
	return latestBlock, nil
''', '''	ssc, ok := signState.cache[hrs]
	if !ok {
		return signState.hrs(), nil
	}
	return signState.hrs(), &ssc
''')]),
 ("q-onlydiffer", ALL, [(SS, '''	if step == stepPropose {
		return checkProposalOnlyDifferByTimestamp(signStateSignBytes, signBytes)
	} else if step == stepPrevote || step == stepPrecommit {
		return checkVoteOnlyDifferByTimestamp(signStateSignBytes, signBytes)
	}

	return fmt.Errorf("unexpected sign step: %d", step)
''', '''	var check func(last, next []byte) error
	switch step {
	case stepPropose:
		check = checkProposalOnlyDifferByTimestamp
	case stepPrevote, stepPrecommit:
		check = checkVoteOnlyDifferByTimestamp
	default:
		return fmt.Errorf("unexpected sign step: %d", step)
	}
	return check(signStateSignBytes, signBytes)
'''), (SS, '''	// set the times to the same value and check equality
	newVote.Timestamp = lastVote.Timestamp

	isEqual := proto.Equal(&newVote, &lastVote)

	if !isEqual {
''', '''	// set the times to the same value and check equality
	lastVote.Timestamp = newVote.Timestamp
	if !proto.Equal(&lastVote, &newVote) {
''')]),
 ("q-unpack", ALL, [(SE, '''	{
		var proposal tmProto.CanonicalProposal
		if err := protoio.UnmarshalDelimited(signBytes, &proposal); err == nil {
			return HRSTKey{proposal.Height, proposal.Round, stepPropose, proposal.Timestamp.UnixNano()}, nil
		}
	}

	{
		var vote tmProto.CanonicalVote
		if err := protoio.UnmarshalDelimited(signBytes, &vote); err == nil {
			if vote.Type != tmProto.PrevoteType && vote.Type != tmProto.PrecommitType {
				return HRSTKey{0, 0, 0, 0}, fmt.Errorf("unknown vote type: %v", vote.Type)
			}
			return HRSTKey{vote.Height, vote.Round, CanonicalVoteToStep(&vote), vote.Timestamp.UnixNano()}, nil
		}
	}

	return HRSTKey{0, 0, 0, 0}, errors.New("could not UnpackHRS from sign bytes")
''', '''	var (
		proposal tmProto.CanonicalProposal
		vote     tmProto.CanonicalVote
	)
	if protoio.UnmarshalDelimited(signBytes, &proposal) == nil {
		return HRSTKey{
			Height:    proposal.Height,
			Round:     proposal.Round,
			Step:      stepPropose,
			Timestamp: proposal.Timestamp.UnixNano(),
		}, nil
	}
	if protoio.UnmarshalDelimited(signBytes, &vote) != nil {
		return HRSTKey{}, errors.New("could not UnpackHRS from sign bytes")
	}
	return unpackVote(&vote)
}

func unpackVote(vote *tmProto.CanonicalVote) (key HRSTKey, err error) {
	switch vote.Type {
	case tmProto.PrevoteType, tmProto.PrecommitType:
		key.Height, key.Round, key.Step = vote.Height, vote.Round, CanonicalVoteToStep(vote)
		key.Timestamp = vote.Timestamp.UnixNano()
	default:
		err = fmt.Errorf("unknown vote type: %v", vote.Type)
	}
	return key, err
''')]),
 ("q-collect", ALL, [(TV, '''	sigIds := make([]int, 0)
	shareSigs := make([][]byte, 0)
	for idx, shareSig := range shareSignatures {
		if len(shareSig) == 0 {
			continue
		}
		sigIds = append(sigIds, idx+1)

		// we are ok to use the share signatures - complete boolean
		// prevents future concurrent access
		shareSigs = append(shareSigs, shareSig)
	}

	if len(sigIds) < pv.threshold {
		return nil, stamp, errors.New("not enough co-signers")
	}

	// assemble into final signature
	combinedSig := tsed25519.CombineShares(total, sigIds, shareSigs)

	signature := ephemeralPublic
	signature = append(signature, combinedSig...)

	// verify the combined signature before saving to watermark
	if !pv.pubkey.VerifySignature(signBytes, signature) {
		return nil, stamp, errors.New("combined signature is not valid")
	}
''', '''	signature, err := pv.assemble(total, ephemeralPublic, shareSignatures, signBytes)
	if err != nil {
		return nil, stamp, err
	}
'''), (TV, '''func (pv *ThresholdValidator) SignBlock(''', '''// assemble combines the share signatures into a signature of the validator, and verifies it
func (pv *ThresholdValidator) assemble(
	total uint8, ephemeralPublic []byte, shareSignatures [][]byte, signBytes []byte) ([]byte, error) {
	var (
		ids  []int
		sigs [][]byte
	)
	for i := range shareSignatures {
		if len(shareSignatures[i]) > 0 {
			ids = append(ids, i+1)
			sigs = append(sigs, shareSignatures[i])
		}
	}
	if len(ids) < pv.threshold {
		return nil, errors.New("not enough co-signers")
	}
	signature := append(ephemeralPublic, tsed25519.CombineShares(total, ids, sigs)...)
	if !pv.pubkey.VerifySignature(signBytes, signature) {
		return nil, errors.New("combined signature is not valid")
	}
	return signature, nil
}

func (pv *ThresholdValidator) SignBlock(''')]),
 ("q-initiated", ALL, [(TV, '''		switch err.(type) {
		case *SameHRSError:
			// Wait for last sign state signature to be the same block
			signAgain := false
			for i := 0; i < 100; i++ {
				existingSignature, existingTimestamp, sameBlockErr := pv.getExistingBlockSignature(block)
				if sameBlockErr == nil {
					if existingSignature == nil {
						signAgain = true
						break
					}
					return existingSignature, existingTimestamp, nil
				}
				switch sameBlockErr.(type) {
				case *StillWaitingForBlockError:
					time.Sleep(10 * time.Millisecond)
					continue
				default:
					return nil, existingTimestamp, sameBlockErr
				}

			}
			if !signAgain {
				return nil, stamp, errors.New("timed out waiting for block signature from cluster")
			}
		default:
''', '''		switch err.(type) {
		case *SameHRSError:
			// Wait for last sign state signature to be the same block
			existingSignature, existingTimestamp, waitErr := pv.waitForExistingSignature(block)
			if waitErr != nil || existingSignature != nil {
				return existingSignature, existingTimestamp, waitErr
			}
			// differs by timestamp only, sign again
		default:
'''), (TV, '''func (pv *ThresholdValidator) SignBlock(''', '''// waitForExistingSignature waits until the block that is in progress has been signed.
func (pv *ThresholdValidator) waitForExistingSignature(block *Block) ([]byte, time.Time, error) {
	for attempts := 100; attempts > 0; attempts-- {
		sig, stamp, err := pv.getExistingBlockSignature(block)
		if err == nil {
			return sig, stamp, nil
		}
		if _, waiting := err.(*StillWaitingForBlockError); !waiting {
			return nil, stamp, err
		}
		time.Sleep(10 * time.Millisecond)
	}
	return nil, block.Timestamp, errors.New("timed out waiting for block signature from cluster")
}

func (pv *ThresholdValidator) SignBlock(''')]),
 ("q-existing", ALL, [(TV, '''	height, round, step, stamp, signBytes := block.Height, block.Round, block.Step, block.Timestamp, block.SignBytes
	hrs := HRSKey{
		height,
		round,
		step,
	}
	latestBlock, existingSignature := pv.lastSignState.GetFromCache(hrs, &pv.lastSignStateMutex)
	if existingSignature != nil {
		// If these exact bytes have already been signed for this HRS, return that
		if bytes.Equal(signBytes, existingSignature.SignBytes) {
			return existingSignature.Signature, block.Timestamp, nil
		}
		if err := existingSignature.OnlyDifferByTimestamp(signBytes); err != nil {
			return nil, stamp, err
		}

		// only differ by timestamp, okay to sign again
		return nil, stamp, nil
	} else if latestBlock.Height > height ||
		(latestBlock.Height == height && latestBlock.Round > round) ||
		(latestBlock.Height == height && latestBlock.Round == round && latestBlock.Step > step) {
		return nil, stamp, pv.newBeyondBlockError(hrs)
	}
	return nil, stamp, newStillWaitingForBlockError(hrs)
}
''', '''	stamp := block.Timestamp
	hrs := HRSKey{Height: block.Height, Round: block.Round, Step: block.Step}
	latest, existing := pv.lastSignState.GetFromCache(hrs, &pv.lastSignStateMutex)
	if existing == nil {
		if latest.after(hrs) {
			return nil, stamp, pv.newBeyondBlockError(hrs)
		}
		return nil, stamp, newStillWaitingForBlockError(hrs)
	}
	if !bytes.Equal(block.SignBytes, existing.SignBytes) {
		// if only the timestamp differs it is okay to sign again
		return nil, stamp, existing.OnlyDifferByTimestamp(block.SignBytes)
	}
	return existing.Signature, stamp, nil
}

func (k HRSKey) after(other HRSKey) bool {
	if k.Height != other.Height {
		return k.Height > other.Height
	}
	if k.Round != other.Round {
		return k.Round > other.Round
	}
	return k.Step > other.Step
}
''')]),
 ("q-partsfor", ALL, [(TV, '''	peerEphemeralSecretParts := make([]CosignerEphemeralSecretPart, 0, pv.threshold-1)
	for _, EncryptedSecrets := range *encryptedEphemeralSharesThresholdMap {
		for _, ephemeralSecretPart := range EncryptedSecrets {
			// if share is intended for peer, check to make sure source peer is included in threshold
			if ephemeralSecretPart.DestinationID == peer.GetID() {
				for thresholdPeer := range *encryptedEphemeralSharesThresholdMap {
					if thresholdPeer.GetID() == ephemeralSecretPart.SourceID {
						// source peer is included in threshold signature, include in sharing
						peerEphemeralSecretParts = append(peerEphemeralSecretParts, ephemeralSecretPart)
						break
					}
				}
				break
			}
		}
	}
''', '''	parts := *encryptedEphemeralSharesThresholdMap
	sources := make(map[int]bool, len(parts))
	for source := range parts {
		sources[source.GetID()] = true
	}
	peerEphemeralSecretParts := make([]CosignerEphemeralSecretPart, 0, pv.threshold-1)
	for _, dealt := range parts {
		if part := partFor(peer.GetID(), dealt); part != nil && sources[part.SourceID] {
			peerEphemeralSecretParts = append(peerEphemeralSecretParts, *part)
		}
	}
'''), (TV, '''func (pv *ThresholdValidator) waitForPeerSetEphemeralSharesAndSign(''', '''// partFor returns the part that is intended for the cosigner with the given ID
func partFor(id int, parts []CosignerEphemeralSecretPart) *CosignerEphemeralSecretPart {
	for i := range parts {
		if parts[i].DestinationID == id {
			return &parts[i]
		}
	}
	return nil
}

func (pv *ThresholdValidator) waitForPeerSetEphemeralSharesAndSign(''')]),
 ("q-shares-store", ALL, [(TV, '''	shareSignaturesMutex.Lock()
	defer shareSignaturesMutex.Unlock()

	peerIdx := peerID - 1
	(*shareSignatures)[peerIdx] = make([]byte, len(sigRes.Signature))
	copy((*shareSignatures)[peerIdx], sigRes.Signature)
	if peerID == ourID {
		*ephemeralPublic = sigRes.EphemeralPublic
	}
''', '''	sig := append([]byte{}, sigRes.Signature...)

	shareSignaturesMutex.Lock()
	(*shareSignatures)[peerID-1] = sig
	if ourID == peerID {
		*ephemeralPublic = sigRes.EphemeralPublic
	}
	shareSignaturesMutex.Unlock()
''')]),
 ("q-threshold-slots", ALL, [(TV, '''	thresholdPeersMutex.Lock()
	if len(*encryptedEphemeralSharesThresholdMap) < pv.threshold-1 {
		(*encryptedEphemeralSharesThresholdMap)[peer] = ephemeralSecretParts.EncryptedSecrets
		defer wg.Done()
	}
	thresholdPeersMutex.Unlock()
''', '''	thresholdPeersMutex.Lock()
	defer thresholdPeersMutex.Unlock()
	shares := *encryptedEphemeralSharesThresholdMap
	if len(shares) >= pv.threshold-1 {
		return
	}
	shares[peer] = ephemeralSecretParts.EncryptedSecrets
	wg.Done()
''')]),
 ("q-signblock-publish", ALL, [(TV, '''	newLss := SignStateConsensus{
		Height:    height,
		Round:     round,
		Step:      step,
		Signature: signature,
		SignBytes: signBytes,
	}
	// Err will be present if newLss is not above high watermark
	err = pv.lastSignState.Save(newLss, &pv.lastSignStateMutex)
	if err != nil {
		if _, isSameHRSError := err.(*SameHRSError); !isSameHRSError {
			return nil, stamp, err
		}
	}

	// Emit last signed state to cluster
	err = pv.raftStore.Emit(raftEventLSS, newLss)
	if err != nil {
		pv.logger.Error("Error emitting LSS", err.Error())
	}

	return signature, stamp, nil
''', '''	newLss := NewSignStateConsensus(height, round, step)
	newLss.SignBytes = signBytes
	newLss.Signature = signature
	if err := pv.publish(newLss); err != nil {
		return nil, stamp, err
	}
	return signature, stamp, nil
'''), (TV, '''func (pv *ThresholdValidator) SignBlock(''', '''// publish records what was signed and announces it to the cluster
func (pv *ThresholdValidator) publish(lss SignStateConsensus) error {
	switch err := pv.SaveLastSignedState(lss).(type) {
	case nil, *SameHRSError:
	default:
		return err
	}
	if err := pv.raftStore.Emit(raftEventLSS, lss); err != nil {
		pv.logger.Error("Error emitting LSS", err.Error())
	}
	return nil
}

func (pv *ThresholdValidator) SignBlock(''')]),
 ("q-signblock-two", ALL, [(TV, '''		return signRes.Signature, stamp, nil
	}

	pv.logger.Debug("I am the raft leader. Managing the sign process for this block")
''', '''		return signRes.Signature, stamp, nil
	}
	return pv.signBlockAsLeader(block)
}

func (pv *ThresholdValidator) signBlockAsLeader(block *Block) ([]byte, time.Time, error) {
	height, round, step, stamp, signBytes := block.Height, block.Round, block.Step, block.Timestamp, block.SignBytes

	pv.logger.Debug("I am the raft leader. Managing the sign process for this block")
'''), (TV, '''	height, round, step, stamp, signBytes := block.Height, block.Round, block.Step, block.Timestamp, block.SignBytes

	// Only the leader can''', '''	stamp := block.Timestamp

	// Only the leader can''')]),
 ("q-signvote", ALL, [(TV, '''	block := &Block{
		Height:    vote.Height,
		Round:     int64(vote.Round),
		Step:      VoteToStep(vote),
		Timestamp: vote.Timestamp,
		SignBytes: tm.VoteSignBytes(chainID, vote),
	}
	sig, stamp, err := pv.SignBlock(chainID, block)

	vote.Signature = sig
	vote.Timestamp = stamp

	return err
''', '''	block := blockFromVote(chainID, vote)
	sig, stamp, err := pv.SignBlock(chainID, &block)
	vote.Timestamp, vote.Signature = stamp, sig
	if err != nil {
		return err
	}
	return nil
'''), (TV, '''type Block struct {''', '''func blockFromVote(chainID string, vote *tmProto.Vote) Block {
	var b Block
	b.SignBytes = tm.VoteSignBytes(chainID, vote)
	b.Height, b.Round = vote.Height, int64(vote.Round)
	b.Step = VoteToStep(vote)
	b.Timestamp = vote.Timestamp
	return b
}

type Block struct {''')]),
 ("q-loop", ALL, [(RR, '''		for conn == nil {
			proto, address := tmNet.ProtocolAndAddress(rs.address)
			netConn, err := rs.dialer.Dial(proto, address)
			if err != nil {
				rs.Logger.Error("Dialing", "err", err)
				rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)
				time.Sleep(time.Second * 3)
				continue
			}

			rs.Logger.Info("Connected", "address", rs.address)
			conn, err = tmP2pConn.MakeSecretConnection(netConn, rs.privKey)
			if err != nil {
				conn = nil
				netConn.Close()
				rs.Logger.Error("Secret Conn", "err", err)
				rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)
				time.Sleep(time.Second * 3)
				continue
			}
		}
''', '''		for conn == nil {
			var err error
			if conn, err = rs.connect(); err != nil {
				rs.Logger.Error("Connecting", "err", err)
				rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)
				time.Sleep(time.Second * 3)
			}
		}
'''), (RR, '''func (rs *ReconnRemoteSigner) handleRequest(''', '''func (rs *ReconnRemoteSigner) connect() (net.Conn, error) {
	proto, address := tmNet.ProtocolAndAddress(rs.address)
	netConn, err := rs.dialer.Dial(proto, address)
	if err != nil {
		return nil, err
	}
	rs.Logger.Info("Connected", "address", rs.address)
	secret, err := tmP2pConn.MakeSecretConnection(netConn, rs.privKey)
	if err != nil {
		netConn.Close()
		return nil, err
	}
	return secret, nil
}

func (rs *ReconnRemoteSigner) handleRequest(''')]),
 ("q-loop-serve", ALL, [(RR, '''		req, err := ReadMsg(conn)
		if err != nil {
			rs.Logger.Error("readMsg", "err", err)
			conn.Close()
			conn = nil
			continue
		}

		// handleRequest handles request errors. We always send back a response
		res := rs.handleRequest(req)

		err = WriteMsg(conn, res)
		if err != nil {
			rs.Logger.Error("writeMsg", "err", err)
			conn.Close()
			conn = nil
		}
''', '''		if err := rs.serveOne(conn); err != nil {
			rs.Logger.Error("serve", "err", err)
			conn.Close()
			conn = nil
		}
'''), (RR, '''func (rs *ReconnRemoteSigner) handleRequest(''', '''func (rs *ReconnRemoteSigner) serveOne(conn net.Conn) error {
	req, err := ReadMsg(conn)
	if err != nil {
		return fmt.Errorf("readMsg: %w", err)
	}
	// handleRequest handles request errors. We always send back a response
	if err := WriteMsg(conn, rs.handleRequest(req)); err != nil {
		return fmt.Errorf("writeMsg: %w", err)
	}
	return nil
}

func (rs *ReconnRemoteSigner) handleRequest(''')]),
 ("q-voteresp", ALL, [(RR, '''	msgSum := &tmProtoPrivval.Message_SignedVoteResponse{SignedVoteResponse: &tmProtoPrivval.SignedVoteResponse{
		Vote:  tmProto.Vote{},
		Error: nil,
	}}
	if vote == nil || (vote.Type != tmProto.PrevoteType && vote.Type != tmProto.PrecommitType) {
		err := errors.New("sign vote request without a prevote or precommit")
		rs.Logger.Error("Failed to sign vote", "address", rs.address, "error", err)
		msgSum.SignedVoteResponse.Error = getRemoteSignerError(err)
		return tmProtoPrivval.Message{Sum: msgSum}
	}
	// building the sign bytes of a malformed block ID panics
	if _, err := tm.BlockIDFromProto(&vote.BlockID); err != nil {
		rs.Logger.Error("Failed to sign vote", "address", rs.address, "error", err)
		msgSum.SignedVoteResponse.Error = getRemoteSignerError(err)
		return tmProtoPrivval.Message{Sum: msgSum}
	}
	if err := rs.privVal.SignVote(rs.chainID, vote); err != nil {
''', '''	resp := &tmProtoPrivval.SignedVoteResponse{}
	msgSum := &tmProtoPrivval.Message_SignedVoteResponse{SignedVoteResponse: resp}
	if err := checkVote(vote); err != nil {
		rs.Logger.Error("Failed to sign vote", "address", rs.address, "error", err)
		resp.Error = getRemoteSignerError(err)
		return tmProtoPrivval.Message{Sum: msgSum}
	}
	if err := rs.privVal.SignVote(rs.chainID, vote); err != nil {
'''), (RR, '''func (rs *ReconnRemoteSigner) handleSignVoteRequest(''', '''// checkVote rejects what cannot be signed
func checkVote(vote *tmProto.Vote) error {
	if vote == nil {
		return errors.New("sign vote request without a vote")
	}
	switch vote.Type {
	case tmProto.PrevoteType, tmProto.PrecommitType:
	default:
		return errors.New("sign vote request without a prevote or precommit")
	}
	// building the sign bytes of a malformed block ID panics
	_, err := tm.BlockIDFromProto(&vote.BlockID)
	return err
}

func (rs *ReconnRemoteSigner) handleSignVoteRequest(''')]),
 ("q-pubkeyresp", ALL, [(RR, '''	msgSum := &tmProtoPrivval.Message_PubKeyResponse{PubKeyResponse: &tmProtoPrivval.PubKeyResponse{
		PubKey: tmProtoCrypto.PublicKey{},
		Error:  nil,
	}}
	pubKey, err := rs.privVal.GetPubKey()
	if err != nil {
		rs.Logger.Error("Failed to get Pub Key", "address", rs.address, "error", err)
		msgSum.PubKeyResponse.Error = getRemoteSignerError(err)
		return tmProtoPrivval.Message{Sum: msgSum}
	}
	pk, err := tmCryptoEncoding.PubKeyToProto(pubKey)
	if err != nil {
		rs.Logger.Error("Failed to get Pub Key", "address", rs.address, "error", err)
		msgSum.PubKeyResponse.Error = getRemoteSignerError(err)
		return tmProtoPrivval.Message{Sum: msgSum}
	}
	msgSum.PubKeyResponse.PubKey = pk
	return tmProtoPrivval.Message{Sum: msgSum}
''', '''	pk, err := rs.protoPubKey()
	if err != nil {
		rs.Logger.Error("Failed to get Pub Key", "address", rs.address, "error", err)
		pk = tmProtoCrypto.PublicKey{}
	}
	return tmProtoPrivval.Message{Sum: &tmProtoPrivval.Message_PubKeyResponse{
		PubKeyResponse: &tmProtoPrivval.PubKeyResponse{PubKey: pk, Error: getRemoteSignerError(err)},
	}}
}

func (rs *ReconnRemoteSigner) protoPubKey() (tmProtoCrypto.PublicKey, error) {
	pubKey, err := rs.privVal.GetPubKey()
	if err != nil {
		return tmProtoCrypto.PublicKey{}, err
	}
	return tmCryptoEncoding.PubKeyToProto(pubKey)
''')]),
 ("q-guard", ALL, [("signer/PvGuard.go", '''	pv.pvMutex.Lock()
	defer pv.pvMutex.Unlock()
	return pv.PrivValidator.SignVote(chainID, vote)
''', '''	var err error
	pv.guarded(func() { err = pv.PrivValidator.SignVote(chainID, vote) })
	return err
'''), ("signer/PvGuard.go", '''	pv.pvMutex.Lock()
	defer pv.pvMutex.Unlock()
	return pv.PrivValidator.SignProposal(chainID, proposal)
}
''', '''	var err error
	pv.guarded(func() { err = pv.PrivValidator.SignProposal(chainID, proposal) })
	return err
}

func (pv *PvGuard) guarded(f func()) {
	pv.pvMutex.Lock()
	defer pv.pvMutex.Unlock()
	f()
}
''')]),
 ("q-remote-with", ALL, [(RC, '''	client, conn, err := cosigner.getGRPCClient()
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	context, cancelFunc := getContext()
	defer cancelFunc()
	res, err := client.GetEphemeralSecretParts(context, &proto.CosignerGRPCGetEphemeralSecretPartsRequest{
		Hrst: req.toProto(),
	})
	if err != nil {
		return nil, err
	}
	return &CosignerEphemeralSecretPartsResponse{
		EncryptedSecrets: CosignerEphemeralSecretPartsFromProto(res.GetEncryptedSecrets()),
	}, nil
''', '''	var out *CosignerEphemeralSecretPartsResponse
	err := cosigner.withClient(func(ctx context.Context, client proto.CosignerGRPCClient) error {
		res, err := client.GetEphemeralSecretParts(ctx,
			&proto.CosignerGRPCGetEphemeralSecretPartsRequest{Hrst: req.toProto()})
		if err == nil {
			out = &CosignerEphemeralSecretPartsResponse{
				EncryptedSecrets: CosignerEphemeralSecretPartsFromProto(res.GetEncryptedSecrets()),
			}
		}
		return err
	})
	return out, err
'''), (RC, '''// Implements the cosigner interface
func (cosigner *RemoteCosigner) SetEph''', '''func (cosigner *RemoteCosigner) withClient(f func(context.Context, proto.CosignerGRPCClient) error) error {
	client, conn, err := cosigner.getGRPCClient()
	if err != nil {
		return err
	}
	defer conn.Close()
	ctx, cancel := getContext()
	defer cancel()
	return f(ctx, client)
}

// Implements the cosigner interface
func (cosigner *RemoteCosigner) SetEph''')]),
 ("q-leader-wait", ALL, [(RE, '''	var leader string
	for i := 0; i < 30; i++ {
		leader = string(s.GetLeader())
		if leader != "" {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	if leader == "" {
		return nil, nil, errors.New("timed out waiting for leader election to complete")
	}
	conn, err :=''', '''	leader, err := s.waitForLeader()
	if err != nil {
		return nil, nil, err
	}
	conn, err :='''), (RE, '''func (s *RaftStore) getLeaderGRPCClient(''', '''func (s *RaftStore) waitForLeader() (string, error) {
	for attempt := 1; ; attempt++ {
		if leader := s.GetLeader(); leader != "" {
			return string(leader), nil
		}
		if attempt == 30 {
			return "", errors.New("timed out waiting for leader election to complete")
		}
		time.Sleep(100 * time.Millisecond)
	}
}

func (s *RaftStore) getLeaderGRPCClient(''')]),
 ("q-lss-event", ALL, [(RE, '''	lss := &SignStateConsensus{}
	err := json.Unmarshal([]byte(value), lss)
	if err != nil {
		f.logger.Error("LSS Unmarshal Error", err.Error())
		return
	}
	_ = f.thresholdValidator.SaveLastSignedState(*lss)
	_ = f.cosigner.SaveLastSignedState(*lss)
''', '''	var lss SignStateConsensus
	if err := json.Unmarshal([]byte(value), &lss); err != nil {
		f.logger.Error("LSS Unmarshal Error", err.Error())
		return
	}
	for _, save := range []func(SignStateConsensus) error{
		f.thresholdValidator.SaveLastSignedState,
		f.cosigner.SaveLastSignedState,
	} {
		if err := save(lss); err != nil {
			f.logger.Debug("LSS not saved", "reason", err.Error())
		}
	}
''')]),
 ("q-eventhandler", ALL, [(RE, '''	return map[string]func(string){
		raftEventLSS: f.handleLSSEvent,
	}[key]
''', '''	switch key {
	case raftEventLSS:
		return f.handleLSSEvent
	default:
		return nil
	}
'''), (ST, '''	eventHandler := f.getEventHandler(key)
	if eventHandler != nil {
		eventHandler(value)
	}
	if !f.shouldRetain(key) {
		return nil
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.m[key] = value
	return nil
''', '''	if handle := f.getEventHandler(key); handle != nil {
		handle(value)
	}
	if f.shouldRetain(key) {
		f.mu.Lock()
		f.m[key] = value
		f.mu.Unlock()
	}
	return nil
''')]),
 ("q-apply-cmd", ALL, [(ST, '''	c := &command{
		Op:    "set",
		Key:   key,
		Value: value,
	}
	b, err := json.Marshal(c)
	if err != nil {
		return err
	}

	f := s.raft.Apply(b, s.RaftTimeout)
	return f.Error()
''', '''	return s.propose(command{Op: "set", Key: key, Value: value})
'''), (ST, '''// Delete deletes the given key.''', '''// propose has the cluster agree on a command.
func (s *RaftStore) propose(c command) error {
	b, err := json.Marshal(&c)
	if err != nil {
		return err
	}
	return s.raft.Apply(b, s.RaftTimeout).Error()
}

// Delete deletes the given key.''')]),
 ("q-raft-servers", ALL, [(ST, '''	configuration := raft.Configuration{
		Servers: []raft.Server{
			{
				ID:      raft.ServerID(s.NodeID),
				Address: raftAddress,
			},
		},
	}
	for _, peer := range s.Peers {
		configuration.Servers = append(configuration.Servers, raft.Server{
			ID:      raft.ServerID(fmt.Sprint(peer.GetID())),
			Address: raft.ServerAddress(p2pURLToRaftAddress(peer.GetAddress())),
		})
	}
	s.raft.BootstrapCluster(configuration)
''', '''	s.raft.BootstrapCluster(raft.Configuration{Servers: s.servers(raftAddress)})
'''), (ST, '''// Get returns the value''', '''// servers returns the members of the cluster
func (s *RaftStore) servers(own raft.ServerAddress) []raft.Server {
	servers := make([]raft.Server, 0, len(s.Peers)+1)
	servers = append(servers, raft.Server{ID: raft.ServerID(s.NodeID), Address: own})
	for i := range s.Peers {
		peer := s.Peers[i]
		servers = append(servers, raft.Server{
			ID:      raft.ServerID(fmt.Sprint(peer.GetID())),
			Address: raft.ServerAddress(p2pURLToRaftAddress(peer.GetAddress())),
		})
	}
	return servers
}

// Get returns the value''')]),
 ("q-transfer", ALL, [(GS, '''	leaderID := req.GetLeaderID()
	if leaderID != "" {
		for _, peer := range rpc.raftStore.Peers {
			thisPeerID := fmt.Sprint(peer.GetID())
			if thisPeerID == leaderID {
				peerRaftAddress := p2pURLToRaftAddress(peer.GetAddress())
				fmt.Printf("Transferring leadership to ID: %s - Address: %s\\n", thisPeerID, peerRaftAddress)
				f := rpc.raftStore.raft.LeadershipTransferToServer(raft.ServerID(thisPeerID), raft.ServerAddress(peerRaftAddress))
				if err := f.Error(); err != nil {
					return nil, err
				}
				return &proto.CosignerGRPCTransferLeadershipResponse{LeaderID: thisPeerID, LeaderAddress: peerRaftAddress}, nil
			}
		}
		return nil, fmt.Errorf("no peer of the leader has the ID %s", leaderID)
	}
''', '''	if leaderID := req.GetLeaderID(); leaderID != "" {
		if peer := rpc.peer(leaderID); peer != nil {
			address := p2pURLToRaftAddress(peer.GetAddress())
			fmt.Printf("Transferring leadership to ID: %s - Address: %s\\n", leaderID, address)
			f := rpc.raftStore.raft.LeadershipTransferToServer(raft.ServerID(leaderID), raft.ServerAddress(address))
			if err := f.Error(); err != nil {
				return nil, err
			}
			return &proto.CosignerGRPCTransferLeadershipResponse{LeaderID: leaderID, LeaderAddress: address}, nil
		}
		return nil, fmt.Errorf("no peer of the leader has the ID %s", leaderID)
	}
'''), (GS, '''func (rpc *GRPCServer) TransferLeadership(''', '''func (rpc *GRPCServer) peer(id string) Cosigner {
	for _, peer := range rpc.raftStore.Peers {
		if fmt.Sprint(peer.GetID()) == id {
			return peer
		}
	}
	return nil
}

func (rpc *GRPCServer) TransferLeadership(''')]),
 ("q-createshares", ALL, [(CS, '''	for idx, share := range privshares {
		out = append(out, CosignerKey{
			PubKey:       pv.PubKey,
			ShareKey:     share,
			ID:           idx + 1,
			RSAKey:       *rsaKeys[idx],
			CosignerKeys: pubKeys,
		})
	}
	return
''', '''	out = make([]CosignerKey, len(privshares))
	for i := range out {
		out[i] = newCosignerKey(i+1, pv, privshares[i], rsaKeys[i], pubKeys)
	}
	return out, nil
'''), (CS, '''// ReadPrivValidatorFile reads''', '''func newCosignerKey(
	id int, pv privval.FilePVKey, share []byte, key *rsa.PrivateKey, all []*rsa.PublicKey) CosignerKey {
	return CosignerKey{PubKey: pv.PubKey, ShareKey: share, RSAKey: *key, ID: id, CosignerKeys: all}
}

// ReadPrivValidatorFile reads'''), (CS, '''	for i := 0; i < num; i++ {
		bitSize := 4096
		rsaKey, err := rsa.GenerateKey(rand.Reader, bitSize)
		if err != nil {
			return rsaKeys, pubKeys, err
		}
		rsaKeys[i] = rsaKey
		pubKeys[i] = &rsaKey.PublicKey
	}
	return
''', '''	const bitSize = 4096
	for i := range rsaKeys {
		if rsaKeys[i], err = rsa.GenerateKey(rand.Reader, bitSize); err != nil {
			return nil, nil, err
		}
		pubKeys[i] = &rsaKeys[i].PublicKey
	}
	return rsaKeys, pubKeys, nil
''')]),
 ("q-keyjson", ALL, [(CK, '''	// unmarshal the public key bytes for each cosigner
	cosignerKey.CosignerKeys = make([]*rsa.PublicKey, 0)
	for _, bytes := range aux.CosignerKeys {
		cosignerRsaPubkey, err := x509.ParsePKCS1PublicKey(bytes)
		if err != nil {
			return err
		}
		cosignerKey.CosignerKeys = append(cosignerKey.CosignerKeys, cosignerRsaPubkey)
	}

	cosignerKey.RSAKey = *privateKey
''', '''	keys, err := parseRSAPubKeys(aux.CosignerKeys)
	if err != nil {
		return err
	}

	cosignerKey.CosignerKeys = keys
	cosignerKey.RSAKey = *privateKey
'''), (CK, '''// LoadCosignerKey loads''', '''// parseRSAPubKeys unmarshals the public key of each cosigner
func parseRSAPubKeys(encoded [][]byte) ([]*rsa.PublicKey, error) {
	keys := make([]*rsa.PublicKey, len(encoded))
	for i, bz := range encoded {
		key, err := x509.ParsePKCS1PublicKey(bz)
		if err != nil {
			return nil, err
		}
		keys[i] = key
	}
	return keys, nil
}

// LoadCosignerKey loads''')]),
 ("q-config-edit", ALL, [(CFG, '''			diff := diffSetChainNode(config.ChainNodes, argNodes)
			if len(diff) == 0 {
				return errors.New("cannot remove all chain nodes from config, please leave at least one")
			}
			// If none of the chain nodes in the args are listed in the config, just continue
			// without throwing an error, as the chain nodes in the config remain untouched.
			if err := validateChainNodes(diff); err != nil {
				return err
			}

			config.ChainNodes = diff
			if err := writeConfigFile(path.Join(home, "config.yaml"), config); err != nil {
				return err
			}
			return nil
''', '''			remaining := diffSetChainNode(config.ChainNodes, argNodes)
			switch {
			case len(remaining) == 0:
				return errors.New("cannot remove all chain nodes from config, please leave at least one")
			default:
				err = validateChainNodes(remaining)
			}
			if err != nil {
				return err
			}
			config.ChainNodes = remaining
			return writeConfigFile(path.Join(home, "config.yaml"), config)
'''), (CFG, '''			diff := diffSetCosignerPeer(argPeers, config.CosignerConfig.Peers)
			if len(diff) == 0 {
				return errors.New("no new peer nodes in args")
			}
			diff = append(config.CosignerConfig.Peers, diff...)
			if err := validateCosignerPeers(diff, config.CosignerConfig.Shares); err != nil {
				return err
			}

			config.CosignerConfig.Peers = diff
''', '''			cosignerCfg := config.CosignerConfig
			added := diffSetCosignerPeer(argPeers, cosignerCfg.Peers)
			if len(added) == 0 {
				return errors.New("no new peer nodes in args")
			}
			all := make([]CosignerPeer, 0, len(cosignerCfg.Peers)+len(added))
			all = append(all, cosignerCfg.Peers...)
			all = append(all, added...)
			if err := validateCosignerPeers(all, cosignerCfg.Shares); err != nil {
				return err
			}

			cosignerCfg.Peers = all
''')]),
 ("q-chainid", ALL, [(CFG, '''			isCosigner := config.CosignerConfig != nil
			if _, err = os.Stat(pvNewPath); !os.IsNotExist(err) {
				return fmt.Errorf("cannot move the sign state, %s already exists", pvNewPath)
			}
			if isCosigner {
				if _, err = os.Stat(shareNewPath); !os.IsNotExist(err) {
					return fmt.Errorf("cannot move the sign state, %s already exists", shareNewPath)
				}
			}
''', '''			isCosigner := config.CosignerConfig != nil
			if err = mustNotExist(pvNewPath); err != nil {
				return err
			}
			if isCosigner {
				if err = mustNotExist(shareNewPath); err != nil {
					return err
				}
			}
'''), (CFG, '''// moveBack undoes''', '''func mustNotExist(file string) error {
	if _, err := os.Stat(file); os.IsNotExist(err) {
		return nil
	}
	return fmt.Errorf("cannot move the sign state, %s already exists", file)
}

// moveBack undoes''')]),
 ("q-duplicates", ALL, [(CFG, '''	encountered := make(map[int]string)
	for _, peer := range peers {
		if _, found := encountered[peer.ShareID]; !found {
			encountered[peer.ShareID] = peer.P2PAddr
		} else {
			duplicates = append(duplicates, CosignerPeer{peer.ShareID, peer.P2PAddr})
		}
	}
	return
''', '''	seen := make(map[int]struct{}, len(peers))
	for i := range peers {
		id := peers[i].ShareID
		if _, ok := seen[id]; ok {
			duplicates = append(duplicates, peers[i])
			continue
		}
		seen[id] = struct{}{}
	}
	return duplicates
'''), (CFG, '''	for _, peer := range peers {
		if peer.ShareID < 1 || peer.ShareID > shares {
			return fmt.Errorf("peer ID %v in args is out of range, must be between 1 and %v",
				peer.ShareID, shares)
		}
	}
''', '''	for _, peer := range peers {
		if id := peer.ShareID; !(1 <= id && id <= shares) {
			return fmt.Errorf("peer ID %v in args is out of range, must be between 1 and %v", id, shares)
		}
	}
''')]),
 ("q-start-cluster", ALL, [(CC, '''			for _, cosignerConfig := range cfg.Cosigners {
				cosigner := signer.NewRemoteCosigner(cosignerConfig.ID, cosignerConfig.Address)
				cosigners = append(cosigners, cosigner)

				if cosignerConfig.ID < 1 || cosignerConfig.ID > len(key.CosignerKeys) ||
					cosignerConfig.ID > total || cosignerConfig.ID == key.ID {
					log.Fatalf("Unexpected cosigner ID %d", cosignerConfig.ID)
				}

				pubKey := key.CosignerKeys[cosignerConfig.ID-1]
				peers = append(peers, signer.CosignerPeer{
					ID:        cosigner.GetID(),
					PublicKey: *pubKey,
				})
			}
''', '''			for i := range cfg.Cosigners {
				id := cfg.Cosigners[i].ID
				known := id >= 1 && id <= len(key.CosignerKeys) && id <= total
				if !known || id == key.ID {
					log.Fatalf("Unexpected cosigner ID %d", id)
				}
				cosigners = append(cosigners, signer.NewRemoteCosigner(id, cfg.Cosigners[i].Address))
				peers = append(peers, signer.CosignerPeer{ID: id, PublicKey: *key.CosignerKeys[id-1]})
			}
''')]),
 ("q-start-checks", ALL, [(CC, '''			total := len(cfg.Cosigners) + 1
			if total > math.MaxUint8 {
				return fmt.Errorf("too many cosigners (%d)", total)
			}
			// two disjoint sets of cosigners must never both be able to sign
			if cfg.CosignerThreshold <= config.CosignerConfig.Shares/2 {
				return fmt.Errorf("threshold (%d) must be more than half of the number of shares (%d)",
					cfg.CosignerThreshold, config.CosignerConfig.Shares)
			}
			if key.ID < 1 || key.ID > total {
				return fmt.Errorf("unexpected ID %d of our key share, have %d cosigners", key.ID, total)
			}
''', '''			total := len(cfg.Cosigners) + 1
			if err := checkCluster(total, key.ID, cfg.CosignerThreshold, config.CosignerConfig.Shares); err != nil {
				return err
			}
'''), (CC, '''func StartCosignerCmd() *cobra.Command {''', '''func checkCluster(total, id, threshold, shares int) error {
	switch {
	case total > math.MaxUint8:
		return fmt.Errorf("too many cosigners (%d)", total)
	case 2*threshold <= shares:
		// two disjoint sets of cosigners must never both be able to sign
		return fmt.Errorf("threshold (%d) must be more than half of the number of shares (%d)", threshold, shares)
	case id < 1, id > total:
		return fmt.Errorf("unexpected ID %d of our key share, have %d cosigners", id, total)
	}
	return nil
}

func StartCosignerCmd() *cobra.Command {''')]),
 ("q-loadpv", ALL, [(SC, '''	info, err := os.Stat(stateFile)
	if os.IsNotExist(err) || (err == nil && info.Size() == 0) {
		return privval.LoadFilePVEmptyState(keyFile, stateFile), nil
	}
	if err != nil {
		return nil, err
	}
''', '''	switch info, err := os.Stat(stateFile); {
	case os.IsNotExist(err):
		return privval.LoadFilePVEmptyState(keyFile, stateFile), nil
	case err != nil:
		return nil, err
	case info.Size() == 0:
		return privval.LoadFilePVEmptyState(keyFile, stateFile), nil
	}
'''), (SC, '''	pv := privval.LoadFilePVEmptyState(keyFile, stateFile)
	pv.LastSignState.Height = state.Height
	pv.LastSignState.Round = int32(state.Round)
	pv.LastSignState.Step = state.Step
	pv.LastSignState.Signature = state.Signature
	pv.LastSignState.SignBytes = state.SignBytes
	return pv, nil
''', '''	pv := privval.LoadFilePVEmptyState(keyFile, stateFile)
	last := &pv.LastSignState
	last.Height, last.Round, last.Step = state.Height, int32(state.Round), state.Step
	last.SignBytes, last.Signature = state.SignBytes, state.Signature
	return pv, nil
''')]),
 ("q-stateset", ALL, [(STC, '''			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
			pv, err := signer.LoadSignState(filepath)
			if err != nil {
				return err
			}

			filepath = path.Join(stateDir, config.ChainID+"_share_sign_state.json")
			share, err := signer.LoadSignState(filepath)
			if err != nil {
				return err
			}

			height, err := strconv.ParseInt(args[0], 10, 64)
			if err != nil {
				return err
			}

			pv.EphemeralPublic, share.EphemeralPublic = nil, nil
			signState := signer.SignStateConsensus{
				Height:    height,
				Round:     0,
				Step:      0,
				Signature: nil,
				SignBytes: nil,
			}
			if err := pv.Save(signState, nil); err != nil {
				return fmt.Errorf("priv validator state: %w", err)
			}
			if err := share.Save(signState, nil); err != nil {
				return fmt.Errorf("share sign state: %w", err)
			}
			return nil
''', '''			height, err := strconv.ParseInt(args[0], 10, 64)
			if err != nil {
				return err
			}

			pv, share, err := loadStates(stateDir)
			if err != nil {
				return err
			}

			signState := signer.NewSignStateConsensus(height, 0, 0)
			pv.EphemeralPublic = nil
			if err := pv.Save(signState, nil); err != nil {
				return fmt.Errorf("priv validator state: %w", err)
			}
			share.EphemeralPublic = nil
			if err := share.Save(signState, nil); err != nil {
				return fmt.Errorf("share sign state: %w", err)
			}
			return nil
'''), (STC, '''func isRunning() bool {''', '''func loadStates(dir string) (pv, share signer.SignState, err error) {
	if pv, err = signer.LoadSignState(path.Join(dir, config.ChainID+"_priv_validator_state.json")); err != nil {
		return
	}
	share, err = signer.LoadSignState(path.Join(dir, config.ChainID+"_share_sign_state.json"))
	return
}

func isRunning() bool {''')]),
]

M = [(n, checks(es), es) for n, _, es in M]
