SS="signer/sign_state.go"; LC="signer/local_cosigner.go"; TV="signer/threshold_validator.go"; RE="signer/raft_events.go"; SE="signer/Serialization.go"
M=[
("f01-step0","C01",[(SS,"	if step < signState.Step {\n		// lower round","	if step < signState.Step && signState.Signature != nil {\n		// lower round")]),
("f01-equalkind","C01",[(SS,"		return newSameHRSError(HRSKey{Height: height, Round: round, Step: step})","		return errors.New(\"same position\")")]),
("f01-cachefirst","C01",[(SS,"	err := signState.GetErrorIfLessOrEqual(ssc.Height, ssc.Round, ssc.Step, nil)\n	if err != nil {","	signState.cache[HRSKey{Height: ssc.Height, Round: ssc.Round, Step: ssc.Step}] = ssc\n	err := signState.GetErrorIfLessOrEqual(ssc.Height, ssc.Round, ssc.Step, nil)\n	if err != nil {")]),
("f01-int32","C01",[(SS,"	if height < signState.Height {","	if int32(height) < int32(signState.Height) {"),(SS,"	if height > signState.Height {","	if int32(height) > int32(signState.Height) {")]),
("f01-keepround","C01",[(SS,"	signState.Round = ssc.Round\n","	if ssc.Round > signState.Round {\n		signState.Round = ssc.Round\n	}\n")]),
("f01-lssbytes","C01",[(LC,"	if !sameHRS {\n		// keep","	cosigner.lastSignState.SignBytes = req.SignBytes\n	if !sameHRS {\n		// keep")]),
("f01-skipsame","C01",[(SS,"	if step == signState.Step {\n		// same HRS as current\n","	if step == signState.Step && signState.SignBytes != nil {\n		// same HRS as current\n")]),
("f01-nilerr","C01",[(SS,"	err := signState.GetErrorIfLessOrEqual(ssc.Height, ssc.Round, ssc.Step, nil)\n	if err != nil {\n		return err\n	}","	err := signState.GetErrorIfLessOrEqual(ssc.Height, ssc.Round, ssc.Step, nil)\n	if err != nil {\n		if _, ok := err.(*SameHRSError); ok && ssc.Signature == nil {\n			return nil\n		}\n		return err\n	}")]),
("f02-checkround","C02",[(SS,"		if signState.Round > hrst.Round {","		if signState.Round > hrst.Round && signState.Step >= hrst.Step {")]),
("f02-stepge","C02",[(SS,"			if signState.Step > hrst.Step {","			if signState.Step > hrst.Step && signState.SignBytes != nil {")]),
("f02-nosignbytes","C02,C04",[(SS,"				return false, errors.New(\"no SignBytes found\")","				return false, nil")]),
("f02-saveerr","C02",[(LC,"		if _, isSameHRSError := err.(*SameHRSError); !isSameHRSError {\n			return res, err\n		}\n	}\n\n	// the nonce","		if _, isSameHRSError := err.(*SameHRSError); !isSameHRSError && !sameHRS {\n			return res, err\n		}\n	}\n\n	// the nonce")]),
("f02-saveonly","C02",[(LC,"	err = cosigner.lastSignState.Save(SignStateConsensus{\n		Height:    hrst.Height,\n		Round:     hrst.Round,\n		Step:      hrst.Step,","	err = cosigner.lastSignState.Save(SignStateConsensus{\n		Height:    hrst.Height,\n		Round:     hrst.Round,\n		Step:      lss.Step,")]),
("f02-unpackheight","C02",[(SE,"			return HRSTKey{vote.Height, vote.Round, CanonicalVoteToStep(&vote), vote.Timestamp.UnixNano()}, nil","			return HRSTKey{vote.Height, int64(int8(vote.Round)), CanonicalVoteToStep(&vote), vote.Timestamp.UnixNano()}, nil")]),
("f02-votestep","C02",[(SE,"			return HRSTKey{vote.Height, vote.Round, CanonicalVoteToStep(&vote), vote.Timestamp.UnixNano()}, nil","			return HRSTKey{vote.Height, vote.Round, stepPrecommit, vote.Timestamp.UnixNano()}, nil")]),
("f02-unlock","C02,C05",[(LC,"	meta, ok := cosigner.hrsMeta[hrst]\n	if !ok {\n		return res, errors.New(\"no metadata at HRS\")","	cosigner.lastSignStateMutex.Unlock()\n	cosigner.lastSignStateMutex.Lock()\n	meta, ok := cosigner.hrsMeta[hrst]\n	if !ok {\n		return res, errors.New(\"no metadata at HRS\")")]),
("f03-bg","C03",[(SS,"	signState.save()\n\n	return nil\n}","	go signState.save()\n\n	return nil\n}")]),
("f03-logerr","C03",[(SS,"	err = tempfile.WriteFileAtomic(outFile, jsonBytes, 0600)\n	if err != nil {\n		panic(err)\n	}","	err = tempfile.WriteFileAtomic(outFile, jsonBytes, 0600)\n	if err != nil {\n		fmt.Println(err)\n	}")]),
("f03-precommit","C03",[(SS,"	signState.save()\n\n	return nil\n}","	if ssc.Step != stepPropose {\n		signState.save()\n	}\n\n	return nil\n}")]),
("f03-early","C03",[(SS,"	signState.save()\n\n	return nil\n}","	return nil\n}"),(SS,"	signState.Height = ssc.Height\n	signState.Round = ssc.Round\n	signState.Step = ssc.Step\n","	signState.Height = ssc.Height\n	signState.Round = ssc.Round\n	signState.Step = ssc.Step\n	signState.save()\n")]),
("f03-rename","C03",[(SS,"	err = tempfile.WriteFileAtomic(outFile, jsonBytes, 0600)\n","	err = ioutil.WriteFile(outFile+\".tmp\", jsonBytes, 0600)\n	if err == nil {\n		err = os.Rename(outFile+\".tmp\", outFile)\n	}\n"),(SS,"	\"github.com/tendermint/tendermint/libs/tempfile\"\n","")]),
("f03-gosave","C03",[(TV,"	err = pv.lastSignState.Save(newLss, &pv.lastSignStateMutex)\n	if err != nil {\n		if _, isSameHRSError := err.(*SameHRSError); !isSameHRSError {\n			return nil, stamp, err\n		}\n	}\n","	go func() {\n		if err := pv.lastSignState.Save(newLss, &pv.lastSignStateMutex); err != nil {\n			pv.logger.Error(\"Error saving\", \"err\", err)\n		}\n	}()\n")]),
("f03-noeph","C03",[(SS,"	jsonBytes, err := tmJson.MarshalIndent(signState, \"\", \"  \")","	jsonBytes, err := tmJson.MarshalIndent(SignState{Height: signState.Height, Step: signState.Step, Signature: signState.Signature, SignBytes: signState.SignBytes}, \"\", \"  \")")]),
("f04-chainid","C04",[(SS,"	newVote.Timestamp = lastVote.Timestamp\n","	newVote.Timestamp = lastVote.Timestamp\n	newVote.ChainID = lastVote.ChainID\n")]),
("f04-pol","C04",[(SS,"	newProposal.Timestamp = lastProposal.Timestamp\n","	newProposal.Timestamp = lastProposal.Timestamp\n	newProposal.POLRound = lastProposal.POLRound\n")]),
("f04-lasterr","C04",[(SS,"		return fmt.Errorf(\"lastSignBytes cannot be unmarshalled into vote: %v\", err)","		return nil")]),
("f04-unknownstep","C04",[(SS,"	return fmt.Errorf(\"unexpected sign step: %d\", step)","	return nil")]),
("f04-nilblock","C04",[(SS,"			return errors.New(\"already signed vote with nil BlockID. refusing to sign vote on non-nil BlockID\")","			return nil")]),
("f04-precommit","C04",[(LC,"		} else if err := lss.OnlyDifferByTimestamp(req.SignBytes); err != nil {","		} else if err := lss.OnlyDifferByTimestamp(req.SignBytes); err != nil && hrst.Step != stepPropose {")]),
("f04-swap","C04",[(SS,"	return onlyDifferByTimestamp(signState.Step, signState.SignBytes, signBytes)\n}\n\nfunc (signState *SignStateConsensus)","	return onlyDifferByTimestamp(signState.Step, signBytes, signBytes)\n}\n\nfunc (signState *SignStateConsensus)")]),
("f04-prefix","C04",[(LC,"		if bytes.Equal(req.SignBytes, lss.SignBytes) {","		if bytes.HasPrefix(req.SignBytes, lss.SignBytes) {")]),
("f06-verifyafter","C06",[(TV,"	// verify the combined signature before saving to watermark\n	if !pv.pubkey.VerifySignature(signBytes, signature) {\n		return nil, stamp, errors.New(\"combined signature is not valid\")\n	}\n",""),(TV,"	return signature, stamp, nil\n}","	if !pv.pubkey.VerifySignature(signBytes, signature) {\n		return nil, stamp, errors.New(\"combined signature is not valid\")\n	}\n	return signature, stamp, nil\n}")]),
("f06-onlyfull","C06",[(TV,"	if !pv.pubkey.VerifySignature(signBytes, signature) {","	if len(sigIds) < int(total) && !pv.pubkey.VerifySignature(signBytes, signature) {")]),
("f06-log","C06",[(TV,"		return nil, stamp, errors.New(\"combined signature is not valid\")","		pv.logger.Error(\"combined signature is not valid\")")]),
("f06-witherr","C06",[(TV,"		return nil, stamp, errors.New(\"combined signature is not valid\")","		return signature, stamp, errors.New(\"combined signature is not valid\")")]),
("f06-emitbefore","C06,C13",[(TV,"	// verify the combined signature before saving to watermark\n","	if err := pv.raftStore.Emit(raftEventLSS, SignStateConsensus{Height: height, Round: round, Step: step, Signature: signature, SignBytes: signBytes}); err != nil {\n		return nil, stamp, err\n	}\n	// verify the combined signature before saving to watermark\n")]),
("f06-noteq","C06",[(TV,"		if bytes.Equal(signBytes, existingSignature.SignBytes) {","		if len(signBytes) == len(existingSignature.SignBytes) {")]),
("f06-default","C06",[(TV,"			if sameBlockErr == nil && existingSignature != nil {","			if sameBlockErr == nil {")]),
("f07-stamp","C07",[(TV,"		Timestamp: stamp.UnixNano(),\n	}\n\n	// Keep","		Timestamp: time.Now().UnixNano(),\n	}\n\n	// Keep")]),
("f07-steps","C07,C02",[(SS,"func VoteToStep(vote *tmProto.Vote) int8 {\n	switch vote.Type {\n	case tmProto.PrevoteType:\n		return stepPrevote\n	case tmProto.PrecommitType:\n		return stepPrecommit","func VoteToStep(vote *tmProto.Vote) int8 {\n	switch vote.Type {\n	case tmProto.PrevoteType:\n		return stepPrecommit\n	case tmProto.PrecommitType:\n		return stepPrevote")]),
("f07-round8","C07",[(TV,"		Round:     int64(vote.Round),","		Round:     int64(int8(vote.Round)),")]),
("f07-secs","C07",[(TV,"		Timestamp: block.Timestamp.UnixNano(),\n	}\n}","		Timestamp: block.Timestamp.Unix(),\n	}\n}")]),
("f07-valaddr","C07",[(TV,"	vote.Signature = sig\n	vote.Timestamp = stamp\n","	vote.Signature = sig\n	vote.Timestamp = stamp\n	vote.ValidatorAddress = pv.pubkey.Address()\n")]),
("f07-nowstamp","C07",[(TV,"	proposal.Signature = sig\n	proposal.Timestamp = stamp\n","	proposal.Signature = sig\n	proposal.Timestamp = stamp.Truncate(time.Millisecond)\n")]),
("f08-follower","C08",[(TV,"	if pv.raftStore.raft.State() != raft.Leader {","	if pv.raftStore.raft.State() == raft.Follower {")]),
("f08-nil","C08",[(TV,"	if pv.raftStore.raft == nil {\n		return nil, stamp, errors.New(\"raft not yet initialized\")\n	}\n","")]),
("f08-noleader","C08",[(TV,"	if pv.raftStore.raft.State() != raft.Leader {","	if pv.raftStore.raft.State() != raft.Leader && pv.raftStore.GetLeader() != \"\" {")]),
("f08-beyond","C08,C06",[(TV,"			return nil, stamp, err\n		}\n		return signRes.Signature, stamp, nil","			if sig, _, exErr := pv.getExistingBlockSignature(block); exErr == nil && sig == nil {\n				return nil, stamp, nil\n			}\n			return nil, stamp, err\n		}\n		return signRes.Signature, stamp, nil")]),
("f09-ignore","C09",[(TV,"			if !signAgain {\n				return nil, stamp, errors.New(\"timed out waiting for block signature from cluster\")\n			}","			if !signAgain {\n				pv.logger.Info(\"timed out waiting for block signature from cluster, trying again\")\n			}")]),
("f09-fall","C09",[(TV,"			return nil, existingTimestamp, pv.newBeyondBlockError(HRSKey{\n				Height: height,\n				Round:  round,\n				Step:   step,\n			})","			if _, ok := sameBlockErr.(*StillWaitingForBlockError); !ok {\n				return nil, existingTimestamp, pv.newBeyondBlockError(HRSKey{\n					Height: height,\n					Round:  round,\n					Step:   step,\n				})\n			}")]),
("f09-waiting","C09",[(TV,"	return nil, stamp, newStillWaitingForBlockError(hrs)\n}","	if latestBlock.Height+1 == height {\n		return nil, stamp, nil\n	}\n	return nil, stamp, newStillWaitingForBlockError(hrs)\n}")]),
("f09-conflict","C09,C06",[(TV,"		if err := existingSignature.OnlyDifferByTimestamp(signBytes); err != nil {\n			return nil, stamp, err\n		}","		if err := existingSignature.OnlyDifferByTimestamp(signBytes); err != nil {\n			if _, ok := err.(*ConflictingDataError); !ok {\n				return nil, stamp, err\n			}\n		}")]),
("f09-cachemiss","C09",[(SS,"	if ssc, ok := signState.cache[hrs]; ok {\n		return latestBlock, &ssc\n	}","	if ssc, ok := signState.cache[hrs]; ok {\n		return latestBlock, &ssc\n	}\n	if latestBlock == hrs {\n		return latestBlock, &SignStateConsensus{Height: hrs.Height, Round: hrs.Round, Step: hrs.Step, Signature: signState.Signature}\n	}")]),
("f09-cached-keys","C06,C09",[(SS,"	if ssc, ok := signState.cache[hrs]; ok {","	if ssc, ok := signState.cache[HRSKey{Height: hrs.Height, Round: hrs.Round, Step: stepPrecommit}]; ok {")]),
]
