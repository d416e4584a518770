L="signer/local_cosigner.go"; T="signer/threshold_validator.go"; SS="signer/sign_state.go"; R="signer/raft_store.go"; RE="signer/raft_events.go"; PG="signer/PvGuard.go"
LK="	cosigner.lastSignStateMutex.Lock()\n	defer cosigner.lastSignStateMutex.Unlock()\n"
BB="	pv.lastSignStateInitiatedMutex.Lock()\n	defer pv.lastSignStateInitiatedMutex.Unlock()\n"
M=[
("c22-earlyret","C22",[(L,LK+"\n	res := CosignerSignResponse{}\n	lss := cosigner.lastSignState\n\n	hrst, err := UnpackHRST(req.SignBytes)\n	if err != nil {\n		return res, err\n	}\n","	cosigner.lastSignStateMutex.Lock()\n\n	res := CosignerSignResponse{}\n	lss := cosigner.lastSignState\n\n	hrst, err := UnpackHRST(req.SignBytes)\n	if err != nil {\n		return res, err\n	}\n	defer cosigner.lastSignStateMutex.Unlock()\n")]),
("c22-peersmutex","C22",[(T,"		defer wg.Done()\n	}\n	thresholdPeersMutex.Unlock()\n","		defer wg.Done()\n		thresholdPeersMutex.Unlock()\n	}\n")]),
("c22-double","C22",[(SS,"	err := signState.GetErrorIfLessOrEqual(ssc.Height, ssc.Round, ssc.Step, nil)","	err := signState.GetErrorIfLessOrEqual(ssc.Height, ssc.Round, ssc.Step, lock)")]),
("c22-unlock2","C22",[(R,"	s.mu.Lock()\n	defer s.mu.Unlock()\n	return s.m[key], nil","	s.mu.Lock()\n	defer s.mu.Unlock()\n	v := s.m[key]\n	s.mu.Unlock()\n	return v, nil")]),
("c22-emitlocked","C22",[(T,"	// Emit last signed state to cluster\n","	pv.lastSignStateMutex.Lock()\n	defer pv.lastSignStateMutex.Unlock()\n")]),
("c22-sleeplocked","C22",[(T,"					time.Sleep(10 * time.Millisecond)\n","					pv.lastSignStateMutex.Lock()\n					time.Sleep(10 * time.Millisecond)\n					pv.lastSignStateMutex.Unlock()\n")]),
("c22-waitlocked","C22",[(T,"	if waitUntilCompleteOrTimeout(&getEphemeralWaitGroup, 4*time.Second) {","	pv.lastSignStateInitiatedMutex.Lock()\n	defer pv.lastSignStateInitiatedMutex.Unlock()\n	if waitUntilCompleteOrTimeout(&getEphemeralWaitGroup, 4*time.Second) {")]),
("c22-order","C22",[(T,"	pv.lastSignStateInitiatedMutex.Lock()\n	defer pv.lastSignStateInitiatedMutex.Unlock()\n	return &Bey","	pv.lastSignStateInitiatedMutex.Lock()\n	defer pv.lastSignStateInitiatedMutex.Unlock()\n	pv.lastSignStateMutex.Lock()\n	defer pv.lastSignStateMutex.Unlock()\n	return &Bey"),(T,"func (pv *ThresholdValidator) SaveLastSignedState(signState SignStateConsensus) error {\n","func (pv *ThresholdValidator) SaveLastSignedState(signState SignStateConsensus) error {\n	pv.lastSignStateMutex.Lock()\n	_ = pv.newBeyondBlockError(HRSKey{})\n	pv.lastSignStateMutex.Unlock()\n")]),
("c22-beyondlocked","C22",[(T,"func (pv *ThresholdValidator) SaveLastSignedStateInitiated(signState SignStateConsensus) error {\n","func (pv *ThresholdValidator) SaveLastSignedStateInitiated(signState SignStateConsensus) error {\n	pv.lastSignStateInitiatedMutex.Lock()\n	defer pv.lastSignStateInitiatedMutex.Unlock()\n	if signState.Height < 0 {\n		return pv.newBeyondBlockError(HRSKey{})\n	}\n"),(T,"Save(signState, &pv.lastSignStateInitiatedMutex)","Save(signState, nil)")]),
("c22-guardnounlock","C22",[(PG,"	pv.pvMutex.Lock()\n	defer pv.pvMutex.Unlock()\n	return pv.PrivValidator.SignVote(chainID, vote)","	pv.pvMutex.Lock()\n	if err := pv.PrivValidator.SignVote(chainID, vote); err != nil {\n		return err\n	}\n	pv.pvMutex.Unlock()\n	return nil")]),
("c22-peerlocked","C22",[(T,"	ephemeralSecretParts, err := peer.GetEphemeralSecretParts(hrst)\n	if err","	thresholdPeersMutex.Lock()\n	ephemeralSecretParts, err := peer.GetEphemeralSecretParts(hrst)\n	thresholdPeersMutex.Unlock()\n	if err")]),
("c22-sharelocked","C22",[(T,"	sigRes, err := peer.SetEph","	shareSignaturesMutex.Lock()\n	defer shareSignaturesMutex.Unlock()\n	sigRes, err := peer.SetEph"),(T,"	shareSignaturesMutex.Lock()\n	defer shareSignaturesMutex.Unlock()\n\n	peerIdx","	peerIdx")]),
("c22-applylocked","C22",[(R,"	f := s.raft.Apply(b, s.RaftTimeout)\n	return f.Error()\n}\n\n// Delete","	s.mu.Lock()\n	defer s.mu.Unlock()\n	f := s.raft.Apply(b, s.RaftTimeout)\n	return f.Error()\n}\n\n// Delete")]),
("c22-loop","C22",[(SS,"	for hrs := range signState.cache {\n","	for hrs := range signState.cache {\n		if hrs.Height == 0 {\n			lock.Lock()\n		}\n")]),
("c22-copy","C22",[(T,"	return pv.lastSignState.Save(signState, &pv.lastSignStateMutex)","	mu := pv.lastSignStateMutex\n	return pv.lastSignState.Save(signState, &mu)")]),
("c22-reset","C22",[(T,"	numPeers := len(pv.peers)\n","	pv.lastSignStateMutex = sync.Mutex{}\n	numPeers := len(pv.peers)\n")]),
("c22-forgetelse","C22",[(SS,"	if lock != nil {\n		lock.Lock()\n		defer lock.Unlock()\n	}\n	latestBlock","	if lock != nil {\n		lock.Lock()\n	}\n	latestBlock"),(SS,"		return latestBlock, &ssc\n","		if lock != nil {\n			lock.Unlock()\n		}\n		return latestBlock, &ssc\n")]),
# behaviour-preserving
("c22-k-explicit","=C22",[(R,"	s.mu.Lock()\n	defer s.mu.Unlock()\n	return s.m[key], nil","	s.mu.Lock()\n	v := s.m[key]\n	s.mu.Unlock()\n	return v, nil")]),
("c22-k-peers","=C22",[(T,"	thresholdPeersMutex.Lock()\n	if len(*enc","	thresholdPeersMutex.Lock()\n	defer thresholdPeersMutex.Unlock()\n	if len(*enc"),(T,"		defer wg.Done()\n	}\n	thresholdPeersMutex.Unlock()\n","		wg.Done()\n	}\n")]),
("c22-k-closure","=C22",[(T,"	thresholdPeersMutex.Lock()\n	encryptedEphemeralSharesThresholdMap[pv.cosigner] = ourEphemeralSecretParts.EncryptedSecrets\n	thresholdPeersMutex.Unlock()\n","	func() {\n		thresholdPeersMutex.Lock()\n		defer thresholdPeersMutex.Unlock()\n		encryptedEphemeralSharesThresholdMap[pv.cosigner] = ourEphemeralSecretParts.EncryptedSecrets\n	}()\n")]),
("c22-k-helper","=C22",[(SS,"	if lock != nil {\n		lock.Lock()\n		defer lock.Unlock()\n	}\n	latestBlock","	defer lockIf(lock)()\n	latestBlock"),(SS,"type SameHRSError struct","func lockIf(lock *sync.Mutex) func() {\n	if lock == nil {\n		return func() {}\n	}\n	lock.Lock()\n	return lock.Unlock\n}\n\ntype SameHRSError struct")]),
("c22-k-guard","=C22",[(PG,"	pv.pvMutex.Lock()\n	defer pv.pvMutex.Unlock()\n	return pv.PrivValidator.SignVote(chainID, vote)","	pv.pvMutex.Lock()\n	err := pv.PrivValidator.SignVote(chainID, vote)\n	pv.pvMutex.Unlock()\n	return err")]),
("c22-k-nested","=C22",[(T,"func (pv *ThresholdValidator) newBeyondBlockError(hrs HRSKey) *BeyondBlockError {\n","func (pv *ThresholdValidator) newBeyondBlockError(hrs HRSKey) *BeyondBlockError {\n	pv.lastSignStateMutex.Lock()\n	defer pv.lastSignStateMutex.Unlock()\n")]),
]
