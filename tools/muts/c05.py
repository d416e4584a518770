L="signer/local_cosigner.go"; T="signer/threshold_validator.go"; SS="signer/sign_state.go"; R="signer/raft_store.go"; RE="signer/raft_events.go"
LK="	cosigner.lastSignStateMutex.Lock()\n	defer cosigner.lastSignStateMutex.Unlock()\n"
GET="""	// protects the meta map
	cosigner.lastSignStateMutex.Lock()
	defer cosigner.lastSignStateMutex.Unlock()

	hrst := HRSTKey{
		Height:    req.Height,
		Round:     req.Round,
		Step:      req.Step,
		Timestamp: req.Timestamp.UnixNano(),
	}

	meta, ok := cosigner.hrsMeta[hrst]
"""
SLK="""	if lock != nil {
		lock.Lock()
		defer lock.Unlock()
	}

	err := signState.GetErrorIfLessOrEqual(ssc.Height, ssc.Round, ssc.Step, nil)
	if err != nil {
		return err
	}
"""
BB="	pv.lastSignStateInitiatedMutex.Lock()\n	defer pv.lastSignStateInitiatedMutex.Unlock()\n"
M=[
("c05-getnolock","C05",[(L,GET,GET.replace("	cosigner.lastSignStateMutex.Lock()\n	defer cosigner.lastSignStateMutex.Unlock()\n",""))]),
("c05-lookbeforelock","C05",[(L,"	// protects the meta map\n"+LK+"\n	hrst := HRSTKey{\n		Height:    req.Height,\n		Round:     req.Round,\n		Step:      req.Step,\n		Timestamp: req.Timestamp.UnixNano(),\n	}\n\n	meta, ok := cosigner.hrsMeta[hrst]\n	// generate metadata placeholder\n	if !ok {\n		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{\n			Height:    req.Height,\n			Round:     req.Round,\n			Step:      req.Step,\n			Timestamp: req.Timestamp,\n		})\n\n		if err != nil {\n			return err\n		}\n",
"	hrst := HRSTKey{\n		Height:    req.Height,\n		Round:     req.Round,\n		Step:      req.Step,\n		Timestamp: req.Timestamp.UnixNano(),\n	}\n\n	meta, ok := cosigner.hrsMeta[hrst]\n"+LK+"	// generate metadata placeholder\n	if !ok {\n		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{\n			Height:    req.Height,\n			Round:     req.Round,\n			Step:      req.Step,\n			Timestamp: req.Timestamp,\n		})\n\n		if err != nil {\n			return err\n		}\n")]),
("c05-signsplit","C05",[(L,"	sameHRS, err := lss.CheckHRS(hrst)\n","	sameHRS, err := lss.CheckHRS(hrst)\n	cosigner.lastSignStateMutex.Unlock()\n	cosigner.lastSignStateMutex.Lock()\n")]),
("c05-signhalf","C05",[(L,LK+"\n	res := CosignerSignResponse{}\n	lss := cosigner.lastSignState\n","	res := CosignerSignResponse{}\n	lss := cosigner.lastSignState\n"),(L,"	meta, ok := cosigner.hrsMeta[hrst]\n	if !ok {\n		return res, errors","	cosigner.lastSignStateMutex.Lock()\n	defer cosigner.lastSignStateMutex.Unlock()\n	meta, ok := cosigner.hrsMeta[hrst]\n	if !ok {\n		return res, errors")]),
("c05-savesplit","C05",[(SS,SLK,"""	err := signState.GetErrorIfLessOrEqual(ssc.Height, ssc.Round, ssc.Step, lock)
	if err != nil {
		return err
	}
	if lock != nil {
		lock.Lock()
		defer lock.Unlock()
	}
""")]),
("c05-savenil","C05",[(L,"cosigner.lastSignState.Save(signState, &cosigner.lastSignStateMutex)","cosigner.lastSignState.Save(signState, nil)")]),
("c05-pvnil","C05",[(T,"pv.lastSignState.Save(signState, &pv.lastSignStateMutex)","pv.lastSignState.Save(signState, nil)")]),
("c05-wrongmutex","C05",[(T,"pv.lastSignState.Save(newLss, &pv.lastSignStateMutex)","pv.lastSignState.Save(newLss, &pv.lastSignStateInitiatedMutex)")]),
("c05-wrongmutex2","C05",[(T,"pv.lastSignState.GetFromCache(hrs, &pv.lastSignStateMutex)","pv.lastSignState.GetFromCache(hrs, &pv.lastSignStateInitiatedMutex)")]),
("c05-cachenolock","C05",[(T,"pv.lastSignState.GetFromCache(hrs, &pv.lastSignStateMutex)","pv.lastSignState.GetFromCache(hrs, nil)")]),
("c05-beyond","C05",[(T,BB,"")]),
("c05-restorenolock","C05",[(R,"	f.mu.Lock()\n	defer f.mu.Unlock()\n	f.m = o\n","	f.m = o\n")]),
("c05-applynolock","C05",[(R,"	f.mu.Lock()\n	defer f.mu.Unlock()\n	f.m[key] = value\n","	f.m[key] = value\n")]),
("c05-getnolockkv","C05",[(R,"	s.mu.Lock()\n	defer s.mu.Unlock()\n	return s.m[key], nil","	return s.m[key], nil")]),
("c05-snapalias","C05",[(R,"	o := make(map[string]string)\n	for k, v := range f.m {\n		o[k] = v\n	}\n	return &fsmSnapshot{store: o,","	return &fsmSnapshot{store: f.m,")]),
("c05-snapearly","C05",[(R,"	f.mu.Lock()\n	defer f.mu.Unlock()\n\n	// Clone the map.\n	o := make(map[string]string)\n	for k, v := range f.m {\n		o[k] = v\n	}\n","	f.mu.Lock()\n	m := f.m\n	f.mu.Unlock()\n\n	// Clone the map.\n	o := make(map[string]string)\n	for k, v := range m {\n		o[k] = v\n	}\n")]),
("c05-localmutex","C05",[(L,LK+"\n	res := CosignerSignResponse{}","	var mu sync.Mutex\n	mu.Lock()\n	defer mu.Unlock()\n\n	res := CosignerSignResponse{}")]),
("c05-dealtwice","C05",[(L,"	// generate metadata placeholder\n	if !ok {\n		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{\n			Height:    req.Height,\n			Round:     req.Round,\n			Step:      req.Step,\n			Timestamp: req.Timestamp,\n		})\n\n		if err != nil {\n			return res, err","	// generate metadata placeholder\n	if !ok {\n		cosigner.lastSignStateMutex.Unlock()\n		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{\n			Height:    req.Height,\n			Round:     req.Round,\n			Step:      req.Step,\n			Timestamp: req.Timestamp,\n		})\n		cosigner.lastSignStateMutex.Lock()\n\n		if err != nil {\n			return res, err")]),
("c05-logafter","C05",[(T,"	_ = existing","	_ = existing")] if False else [(T,'	pv.logger.Debug("I am the raft leader. Managing the sign process for this block")\n','	pv.logger.Debug("I am the raft leader. Managing the sign process for this block", "last", pv.lastSignState.Height)\n')]),
("c05-initcheck","C05",[(T,"	if err := pv.SaveLastSignedStateInitiated(NewSignStateConsensus(height, round, step)); err != nil {","	if err := pv.lastSignStateInitiated.GetErrorIfLessOrEqual(height, round, step, &pv.lastSignStateInitiatedMutex); err != nil {"),(T,"	numPeers := len(pv.peers)\n","	_ = pv.SaveLastSignedStateInitiated(NewSignStateConsensus(height, round, step))\n	numPeers := len(pv.peers)\n")]),
("c05-grpcread","C05",[("signer/grpc_server.go","	res, err := rpc.cosigner.SetEphemeral","	if rpc.cosigner.lastSignState.Height > req.GetHrst().GetHeight() {\n		return nil, errors.New(\"old\")\n	}\n	res, err := rpc.cosigner.SetEphemeral"),("signer/grpc_server.go","import (","import (\n	\"errors\"")]),
("c05-copyunderlock","C05",[(L,LK+"\n	res := CosignerSignResponse{}\n	lss := cosigner.lastSignState\n","	res := CosignerSignResponse{}\n	cosigner.lastSignStateMutex.Lock()\n	cp := *cosigner.lastSignState\n	lss := &cp\n	cosigner.lastSignStateMutex.Unlock()\n"),(L,"	meta, ok := cosigner.hrsMeta[hrst]\n	if !ok {\n		return res, errors","	cosigner.lastSignStateMutex.Lock()\n	defer cosigner.lastSignStateMutex.Unlock()\n	lss = cosigner.lastSignState\n	meta, ok := cosigner.hrsMeta[hrst]\n	if !ok {\n		return res, errors")]),
# behaviour-preserving
("c05-k-explicit","=C05",[(T,BB+"	return &BeyondBlockError{","	pv.lastSignStateInitiatedMutex.Lock()\n	h0, r0, s0 := pv.lastSignStateInitiated.Height, pv.lastSignStateInitiated.Round, pv.lastSignStateInitiated.Step\n	pv.lastSignStateInitiatedMutex.Unlock()\n	return &BeyondBlockError{"),(T,"			pv.lastSignStateInitiated.Height, pv.lastSignStateInitiated.Round, pv.lastSignStateInitiated.Step,\n","			h0, r0, s0,\n")]),
("c05-k-ownmutex","=C05",[(L,"	// signing is thread safe\n	lastSignStateMutex sync.Mutex","	// signing is thread safe\n	lastSignStateMutex *sync.Mutex"),(L,"		lastSignState: cfg.SignState,","		lastSignState: cfg.SignState,\n		lastSignStateMutex: &sync.Mutex{},"),(L,"Save(signState, &cosigner.lastSignStateMutex)","Save(signState, cosigner.lastSignStateMutex)")]),
("c05-k-embedded","=C05",[(R,"	mu sync.Mutex\n	m  map","	kv kvStore\n	m0  map"),(R,"type command struct","type kvStore struct {\n	mu sync.Mutex\n	m map[string]string\n}\n\ntype command struct"),(R,"		m:           make(map[string]string),","		kv:           kvStore{m: make(map[string]string)},")]+[(R,"s.mu.","s.kv.mu."),(R,"s.mu.","s.kv.mu."),(R,"s.m[key]","s.kv.m[key]")]+[(R,"f.mu.","f.kv.mu.")]*8+[(R,"range f.m ","range f.kv.m "),(R,"f.m = o","f.kv.m = o"),(R,"f.m[key] = ","f.kv.m[key] = "),(R,"delete(f.m,","delete(f.kv.m,")]),
("c05-k-rw","=C05",[(R,"	mu sync.Mutex\n","	mu sync.RWMutex\n"),(R,"	s.mu.Lock()\n	defer s.mu.Unlock()","	s.mu.RLock()\n	defer s.mu.RUnlock()")]),
("c05-k-helper","=C05",[(L,LK+"\n	res := CosignerSignResponse{}","	cosigner.lastSignStateMutex.Lock()\n	defer cosigner.lastSignStateMutex.Unlock()\n	return cosigner.signLocked(req)\n}\n\nfunc (cosigner *LocalCosigner) signLocked(req CosignerSignRequest) (CosignerSignResponse, error) {\n	res := CosignerSignResponse{}")]),
("c05-k-withlock","=C05",[(R,"	f.mu.Lock()\n	defer f.mu.Unlock()\n	delete(f.m, key)\n","	f.locked(func() { delete(f.m, key) })\n"),(R,"type fsmSnapshot struct","func (f *fsm) locked(do func()) {\n	f.mu.Lock()\n	defer f.mu.Unlock()\n	do()\n}\n\ntype fsmSnapshot struct")]),
("c05-k-snapmake","=C05",[(R,"	o := make(map[string]string)\n	for k, v := range f.m {","	o := make(map[string]string, len(f.m))\n	for k, v := range f.m {")]),
]
