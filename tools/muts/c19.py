F='cmd/horcrux/cmd/cosigner.go'
K='signer/cosigner_key_shares.go'
L='signer/local_cosigner.go'
T='signer/threshold_validator.go'
M=[
("c19-maj","C19",[(K,"threshold <= shares/2","threshold < shares/2")]),
("c19-maj2","C19",[(K,"threshold <= shares/2","threshold <= (shares-1)/2")]),
("c19-exceed","C19",[(K,"if threshold > shares ||","if threshold > shares+1 ||")]),
("c19-256","C19",[(K,"shares > math.MaxUint8 {","shares > math.MaxUint8+1 {")]),
("c19-b-zero","=C19",[(K,"if shares < 1 ||","if shares < 0 ||")]),
("c19-swap","C19",[(K,"uint8(threshold), uint8(shares))","uint8(shares), uint8(threshold))")]),
("c19-startmaj","C19",[(F,"if cfg.CosignerThreshold <= config.CosignerConfig.Shares/2 {","if cfg.CosignerThreshold < config.CosignerConfig.Shares/2 {")]),
("c19-startpeers","C19",[(F,"if cfg.CosignerThreshold <= config.CosignerConfig.Shares/2 {","if cfg.CosignerThreshold <= len(cfg.Nodes)/2 {")]),
("c19-total","C19",[(F,"if total > math.MaxUint8 {","if total > math.MaxUint16 {")]),
("c19-totalwrong","C19",[(F,"Total:       uint8(total),","Total:       uint8(cfg.CosignerThreshold),")]),
("c19-thrwrong","C19",[(F,"Threshold:   uint8(cfg.CosignerThreshold),","Threshold:   uint8(total - cfg.CosignerThreshold),")]),
("c19-ownid","C19",[(F,"key.ID < 1 || key.ID > total {","key.ID < 1 || key.ID > config.CosignerConfig.Shares {")]),
("c19-peerown","C19",[(F,'''cosignerConfig.ID > total || cosignerConfig.ID == key.ID {''','''cosignerConfig.ID > total {''')]),
("c19-peertotal","C19",[(F,'''cosignerConfig.ID > total || cosignerConfig.ID == key.ID {''','''cosignerConfig.ID == key.ID {''')]),
("c19-nofatal","C19",[(F,'''log.Fatalf("Unexpected cosigner ID %d", cosignerConfig.ID)''','''log.Printf("Unexpected cosigner ID %d", cosignerConfig.ID)''')]),
("c19-tvthr","C19",[(F,"				Threshold: cfg.CosignerThreshold,","				Threshold: cfg.CosignerThreshold - 1,")]),
("c19-deal","C19",[(L,"cosigner.threshold, cosigner.total)","cosigner.threshold, uint8(len(cosigner.peers)))")]),
("c19-thrtotal","C19",[("cmd/horcrux/cmd/config.go","	if len(cfg.CosignerConfig.Peers)+1 < cfg.CosignerConfig.Threshold {","	if len(cfg.CosignerConfig.Peers)+1 < cfg.CosignerConfig.Threshold-1 {")]),
("c19-b-helper","=C19",[(K,'''	if threshold > shares || threshold <= shares/2 {
		return nil, fmt.Errorf(''','''	if !safeThreshold(threshold, shares) {
		return nil, fmt.Errorf('''),(K,'''// ReadPrivValidatorFile''','''func safeThreshold(threshold, shares int64) bool {
	return threshold <= shares && 2*threshold > shares
}

// ReadPrivValidatorFile''')]),
("c19-b-check","=C19",[(F,'''			if cfg.CosignerThreshold <= config.CosignerConfig.Shares/2 {
				return''','''			shares := config.CosignerConfig.Shares
			if half := shares / 2; half >= cfg.CosignerThreshold {
				return''')]),
("c19-b-peersfirst","=C19",[(F,'''				cosigner := signer.NewRemoteCosigner(cosignerConfig.ID, cosignerConfig.Address)
				cosigners = append(cosigners, cosigner)

				if cosignerConfig.ID''','''				if cosignerConfig.ID'''),(F,'''				pubKey := key.CosignerKeys[cosignerConfig.ID-1]
				peers = append(peers, signer.CosignerPeer{
					ID:        cosigner.GetID(),
''','''				cosigner := signer.NewRemoteCosigner(cosignerConfig.ID, cosignerConfig.Address)
				cosigners = append(cosigners, cosigner)

				pubKey := key.CosignerKeys[cosignerConfig.ID-1]
				peers = append(peers, signer.CosignerPeer{
					ID:        cosignerConfig.ID,
''')]),
("c19-b-rangehelper","=C19",[(F,'''				if cosignerConfig.ID < 1 || cosignerConfig.ID > len(key.CosignerKeys) ||
					cosignerConfig.ID > total || cosignerConfig.ID == key.ID {''','''				if !isPeerID(cosignerConfig.ID, total, key) {'''),(F,'''func StartCosignerCmd()''','''func isPeerID(id, total int, key signer.CosignerKey) bool {
	if id == key.ID {
		return false
	}
	return id >= 1 && id <= total && id <= len(key.CosignerKeys)
}

func StartCosignerCmd()''')]),
("c19-b-numpeers","=C19",[(T,'''	numPeers := len(pv.peers)
	total := uint8(numPeers + 1)''','''	total := uint8(1 + len(pv.peers))''')]),
("c19-b-idx","=C19",[(F,'''			for _, cosignerConfig := range cfg.Cosigners {
''','''			for i := range cfg.Cosigners {
				cosignerConfig := cfg.Cosigners[i]
''')]),
]
