L="signer/local_cosigner.go"
K="signer/cosigner_key_shares.go"
M=[
("c11-key","C11",[(L,"&peer.PublicKey, sharePart, nil)","&cosigner.rsaKey.PublicKey, sharePart, nil)")]),
("c11-share","C11",[(L,"sharePart := meta.DealtShares[req.ID-1]","sharePart := meta.DealtShares[cosigner.key.ID-1]")]),
("c11-dest","C11",[(L,"	res.DestinationID = req.ID\n","	res.DestinationID = res.SourceID\n")]),
("c11-plain","C11",[(L,"	res.EncryptedSharePart = encrypted\n","	res.EncryptedSharePart = sharePart\n	_ = encrypted\n")]),
("c11-err","C11",[(L,'return res, errors.New("ephemeral share is out of bounds")','return res, fmt.Errorf("ephemeral share is out of bounds: %x", ephemeralShare)')]),
("c11-errkey","C11",[(L,'return res, errors.New("no metadata at HRS")','return res, fmt.Errorf("no metadata at HRS for %v", cosigner.key)')]),
("c11-mode","C11",[(K,"jsonBytes, 0600)","jsonBytes, 0640)")]),
("c11-pub","C11",[(L,"ourEphPublicKey := tsed25519.ScalarMultiplyBase(meta.Secret)","ourEphPublicKey := tsed25519.ScalarMultiplyBase(meta.Secret)\n	if len(ourEphPublicKey) == 0 {\n		ourEphPublicKey = meta.Secret\n	}")]),
("c11-log","C11",[("cmd/horcrux/cmd/key2shares.go",'fmt.Printf("Created Share %d\\n", c.ID)','fmt.Printf("Created Share %d %v\\n", c.ID, c.ShareKey)')]),
("c11-keep","=C11",[(L,'return res, errors.New("no metadata at HRS")','return res, fmt.Errorf("no metadata at HRS for %d", cosigner.key.ID)')]),
("c11-keep2","=C11,C10",[(L,"	sharePart := meta.DealtShares[req.ID-1]\n\n	// use RSA public to encrypt user's share part\n	encrypted, err := rsa.EncryptOAEP(sha256.New(), rand.Reader, &peer.PublicKey, sharePart, nil)","	encrypted, err := encryptShare(peer, meta)"),(L,"func (cosigner *LocalCosigner) dealShares(","func encryptShare(peer CosignerPeer, meta HrsMetadata) ([]byte, error) {\n	return rsa.EncryptOAEP(sha256.New(), rand.Reader, &peer.PublicKey, meta.DealtShares[peer.ID-1], nil)\n}\n\nfunc (cosigner *LocalCosigner) dealShares(")]),
]
