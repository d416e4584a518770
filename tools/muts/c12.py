L="signer/local_cosigner.go"
M=[
("c12-nodel","C12",[(L,"	// the nonce is spent: never use it for another signature\n	delete(cosigner.hrsMeta, hrst)\n","")]),
("c12-noown","C12",[(L,"if len(meta.Peers[cosigner.key.ID-1].Share) == 0 {","if len(meta.Peers) == 0 {")]),
("c12-skipown","C12",[(L,"	for _, peer := range meta.Peers {\n		if len(peer.Share) == 0 {","	for i, peer := range meta.Peers {\n		if len(peer.Share) == 0 || i == cosigner.key.ID-1 {")]),
("c12-randerr","C12",[(L,"	if _, err := rand.Read(secret); err != nil {\n		return HrsMetadata{}, err\n	}","	_, _ = rand.Read(secret)")]),
("c12-short","C12",[(L,"secret := make([]byte, 32)","secret := make([]byte, 16)")]),
("c12-dealkey","C12",[(L,"	hrsKey := HRSTKey{\n		Height:    req.Height,\n		Round:     req.Round,\n		Step:      req.Step,\n		Timestamp: req.Timestamp.UnixNano(),","	hrsKey := HRSTKey{\n		Height:    req.Height,\n		Round:     req.Round,\n		Step:      req.Step,\n		Timestamp: req.Timestamp.Unix(),")]),
("c12-othermeta","C12",[(L,"meta, ok := cosigner.hrsMeta[hrst]\n	if !ok {\n		return res, errors.New(\"no metadata","hrst.Timestamp = 0\n	meta, ok := cosigner.hrsMeta[hrst]\n	if !ok {\n		return res, errors.New(\"no metadata")]),
("c12-dellower","C12",[(L,"	delete(cosigner.hrsMeta, hrst)\n","	if !sameHRS {\n	delete(cosigner.hrsMeta, hrst)\n}\n")]),
("c12-keep-helper","=C12,C10",[(L,"	shareParts := make([]tsed25519.Scalar, 0)\n","	shareParts := make([]tsed25519.Scalar, 0, len(meta.Peers))\n"),
  (L,"	for _, peer := range meta.Peers {\n		if len(peer.Share) == 0 {\n			continue\n		}\n		shareParts = append(shareParts, peer.Share)\n		publicKeys = append(publicKeys, peer.EphemeralSecretPublicKey)\n	}","	for i := 0; i < len(meta.Peers); i++ {\n		p := &meta.Peers[i]\n		if len(p.Share) > 0 {\n		publicKeys = append(publicKeys, p.EphemeralSecretPublicKey)\n		shareParts = append(shareParts, p.Share)\n		}\n	}")]),
("c12-keep-split","=C12,C10",[(L,"	ephemeralShare := tsed25519.AddScalars(shareParts)\n	ephemeralPublic := tsed25519.AddElements(publicKeys)\n","	ephemeralShare, ephemeralPublic := combineParts(meta)\n"),
  (L,"	shareParts := make([]tsed25519.Scalar, 0)\n	publicKeys := make([]tsed25519.Element, 0)\n\n	// calculate secret and public keys\n	for _, peer := range meta.Peers {\n		if len(peer.Share) == 0 {\n			continue\n		}\n		shareParts = append(shareParts, peer.Share)\n		publicKeys = append(publicKeys, peer.EphemeralSecretPublicKey)\n	}",""),
  (L,"func (cosigner *LocalCosigner) dealShares(","func combineParts(meta HrsMetadata) ([]byte, []byte) {\n	shareParts := make([]tsed25519.Scalar, 0)\n	publicKeys := make([]tsed25519.Element, 0)\n	for _, peer := range meta.Peers {\n		if len(peer.Share) == 0 {\n			continue\n		}\n		shareParts = append(shareParts, peer.Share)\n		publicKeys = append(publicKeys, peer.EphemeralSecretPublicKey)\n	}\n	return tsed25519.AddScalars(shareParts), tsed25519.AddElements(publicKeys)\n}\n\nfunc (cosigner *LocalCosigner) dealShares(")]),
("c12-keep-hrstkey","=C12,C10",[(L,"	hrst := HRSTKey{\n		Height:    req.Height,\n		Round:     req.Round,\n		Step:      req.Step,\n		Timestamp: req.Timestamp.UnixNano(),\n	}\n\n	meta, ok := cosigner.hrsMeta[hrst]\n	// generate metadata placeholder\n	if !ok {\n		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{\n			Height:    req.Height,\n			Round:     req.Round,\n			Step:      req.Step,\n			Timestamp: req.Timestamp,\n		})\n\n		if err != nil {\n			return res, err\n		}\n\n		meta = newMeta\n		cosigner.hrsMeta[hrst] = meta\n	}","	meta, err := cosigner.dealShares(req)\n	if err != nil {\n		return res, err\n	}\n	var ok bool")]),
("c12-keep-readfull","=C12",[(L,"	if _, err := rand.Read(secret); err != nil {","	if _, err := io.ReadFull(rand.Reader, secret); err != nil {"),(L,'	"fmt"\n','	"fmt"\n	"io"\n')]),
]
