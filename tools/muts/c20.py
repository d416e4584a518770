K='signer/cosigner_key.go'; S='signer/cosigner_key_shares.go'; C='cmd/horcrux/cmd/cosigner.go'; F='cmd/horcrux/cmd/key2shares.go'
M=[
("id0","C20",[(S,"ID:           idx + 1,","ID:           idx + 2,")]),
("rsa-rev","C20",[(S,"RSAKey:       *rsaKeys[idx],","RSAKey:       *rsaKeys[len(rsaKeys)-1-idx],")]),
("rsa-first","C20",[(S,"RSAKey:       *rsaKeys[idx],","RSAKey:       *rsaKeys[0],")]),
("pubs-rev","C20",[(S,"pubKeys[i] = &rsaKey.PublicKey","pubKeys[num-1-i] = &rsaKey.PublicKey")]),
("pubs-prepend","C20",[(S,"		pubKeys[i] = &rsaKey.PublicKey\n","		pubKeys = append([]*rsa.PublicKey{&rsaKey.PublicKey}, pubKeys...)\n"),(S,"	pubKeys = make([]*rsa.PublicKey, num)\n","")]),
("pubs-others","C20",[(S,"			CosignerKeys: pubKeys,","			CosignerKeys: pubKeys[1:],")]),
("name-threshold","C20",[(F,'fmt.Sprintf("private_share_%d.json", c.ID)','fmt.Sprintf("private_share_%d.json", threshold)')]),
("skip-last","C20",[(F,"for _, c := range csKeys {","for _, c := range csKeys[:threshold] {")]),
("write-err","C20",[(F,"				if err = signer.WriteCosignerShareFile(c, fmt.Sprintf(\"private_share_%d.json\", c.ID)); err != nil {\n					return err\n				}","				_ = signer.WriteCosignerShareFile(c, fmt.Sprintf(\"private_share_%d.json\", c.ID))")]),
("peer-index","C20",[(C,"pubKey := key.CosignerKeys[cosignerConfig.ID-1]","pubKey := key.CosignerKeys[len(peers)]")]),
("peer-off","C20",[(C,"pubKey := key.CosignerKeys[cosignerConfig.ID-1]","pubKey := key.CosignerKeys[cosignerConfig.ID%total]")]),
("own-pub","C20",[(C,"PublicKey: key.RSAKey.PublicKey,","PublicKey: *key.CosignerKeys[0],")]),
("byvalue","C20",[(S,"json.Marshal(&cosigner)","json.Marshal(cosigner)")]),
("tag-w","C20",[(K,'	return json.Marshal(&struct {\n		RSAKey       []byte   `json:"rsa_key"`','	return json.Marshal(&struct {\n		RSAKey       []byte   `json:"rsa_priv"`')]),
("pubs-unparsed","C20",[(K,'			if err != nil {\n				return err\n			}\n			cosignerKey.CosignerKeys','			if err != nil {\n				continue\n			}\n			cosignerKey.CosignerKeys') if False else (K,'		cosignerRsaPubkey, err := x509.ParsePKCS1PublicKey(bytes)\n		if err != nil {\n			return err\n		}','		cosignerRsaPubkey, err := x509.ParsePKCS1PublicKey(bytes)\n		if err != nil {\n			continue\n		}')]),
("load-noerr","C20",[(K,"	err = json.Unmarshal(keyJSONBytes, &pvKey)\n	if err != nil {\n		return pvKey, err\n	}","	_ = json.Unmarshal(keyJSONBytes, &pvKey)")]),
("tag-id","C20",[(K,'		CosignerKeys [][]byte `json:"rsa_pubs"`\n		*Alias\n	}{\n		Pubkey','		CosignerKeys [][]byte `json:"rsa_pubs"`\n		ID int `json:"id"`\n		*Alias\n	}{\n		Pubkey')]),
("amino-first","C20",[(K,"		pubkey = pub\n","		pubkey = pub\n		err = nil\n"),(K,"	if err != nil {\n		var pub tmEd25519.PubKey","	if len(aux.PubkeyBytes) > 0 {\n		var pub tmEd25519.PubKey")]),
("fromproto-err","C20",[(K,"		pubkey, err = tmCryptoEncoding.PubKeyFromProto(protoPubkey)\n		if err != nil {\n			return err\n		}","		pubkey, _ = tmCryptoEncoding.PubKeyFromProto(protoPubkey)")]),
("addr-mix","C20",[(C,"signer.NewRemoteCosigner(cosignerConfig.ID, cosignerConfig.Address)","signer.NewRemoteCosigner(cosignerConfig.ID, cfg.Cosigners[len(cosigners)/2].Address)")]),
# behaviour-preserving
("p-append","=C20",[(S,"	rsaKeys = make([]*rsa.PrivateKey, num)\n	pubKeys = make([]*rsa.PublicKey, num)\n",""),(S,"		rsaKeys[i] = rsaKey\n		pubKeys[i] = &rsaKey.PublicKey\n","		rsaKeys = append(rsaKeys, rsaKey)\n		pubKeys = append(pubKeys, &rsaKey.PublicKey)\n")]),
("p-append-cap","=C20",[(S,"	rsaKeys = make([]*rsa.PrivateKey, num)\n	pubKeys = make([]*rsa.PublicKey, num)\n","	rsaKeys = make([]*rsa.PrivateKey, 0, num)\n	pubKeys = make([]*rsa.PublicKey, 0, num)\n"),(S,"		rsaKeys[i] = rsaKey\n		pubKeys[i] = &rsaKey.PublicKey\n","		rsaKeys = append(rsaKeys, rsaKey)\n		pubKeys = append(pubKeys, &rsaKey.PublicKey)\n")]),
("p-out-index","=C20",[(S,"	for idx, share := range privshares {\n		out = append(out, CosignerKey{","	out = make([]CosignerKey, len(privshares))\n	for idx, share := range privshares {\n		out[idx] = CosignerKey{"),(S,"			CosignerKeys: pubKeys,\n		})","			CosignerKeys: pubKeys,\n		}")]),
("p-for","=C20",[(S,"	for idx, share := range privshares {\n","	for idx := 0; idx < len(privshares); idx++ {\n		share := privshares[idx]\n")]),
("p-id","=C20",[(S,"	for idx, share := range privshares {\n","	for idx, share := range privshares {\n		id := idx + 1\n"),(S,"ID:           idx + 1,","ID:           id,"),(S,"*rsaKeys[idx]","*rsaKeys[id-1]")]),
("p-marshal-make","=C20",[(K,"	rsaPubKeysBytes := make([][]byte, 0)\n	for _, pubKey := range cosignerKey.CosignerKeys {\n		publicBytes := x509.MarshalPKCS1PublicKey(pubKey)\n		rsaPubKeysBytes = append(rsaPubKeysBytes, publicBytes)\n	}","	rsaPubKeysBytes := make([][]byte, len(cosignerKey.CosignerKeys))\n	for i, pubKey := range cosignerKey.CosignerKeys {\n		rsaPubKeysBytes[i] = x509.MarshalPKCS1PublicKey(pubKey)\n	}")]),
("p-unmarshal-local","=C20",[(K,"	cosignerKey.CosignerKeys = make([]*rsa.PublicKey, 0)\n","	keys := make([]*rsa.PublicKey, 0, len(aux.CosignerKeys))\n"),(K,"		cosignerKey.CosignerKeys = append(cosignerKey.CosignerKeys, cosignerRsaPubkey)\n	}","		keys = append(keys, cosignerRsaPubkey)\n	}\n	cosignerKey.CosignerKeys = keys")]),
("p-helper","=C20",[(K,"	for _, bytes := range aux.CosignerKeys {\n		cosignerRsaPubkey, err := x509.ParsePKCS1PublicKey(bytes)\n		if err != nil {\n			return err\n		}\n		cosignerKey.CosignerKeys = append(cosignerKey.CosignerKeys, cosignerRsaPubkey)\n	}\n","	keys, err := parseKeys(aux.CosignerKeys)\n	if err != nil {\n		return err\n	}\n	cosignerKey.CosignerKeys = keys\n"),(K,"// LoadCosignerKey loads","func parseKeys(in [][]byte) ([]*rsa.PublicKey, error) {\n	out := make([]*rsa.PublicKey, 0)\n	for _, bz := range in {\n		k, err := x509.ParsePKCS1PublicKey(bz)\n		if err != nil {\n			return nil, err\n		}\n		out = append(out, k)\n	}\n	return out, nil\n}\n\n// LoadCosignerKey loads")]),
("p-path","=C20",[(F,"			for _, c := range csKeys {\n				if err = signer.WriteCosignerShareFile(c, fmt.Sprintf(\"private_share_%d.json\", c.ID)); err != nil {","			for i := range csKeys {\n				c := csKeys[i]\n				name := \"private_share_\" + strconv.Itoa(c.ID) + \".json\"\n				if err := signer.WriteCosignerShareFile(c, name); err != nil {")]),
("p-start","=C20",[(C,"				pubKey := key.CosignerKeys[cosignerConfig.ID-1]\n				peers = append(peers, signer.CosignerPeer{\n					ID:        cosigner.GetID(),\n					PublicKey: *pubKey,\n				})","				id := cosigner.GetID()\n				peer := signer.CosignerPeer{ID: id}\n				peer.PublicKey = *key.CosignerKeys[id-1]\n				peers = append(peers, peer)")]),
]
