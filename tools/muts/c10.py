L="signer/local_cosigner.go"
M=[
("c10-nover","C10",[(L,"		err = rsa.VerifyPSS(&peerPub, crypto.SHA256, digest[:], req.SourceSig, nil)\n		if err != nil {","		err = rsa.VerifyPSS(&peerPub, crypto.SHA256, digest[:], req.SourceSig, nil)\n		if err != nil && len(req.SourceSig) == 0 {")]),
("c10-noenc","C10",[(L,"		digestMsg.EncryptedSharePart = req.EncryptedSharePart\n","")]),
("c10-unknown","C10",[(L,"		if !ok {\n			return fmt.Errorf(\"unknown cosigner: %d\", req.SourceID)\n		}\n","		_ = ok\n")]),
("c10-slot","C10",[(L,"	meta.Peers[req.SourceID-1].Share = sharePart","	meta.Peers[req.SourceID%len(meta.Peers)].Share = sharePart")]),
("c10-pos","C10",[(L,"			Step:                           req.HRST.Step,\n			Timestamp: ","			Step:                           req.HRST.Step,\n			Timestamp: "),(L,"time.Unix(0, req.HRST.Timestamp),\n		})","time.Unix(0, req.HRST.Timestamp+1),\n		})")]),
("c10-order","C10",[(L,"	res.SourceID = cosigner.key.ID\n	res.SourceEphemeralSecretPublicKey = ourEphPublicKey\n	res.EncryptedSharePart = encrypted\n","	res.SourceID = cosigner.key.ID\n	res.SourceEphemeralSecretPublicKey = ourEphPublicKey\n"),(L,"		res.SourceSig = signature\n	}\n","		res.SourceSig = signature\n	}\n	res.EncryptedSharePart = encrypted\n")]),
("c10-keep","=C10",[(L,"		digestMsg := CosignerEphemeralSecretPart{}\n		digestMsg.SourceID = req.SourceID\n		digestMsg.SourceEphemeralSecretPublicKey = req.SourceEphemeralSecretPublicKey\n		digestMsg.EncryptedSharePart = req.EncryptedSharePart\n","		digestMsg := CosignerEphemeralSecretPart{\n			SourceID: req.SourceID,\n			EncryptedSharePart: req.EncryptedSharePart,\n			SourceEphemeralSecretPublicKey: req.SourceEphemeralSecretPublicKey,\n		}\n")]),
("c10-keep2","=C10,C12",[(L,"		err = rsa.VerifyPSS(&peerPub, crypto.SHA256, digest[:], req.SourceSig, nil)\n		if err != nil {\n			return err\n		}","		if err := verifySource(peerPub, digest, req.SourceSig); err != nil {\n			return err\n		}"),(L,"func (cosigner *LocalCosigner) dealShares(","func verifySource(pub rsa.PublicKey, digest [32]byte, sig []byte) error {\n	return rsa.VerifyPSS(&pub, crypto.SHA256, digest[:], sig, nil)\n}\n\nfunc (cosigner *LocalCosigner) dealShares(")]),
("c10-keep3","=C10,C12",[(L,"	meta.Peers[req.SourceID-1].Share = sharePart\n	meta.Peers[req.SourceID-1].EphemeralSecretPublicKey = req.SourceEphemeralSecretPublicKey\n","	meta.Peers[req.SourceID-1] = PeerMetadata{Share: sharePart, EphemeralSecretPublicKey: req.SourceEphemeralSecretPublicKey}\n")]),
("c10-keep4","=C10,C12",[(L,"	meta.Peers[req.SourceID-1].Share = sharePart\n	meta.Peers[req.SourceID-1].EphemeralSecretPublicKey = req.SourceEphemeralSecretPublicKey\n","	slot := &meta.Peers[req.SourceID-1]\n	slot.Share = sharePart\n	slot.EphemeralSecretPublicKey = req.SourceEphemeralSecretPublicKey\n")]),
]
