T="signer/threshold_validator.go"
FILT="""			if ephemeralSecretPart.DestinationID == peer.GetID() {
				for thresholdPeer := range *encryptedEphemeralSharesThresholdMap {
					if thresholdPeer.GetID() == ephemeralSecretPart.SourceID {
						// source peer is included in threshold signature, include in sharing
						peerEphemeralSecretParts = append(peerEphemeralSecretParts, ephemeralSecretPart)
						break
					}
				}
				break
			}
"""
ASM="""	for idx, shareSig := range shareSignatures {
		if len(shareSig) == 0 {
			continue
		}
		sigIds = append(sigIds, idx+1)

		// we are ok to use the share signatures - complete boolean
		// prevents future concurrent access
		shareSigs = append(shareSigs, shareSig)
	}
"""
M=[
("c29-nosrc","C29",[(T,FILT,"""			if ephemeralSecretPart.DestinationID == peer.GetID() {
				peerEphemeralSecretParts = append(peerEphemeralSecretParts, ephemeralSecretPart)
				break
			}
""")]),
("c29-swapfilter","C29",[(T,"ephemeralSecretPart.DestinationID == peer.GetID() {","ephemeralSecretPart.DestinationID == ourID {")]),
("c29-idshift","C29",[(T,"sigIds = append(sigIds, idx+1)","sigIds = append(sigIds, len(sigIds)+1+0*idx)")]),
("c29-lone","C29",[(T,ASM,"""	for idx, shareSig := range shareSignatures {
		sigIds = append(sigIds, idx+1)
		if len(shareSig) == 0 {
			continue
		}
		shareSigs = append(shareSigs, shareSig)
	}
""")]),
("c29-thr","C29",[(T,"if len(sigIds) < pv.threshold {","if len(sigIds) < pv.threshold-1 {")]),
("c29-thr2","C29",[(T,"if len(sigIds) < pv.threshold {","if len(sigIds) == 0 {")]),
("c29-eph","C29",[(T,"		*ephemeralPublic = sigRes.EphemeralPublic\n	}","	}\n	*ephemeralPublic = sigRes.EphemeralPublic")]),
("c29-slot","C29",[(T,"peerIdx := peerID - 1","peerIdx := ourID - 1")]),
("c29-err","C29",[(T,"""		pv.logger.Error("Sign error", err.Error())
		return
""","""		pv.logger.Error("Sign error", err.Error())
""")]),
("c29-part","C29",[(T,"	for peer := range encryptedEphemeralSharesThresholdMap {\n","	for _, peer := range append(pv.peers, pv.cosigner) {\n")]),
("c29-keep-index","=C29,C06",[(T,ASM,"""	for i := 0; i < len(shareSignatures); i++ {
		if s := shareSignatures[i]; len(s) > 0 {
			shareSigs = append(shareSigs, s)
			sigIds = append(sigIds, i+1)
		}
	}
""")]),
("c29-keep-helper","=C29,C06",[(T,ASM,"	sigIds, shareSigs = collectShares(shareSignatures)\n"),(T,"func waitUntilComplete","""func collectShares(shareSignatures [][]byte) (sigIds []int, shareSigs [][]byte) {
	for idx, shareSig := range shareSignatures {
		if len(shareSig) == 0 {
			continue
		}
		sigIds = append(sigIds, idx+1)
		shareSigs = append(shareSigs, shareSig)
	}
	return
}

func waitUntilComplete""")]),
("c29-keep-filter","=C29,C06",[(T,FILT,"""			if ephemeralSecretPart.DestinationID != peer.GetID() {
				continue
			}
			if isIn(*encryptedEphemeralSharesThresholdMap, ephemeralSecretPart.SourceID) {
				peerEphemeralSecretParts = append(peerEphemeralSecretParts, ephemeralSecretPart)
			}
			break
"""),(T,"func waitUntilComplete","""func isIn(m map[Cosigner][]CosignerEphemeralSecretPart, id int) bool {
	for p := range m {
		if id == p.GetID() {
			return true
		}
	}
	return false
}

func waitUntilComplete""")]),
("c29-keep-sig","=C29,C06",[(T,"""	signature := ephemeralPublic
	signature = append(signature, combinedSig...)
""","""	signature := append(ephemeralPublic, combinedSig...)
"""),(T,"""	(*shareSignatures)[peerIdx] = make([]byte, len(sigRes.Signature))
	copy((*shareSignatures)[peerIdx], sigRes.Signature)
	if peerID == ourID {
		*ephemeralPublic = sigRes.EphemeralPublic
	}
""","""	if peerID == ourID {
		*ephemeralPublic = sigRes.EphemeralPublic
	}
	(*shareSignatures)[peerIdx] = append([]byte(nil), sigRes.Signature...)
""")]),
("c29-keep-sig2","=C29,C06",[(T,"""	signature := ephemeralPublic
	signature = append(signature, combinedSig...)
""","""	signature := make([]byte, 0, 64)
	signature = append(signature, ephemeralPublic...)
	signature = append(signature, combinedSig...)
"""),(T,"""	(*shareSignatures)[peerIdx] = make([]byte, len(sigRes.Signature))
	copy((*shareSignatures)[peerIdx], sigRes.Signature)
""","""	(*shareSignatures)[peerIdx] = sigRes.Signature
""")]),
("c29-keep-idset","=C29",[(T,"""	for _, EncryptedSecrets := range *encryptedEphemeralSharesThresholdMap {
""","""	taking := make(map[int]bool)
	for p := range *encryptedEphemeralSharesThresholdMap {
		taking[p.GetID()] = true
	}
	for _, EncryptedSecrets := range *encryptedEphemeralSharesThresholdMap {
"""),(T,FILT,"""			if ephemeralSecretPart.DestinationID == peer.GetID() {
				if taking[ephemeralSecretPart.SourceID] {
					peerEphemeralSecretParts = append(peerEphemeralSecretParts, ephemeralSecretPart)
				}
				break
			}
""")]),
]
