From 3fd0823e4e328276b91c3660823db45ab44e7584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 01/28] fix: persist the sign state before Save returns

---
 signer/sign_state.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/signer/sign_state.go b/signer/sign_state.go
index 62a66ef..1c48066 100644
--- a/signer/sign_state.go
+++ b/signer/sign_state.go
@@ -133,9 +133,9 @@ func (signState *SignState) Save(ssc SignStateConsensus, lock *sync.Mutex) error
 	signState.Step = ssc.Step
 	signState.Signature = ssc.Signature
 	signState.SignBytes = ssc.SignBytes
-	go func() {
-		signState.save()
-	}()
+	// Persist before returning: a signature must not be released before the watermark that
+	// covers it is on disk, and concurrent writers must not land out of order.
+	signState.save()
 
 	return nil
 }
-- 
2.43.0


From 77a40cc00ec4845681ff38075d19b3fbfc746073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 02/28] fix: deal ephemeral shares under the timestamp they are
 stored for

---
 signer/local_cosigner.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index 4ca652e..d97ffa0 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -440,9 +440,10 @@ func (cosigner *LocalCosigner) setEphemeralSecretPart(req CosignerSetEphemeralSe
 	// generate metadata placeholder
 	if !ok {
 		newMeta, err := cosigner.dealShares(CosignerGetEphemeralSecretPartRequest{
-			Height: req.Height,
-			Round:  req.Round,
-			Step:   req.Step,
+			Height:    req.Height,
+			Round:     req.Round,
+			Step:      req.Step,
+			Timestamp: req.Timestamp,
 		})
 
 		if err != nil {
-- 
2.43.0


From 936b64bb5791303c982d61e5852ba1f413486a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 03/28] fix: refuse to sign with a nonce that lacks our own
 ephemeral share

---
 signer/local_cosigner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index d97ffa0..d3392c9 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -191,6 +191,12 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 		return res, errors.New("no metadata at HRS")
 	}
 
+	// Our own ephemeral secret must be part of the nonce. A nonce made only of secrets that other
+	// cosigners know would reveal our key share to them.
+	if len(meta.Peers[cosigner.key.ID-1].Share) == 0 {
+		return res, errors.New("our own ephemeral share is not set at HRS")
+	}
+
 	shareParts := make([]tsed25519.Scalar, 0)
 	publicKeys := make([]tsed25519.Element, 0)
 
-- 
2.43.0


From afea010ce971da7df638262ec678b26acca9cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 04/28] fix: discard the ephemeral nonce once it has been used
 to sign

---
 signer/local_cosigner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index d3392c9..81bcdec 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -243,6 +243,9 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 		}
 	}
 
+	// the nonce is spent: never use it for another signature
+	delete(cosigner.hrsMeta, hrst)
+
 	for existingKey := range cosigner.hrsMeta {
 		// delete any HRS lower than our signed level
 		// we will not be providing parts for any lower HRS
-- 
2.43.0


From b06a2e1472d26ffc62361489dfb8159d0b72788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 05/28] fix: keep the recorded ephemeral public key paired with
 the recorded share signature

---
 signer/local_cosigner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/signer/local_cosigner.go b/signer/local_cosigner.go
index 81bcdec..af71cd8 100644
--- a/signer/local_cosigner.go
+++ b/signer/local_cosigner.go
@@ -228,7 +228,11 @@ func (cosigner *LocalCosigner) sign(req CosignerSignRequest) (CosignerSignRespon
 	sig := tsed25519.SignWithShare(
 		req.SignBytes, cosigner.key.ShareKey, ephemeralShare, cosigner.pubKeyBytes, ephemeralPublic)
 
-	cosigner.lastSignState.EphemeralPublic = ephemeralPublic
+	if !sameHRS {
+		// keep the recorded ephemeral public key paired with the recorded signature,
+		// which Save does not replace when signing again at the same HRS
+		cosigner.lastSignState.EphemeralPublic = ephemeralPublic
+	}
 	err = cosigner.lastSignState.Save(SignStateConsensus{
 		Height:    hrst.Height,
 		Round:     hrst.Round,
-- 
2.43.0


From 459d0139ca31d684c0153cd392a25d0d1e82d31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 06/28] fix: do not report success without a signature for an
 older block

---
 signer/threshold_validator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 203a6d6..70b1fe1 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -349,7 +349,7 @@ func (pv *ThresholdValidator) SignBlock(chainID string, block *Block) ([]byte, t
 			}
 		default:
 			existingSignature, existingTimestamp, sameBlockErr := pv.getExistingBlockSignature(block)
-			if sameBlockErr == nil {
+			if sameBlockErr == nil && existingSignature != nil {
 				return existingSignature, stamp, nil
 			}
 			return nil, existingTimestamp, pv.newBeyondBlockError(HRSKey{
-- 
2.43.0


From 968fc43f41d4fdbefca440afa34c2e85b311f6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 07/28] fix: do not return the signature of a different
 proposal at the same HRS

---
 signer/threshold_validator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 70b1fe1..1d610c5 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -269,8 +269,8 @@ func (pv *ThresholdValidator) getExistingBlockSignature(block *Block) ([]byte, t
 	}
 	latestBlock, existingSignature := pv.lastSignState.GetFromCache(hrs, &pv.lastSignStateMutex)
 	if existingSignature != nil {
-		// If a proposal has already been signed for this HRS, return that
-		if block.Step == stepPropose || bytes.Equal(signBytes, existingSignature.SignBytes) {
+		// If these exact bytes have already been signed for this HRS, return that
+		if bytes.Equal(signBytes, existingSignature.SignBytes) {
 			return existingSignature.Signature, block.Timestamp, nil
 		}
 		if err := existingSignature.OnlyDifferByTimestamp(signBytes); err != nil {
-- 
2.43.0


From 10629eadb42510ffe0141384becba7b781ea84b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 08/28] fix: do not replace an existing sign state that cannot
 be loaded

---
 signer/sign_state.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/signer/sign_state.go b/signer/sign_state.go
index 1c48066..b6fa3aa 100644
--- a/signer/sign_state.go
+++ b/signer/sign_state.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"os"
 	"sync"
 
 	"github.com/gogo/protobuf/proto"
@@ -266,15 +267,24 @@ func LoadSignState(filepath string) (SignState, error) {
 }
 
 // LoadOrCreateSignState loads the sign state from filepath
-// If the sign state could not be loaded, an empty sign state is initialized
-// and saved to filepath.
+// If there is no sign state at filepath (missing or empty file), an empty sign state
+// is initialized and saved to filepath.
 func LoadOrCreateSignState(filepath string) (SignState, error) {
 	existing, err := LoadSignState(filepath)
 	if err == nil {
 		return existing, nil
 	}
 
-	// There was an error loading the sign state
+	// Never replace a state that exists but could not be loaded, that would forget what was signed
+	if info, statErr := os.Stat(filepath); statErr != nil {
+		if !os.IsNotExist(statErr) {
+			return SignState{}, err
+		}
+	} else if info.Size() > 0 {
+		return SignState{}, err
+	}
+
+	// There is no sign state yet
 	// Make an empty sign state and save it
 	state := SignState{}
 	state.filePath = filepath
-- 
2.43.0


From 95a73a321e2432403e460bd7021b8d300cc77d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 09/28] fix: close the connection when the secret handshake
 fails

---
 signer/remote_signer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/signer/remote_signer.go b/signer/remote_signer.go
index 46555ab..1569e96 100644
--- a/signer/remote_signer.go
+++ b/signer/remote_signer.go
@@ -87,6 +87,7 @@ func (rs *ReconnRemoteSigner) loop() {
 			conn, err = tmP2pConn.MakeSecretConnection(netConn, rs.privKey)
 			if err != nil {
 				conn = nil
+				netConn.Close()
 				rs.Logger.Error("Secret Conn", "err", err)
 				rs.Logger.Info("Retrying", "sleep (s)", 3, "address", rs.address)
 				time.Sleep(time.Second * 3)
-- 
2.43.0


From 8a994f4e61b929600489f2f8281a213ba395afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 10/28] fix: write key share files readable by their owner only

---
 signer/cosigner_key_shares.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signer/cosigner_key_shares.go b/signer/cosigner_key_shares.go
index 7d51ab3..a714f57 100644
--- a/signer/cosigner_key_shares.go
+++ b/signer/cosigner_key_shares.go
@@ -57,7 +57,7 @@ func WriteCosignerShareFile(cosigner CosignerKey, file string) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(file, jsonBytes, 0644) //nolint
+	return ioutil.WriteFile(file, jsonBytes, 0600)
 }
 
 func makeRSAKeys(num int) (rsaKeys []*rsa.PrivateKey, pubKeys []*rsa.PublicKey, err error) {
-- 
2.43.0


From 42179d6e54de623d48b4c6cc298457f0adf0a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 11/28] fix: report the first invalid chain node instead of
 only the last one

---
 cmd/horcrux/cmd/config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 052a7ce..c33a404 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -628,7 +628,9 @@ func parseChainNodes(nodes string) (out []ChainNode) {
 
 func validateChainNodes(nodes []ChainNode) (err error) {
 	for _, n := range nodes {
-		_, err = url.Parse(n.PrivValAddr)
+		if _, err = url.Parse(n.PrivValAddr); err != nil {
+			return
+		}
 	}
 	return
 }
-- 
2.43.0


From ea3245a4288c802d0fa52793e1cc63d9dcc4a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 12/28] fix: read the initiated sign state under its mutex

---
 signer/threshold_validator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 1d610c5..7822065 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -149,6 +149,8 @@ type BeyondBlockError struct {
 func (e *BeyondBlockError) Error() string { return e.msg }
 
 func (pv *ThresholdValidator) newBeyondBlockError(hrs HRSKey) *BeyondBlockError {
+	pv.lastSignStateInitiatedMutex.Lock()
+	defer pv.lastSignStateInitiatedMutex.Unlock()
 	return &BeyondBlockError{
 		msg: fmt.Sprintf("Progress already started on block %d.%d.%d, skipping %d.%d.%d",
 			pv.lastSignStateInitiated.Height, pv.lastSignStateInitiated.Round, pv.lastSignStateInitiated.Step,
-- 
2.43.0


From 70179213c23c6c123543dabd7d8f46f78c4076f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 13/28] fix: restore the raft key-value store under its mutex

---
 signer/raft_store.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/signer/raft_store.go b/signer/raft_store.go
index 727cb28..69da0e9 100644
--- a/signer/raft_store.go
+++ b/signer/raft_store.go
@@ -329,8 +329,10 @@ func (f *fsm) Restore(rc io.ReadCloser) error {
 		return err
 	}
 
-	// Set the state from the snapshot, no lock required according to
-	// Hashicorp docs.
+	// Set the state from the snapshot. Raft does not call the other FSM methods
+	// concurrently, but Get may be reading the map.
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	f.m = o
 	return nil
 }
-- 
2.43.0


From 6d33b92a2541ad1bb84a6c2810fffc80bcbd9fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 14/28] fix: reject unknown vote types instead of panicking on
 remote input

---
 signer/Serialization.go       | 4 ++++
 signer/threshold_validator.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/signer/Serialization.go b/signer/Serialization.go
index 7cb039f..711998d 100644
--- a/signer/Serialization.go
+++ b/signer/Serialization.go
@@ -2,6 +2,7 @@ package signer
 
 import (
 	"errors"
+	"fmt"
 	"io"
 
 	"github.com/tendermint/tendermint/libs/protoio"
@@ -36,6 +37,9 @@ func UnpackHRST(signBytes []byte) (HRSTKey, error) {
 	{
 		var vote tmProto.CanonicalVote
 		if err := protoio.UnmarshalDelimited(signBytes, &vote); err == nil {
+			if vote.Type != tmProto.PrevoteType && vote.Type != tmProto.PrecommitType {
+				return HRSTKey{0, 0, 0, 0}, fmt.Errorf("unknown vote type: %v", vote.Type)
+			}
 			return HRSTKey{vote.Height, vote.Round, CanonicalVoteToStep(&vote), vote.Timestamp.UnixNano()}, nil
 		}
 	}
diff --git a/signer/threshold_validator.go b/signer/threshold_validator.go
index 7822065..037634a 100644
--- a/signer/threshold_validator.go
+++ b/signer/threshold_validator.go
@@ -91,6 +91,9 @@ func (pv *ThresholdValidator) GetPubKey() (crypto.PubKey, error) {
 // SignVote signs a canonical representation of the vote, along with the
 // chainID. Implements PrivValidator.
 func (pv *ThresholdValidator) SignVote(chainID string, vote *tmProto.Vote) error {
+	if vote.Type != tmProto.PrevoteType && vote.Type != tmProto.PrecommitType {
+		return fmt.Errorf("unknown vote type: %v", vote.Type)
+	}
 	block := &Block{
 		Height:    vote.Height,
 		Round:     int64(vote.Round),
-- 
2.43.0


From 6ec8e4a25ca0f04f116eed39ce82e7a2fc263de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 15/28] fix: start the raft store after its threshold validator
 is set

---
 cmd/horcrux/cmd/cosigner.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index f11572c..3b194d7 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -217,13 +217,8 @@ func StartCosignerCmd() *cobra.Command {
 			// RAFT node ID is the cosigner ID
 			nodeID := fmt.Sprint(key.ID)
 
-			// Start RAFT store listener
 			raftStore := signer.NewRaftStore(nodeID,
 				raftDir, cfg.ListenAddress, timeout, logger, localCosigner, cosigners)
-			if err := raftStore.Start(); err != nil {
-				log.Fatalf("Error starting raft store: %v\n", err)
-			}
-			services = append(services, raftStore)
 
 			val = signer.NewThresholdValidator(&signer.ThresholdValidatorOpt{
 				Pubkey:    key.PubKey,
@@ -237,6 +232,12 @@ func StartCosignerCmd() *cobra.Command {
 
 			raftStore.SetThresholdValidator(val.(*signer.ThresholdValidator))
 
+			// Start RAFT store listener, now that everything it serves is in place
+			if err := raftStore.Start(); err != nil {
+				log.Fatalf("Error starting raft store: %v\n", err)
+			}
+			services = append(services, raftStore)
+
 			pv = &signer.PvGuard{PrivValidator: val}
 
 			pubkey, err := pv.GetPubKey()
-- 
2.43.0


From 9e52a3c8c2dfdc7278fdb408aecaec4061caba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 16/28] fix: answer malformed sign requests with an error
 instead of crashing

---
 signer/remote_signer.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/signer/remote_signer.go b/signer/remote_signer.go
index 1569e96..604b42e 100644
--- a/signer/remote_signer.go
+++ b/signer/remote_signer.go
@@ -1,6 +1,7 @@
 package signer
 
 import (
+	"errors"
 	"fmt"
 	"net"
 	"time"
@@ -144,6 +145,12 @@ func (rs *ReconnRemoteSigner) handleSignVoteRequest(vote *tmProto.Vote) tmProtoP
 		Vote:  tmProto.Vote{},
 		Error: nil,
 	}}
+	if vote == nil || (vote.Type != tmProto.PrevoteType && vote.Type != tmProto.PrecommitType) {
+		err := errors.New("sign vote request without a prevote or precommit")
+		rs.Logger.Error("Failed to sign vote", "address", rs.address, "error", err)
+		msgSum.SignedVoteResponse.Error = getRemoteSignerError(err)
+		return tmProtoPrivval.Message{Sum: msgSum}
+	}
 	if err := rs.privVal.SignVote(rs.chainID, vote); err != nil {
 		switch typedErr := err.(type) {
 		case *BeyondBlockError:
@@ -166,6 +173,12 @@ func (rs *ReconnRemoteSigner) handleSignProposalRequest(proposal *tmProto.Propos
 			Proposal: tmProto.Proposal{},
 			Error:    nil,
 		}}
+	if proposal == nil {
+		err := errors.New("sign proposal request without a proposal")
+		rs.Logger.Error("Failed to sign proposal", "address", rs.address, "error", err)
+		msgSum.SignedProposalResponse.Error = getRemoteSignerError(err)
+		return tmProtoPrivval.Message{Sum: msgSum}
+	}
 	if err := rs.privVal.SignProposal(rs.chainID, proposal); err != nil {
 		switch typedErr := err.(type) {
 		case *BeyondBlockError:
-- 
2.43.0


From 483548f3c54248e35021e767217ef310f6c7be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 17/28] fix: report a refused or failed state set

---
 cmd/horcrux/cmd/state.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index d2ebbca..8790e39 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -114,8 +114,12 @@ func setStateCmd() *cobra.Command {
 				Signature: nil,
 				SignBytes: nil,
 			}
-			_ = pv.Save(signState, nil)
-			_ = share.Save(signState, nil)
+			if err := pv.Save(signState, nil); err != nil {
+				return fmt.Errorf("priv validator state: %w", err)
+			}
+			if err := share.Save(signState, nil); err != nil {
+				return fmt.Errorf("share sign state: %w", err)
+			}
 			return nil
 		},
 	}
-- 
2.43.0


From ff09b8e190ab76be72031b9219208a5582a7d1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 18/28] fix: let state commands work with an existing --home
 directory

---
 cmd/horcrux/cmd/state.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index 8790e39..4cda37e 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -4,7 +4,6 @@ import (
 	"encoding/base64"
 	"errors"
 	"fmt"
-	"os"
 	"os/exec"
 	"path"
 	"strconv"
@@ -40,9 +39,6 @@ func showStateCmd() *cobra.Command {
 				home, _ := homedir.Dir()
 				stateDir = path.Join(home, ".horcrux", "state")
 			}
-			if _, err := os.Stat(homeDir); !os.IsNotExist(err) {
-				return fmt.Errorf("%s is not empty, check for existing configuration and clear path before trying again", homeDir)
-			}
 
 			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
 			pv, err := signer.LoadSignState(filepath)
@@ -85,9 +81,6 @@ func setStateCmd() *cobra.Command {
 				home, _ := homedir.Dir()
 				stateDir = path.Join(home, ".horcrux", "state")
 			}
-			if _, err := os.Stat(homeDir); !os.IsNotExist(err) {
-				return fmt.Errorf("%s is not empty, check for existing configuration and clear path before trying again", homeDir)
-			}
 
 			filepath := path.Join(stateDir, config.ChainID+"_priv_validator_state.json")
 			pv, err := signer.LoadSignState(filepath)
-- 
2.43.0


From c8cc715dfcb6b26de8903797dd39168403d43bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 19/28] fix: do not count the state command itself as a running
 signer

---
 cmd/horcrux/cmd/state.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/horcrux/cmd/state.go b/cmd/horcrux/cmd/state.go
index 4cda37e..6e67174 100644
--- a/cmd/horcrux/cmd/state.go
+++ b/cmd/horcrux/cmd/state.go
@@ -4,9 +4,11 @@ import (
 	"encoding/base64"
 	"errors"
 	"fmt"
+	"os"
 	"os/exec"
 	"path"
 	"strconv"
+	"strings"
 
 	"github.com/mitchellh/go-homedir"
 	"github.com/spf13/cobra"
@@ -121,7 +123,13 @@ func setStateCmd() *cobra.Command {
 func isRunning() bool {
 	pipe := "ps -ax | pgrep horcrux"
 	bz, _ := exec.Command("bash", "-c", pipe).Output()
-	return len(bz) != 0
+	for _, pid := range strings.Fields(string(bz)) {
+		// this very command is a horcrux process too
+		if pid != strconv.Itoa(os.Getpid()) {
+			return true
+		}
+	}
+	return false
 }
 
 func printSignState(ss signer.SignState) {
-- 
2.43.0


From 23fd3f925b82e80b501049bee77a8c95e645a4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 20/28] fix: move sign states to a new chain ID without
 overwriting or splitting them

---
 cmd/horcrux/cmd/config.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index c33a404..fb2c5c1 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -501,11 +501,28 @@ func setChainIDCmd() *cobra.Command {
 			shareOldPath := path.Join(stateDir, config.ChainID+"_share_sign_state.json")
 			shareNewPath := path.Join(stateDir, args[0]+"_share_sign_state.json")
 
+			// The sign states move together or not at all, and never replace the sign state of another chain.
+			// Only cosigners have a share sign state.
+			isCosigner := config.CosignerConfig != nil
+			if _, err = os.Stat(pvNewPath); !os.IsNotExist(err) {
+				return fmt.Errorf("cannot move the sign state, %s already exists", pvNewPath)
+			}
+			if isCosigner {
+				if _, err = os.Stat(shareNewPath); !os.IsNotExist(err) {
+					return fmt.Errorf("cannot move the sign state, %s already exists", shareNewPath)
+				}
+			}
+
 			if err = os.Rename(pvOldPath, pvNewPath); err != nil {
 				return err
 			}
-			if err = os.Rename(shareOldPath, shareNewPath); err != nil {
-				return err
+			if isCosigner {
+				if err = os.Rename(shareOldPath, shareNewPath); err != nil {
+					if undoErr := os.Rename(pvNewPath, pvOldPath); undoErr != nil {
+						return fmt.Errorf("%v, and could not move %s back: %v", err, pvNewPath, undoErr)
+					}
+					return err
+				}
 			}
 
 			config.ChainID = args[0]
-- 
2.43.0


From f984f9e369c0ca5a5eeb8baa50fbd180e83c0098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 21/28] fix: validate the number of key shares and the
 threshold before dealing

---
 signer/cosigner_key_shares.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/signer/cosigner_key_shares.go b/signer/cosigner_key_shares.go
index a714f57..0ce21d7 100644
--- a/signer/cosigner_key_shares.go
+++ b/signer/cosigner_key_shares.go
@@ -4,7 +4,9 @@ import (
 	"crypto/rand"
 	"crypto/rsa"
 	"encoding/json"
+	"fmt"
 	"io/ioutil"
+	"math"
 
 	tmjson "github.com/tendermint/tendermint/libs/json"
 	"github.com/tendermint/tendermint/privval"
@@ -22,6 +24,13 @@ func CreateCosignerSharesFromFile(priv string, threshold, shares int64) ([]Cosig
 
 // CreateCosignerShares creates cosigner key objects from a privval.FilePVKey
 func CreateCosignerShares(pv privval.FilePVKey, threshold, shares int64) (out []CosignerKey, err error) {
+	if shares < 1 || shares > math.MaxUint8 {
+		return nil, fmt.Errorf("number of shares (%d) must be between 1 and %d", shares, math.MaxUint8)
+	}
+	if threshold > shares || threshold <= shares/2 {
+		return nil, fmt.Errorf("threshold (%d) must be more than half of the number of shares (%d), and not exceed it",
+			threshold, shares)
+	}
 	privshares := tsed25519.DealShares(tsed25519.ExpandSecret(pv.PrivKey.Bytes()[:32]), uint8(threshold), uint8(shares))
 	rsaKeys, pubKeys, err := makeRSAKeys(len(privshares))
 	if err != nil {
-- 
2.43.0


From 02939a2ff953ddebf37b1698fa0b84e68754816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 22/28] fix: check the threshold and the cosigner IDs before
 starting a cosigner

---
 cmd/horcrux/cmd/cosigner.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cmd/horcrux/cmd/cosigner.go b/cmd/horcrux/cmd/cosigner.go
index 3b194d7..0b7b02e 100644
--- a/cmd/horcrux/cmd/cosigner.go
+++ b/cmd/horcrux/cmd/cosigner.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"log"
+	"math"
 	"os"
 	"path"
 	"strings"
@@ -171,6 +172,19 @@ func StartCosignerCmd() *cobra.Command {
 				panic(err)
 			}
 
+			total := len(cfg.Cosigners) + 1
+			if total > math.MaxUint8 {
+				return fmt.Errorf("too many cosigners (%d)", total)
+			}
+			// two disjoint sets of cosigners must never both be able to sign
+			if cfg.CosignerThreshold <= config.CosignerConfig.Shares/2 {
+				return fmt.Errorf("threshold (%d) must be more than half of the number of shares (%d)",
+					cfg.CosignerThreshold, config.CosignerConfig.Shares)
+			}
+			if key.ID < 1 || key.ID > total {
+				return fmt.Errorf("unexpected ID %d of our key share, have %d cosigners", key.ID, total)
+			}
+
 			cosigners := []signer.Cosigner{}
 
 			// add ourselves as a peer so localcosigner can handle GetEphSecPart requests
@@ -183,7 +197,8 @@ func StartCosignerCmd() *cobra.Command {
 				cosigner := signer.NewRemoteCosigner(cosignerConfig.ID, cosignerConfig.Address)
 				cosigners = append(cosigners, cosigner)
 
-				if cosignerConfig.ID < 1 || cosignerConfig.ID > len(key.CosignerKeys) {
+				if cosignerConfig.ID < 1 || cosignerConfig.ID > len(key.CosignerKeys) ||
+					cosignerConfig.ID > total || cosignerConfig.ID == key.ID {
 					log.Fatalf("Unexpected cosigner ID %d", cosignerConfig.ID)
 				}
 
@@ -194,7 +209,6 @@ func StartCosignerCmd() *cobra.Command {
 				})
 			}
 
-			total := len(cfg.Cosigners) + 1
 			localCosignerConfig := signer.LocalCosignerConfig{
 				CosignerKey: key,
 				SignState:   &shareSignState,
-- 
2.43.0


From 7441090274c282d6675fc52d2f7b4ad545ae9cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 23/28] fix: keep the last sign state of the single signer
 across restarts

---
 cmd/horcrux/cmd/signer.go | 40 ++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/cmd/horcrux/cmd/signer.go b/cmd/horcrux/cmd/signer.go
index 58819e7..b116abc 100644
--- a/cmd/horcrux/cmd/signer.go
+++ b/cmd/horcrux/cmd/signer.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"fmt"
 	"log"
+	"math"
 	"os"
 	"path"
 
@@ -69,13 +70,10 @@ func StartSignerCmd() *cobra.Command {
 			var val types.PrivValidator
 			stateFile := path.Join(cfg.PrivValStateDir, fmt.Sprintf("%s_priv_validator_state.json", chainID))
 
-			// Triple check that this is how we will handle state file and that this behaves as intended
-			// if f, err := os.Stat(stateFile); os.IsNotExist(err) || f.Size() == 0 {
-			//  	val = privval.LoadFilePVEmptyState(cfg.PrivValKeyFile, stateFile)
-			// 	} else {
-			//  	val = privval.LoadFilePV(cfg.PrivValKeyFile, stateFile)
-			//  }
-			val = privval.LoadFilePVEmptyState(cfg.PrivValKeyFile, stateFile)
+			val, err = loadFilePV(cfg.PrivValKeyFile, stateFile)
+			if err != nil {
+				return err
+			}
 
 			pv = &signer.PvGuard{PrivValidator: val}
 
@@ -98,3 +96,31 @@ func StartSignerCmd() *cobra.Command {
 
 	return cmd
 }
+
+// loadFilePV loads the validator key together with what it last signed. Only if there is no state yet
+// does it start from an empty one, anything else would forget what was signed before a restart.
+func loadFilePV(keyFile, stateFile string) (*privval.FilePV, error) {
+	info, err := os.Stat(stateFile)
+	if os.IsNotExist(err) || (err == nil && info.Size() == 0) {
+		return privval.LoadFilePVEmptyState(keyFile, stateFile), nil
+	}
+	if err != nil {
+		return nil, err
+	}
+
+	state, err := signer.LoadSignState(stateFile)
+	if err != nil {
+		// not written by horcrux config or state, but by the FilePV itself
+		return privval.LoadFilePV(keyFile, stateFile), nil
+	}
+	if state.Round > math.MaxInt32 {
+		return nil, fmt.Errorf("round %d in %s is out of range", state.Round, stateFile)
+	}
+	pv := privval.LoadFilePVEmptyState(keyFile, stateFile)
+	pv.LastSignState.Height = state.Height
+	pv.LastSignState.Round = int32(state.Round)
+	pv.LastSignState.Step = state.Step
+	pv.LastSignState.Signature = state.Signature
+	pv.LastSignState.SignBytes = state.SignBytes
+	return pv, nil
+}
-- 
2.43.0


From 1b28ea2d9f5a2bb32b13a7e9194e532e95eea6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:21 +0000
Subject: [PATCH 24/28] fix: report a failed leadership transfer to the caller

---
 signer/cosigner_grpc_server.go | 9 +++++++--
 signer/grpc_server.go          | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/signer/cosigner_grpc_server.go b/signer/cosigner_grpc_server.go
index 8cd5c11..23baab5 100644
--- a/signer/cosigner_grpc_server.go
+++ b/signer/cosigner_grpc_server.go
@@ -77,12 +77,17 @@ func (rpc *CosignerGRPCServer) TransferLeadership(
 			if thisPeerID == leaderID {
 				peerRaftAddress := p2pURLToRaftAddress(peer.GetAddress())
 				fmt.Printf("Transferring leadership to ID: %s - Address: %s\n", thisPeerID, peerRaftAddress)
-				rpc.raftStore.raft.LeadershipTransferToServer(raft.ServerID(thisPeerID), raft.ServerAddress(peerRaftAddress))
+				f := rpc.raftStore.raft.LeadershipTransferToServer(raft.ServerID(thisPeerID), raft.ServerAddress(peerRaftAddress))
+				if err := f.Error(); err != nil {
+					return nil, err
+				}
 				return &proto.CosignerGRPCTransferLeadershipResponse{LeaderID: thisPeerID, LeaderAddress: peerRaftAddress}, nil
 			}
 		}
 	}
 	fmt.Printf("Transferring leadership to next candidate\n")
-	rpc.raftStore.raft.LeadershipTransfer()
+	if err := rpc.raftStore.raft.LeadershipTransfer().Error(); err != nil {
+		return nil, err
+	}
 	return &proto.CosignerGRPCTransferLeadershipResponse{}, nil
 }
diff --git a/signer/grpc_server.go b/signer/grpc_server.go
index e524a84..e07b8c9 100644
--- a/signer/grpc_server.go
+++ b/signer/grpc_server.go
@@ -77,12 +77,17 @@ func (rpc *GRPCServer) TransferLeadership(
 			if thisPeerID == leaderID {
 				peerRaftAddress := p2pURLToRaftAddress(peer.GetAddress())
 				fmt.Printf("Transferring leadership to ID: %s - Address: %s\n", thisPeerID, peerRaftAddress)
-				rpc.raftStore.raft.LeadershipTransferToServer(raft.ServerID(thisPeerID), raft.ServerAddress(peerRaftAddress))
+				f := rpc.raftStore.raft.LeadershipTransferToServer(raft.ServerID(thisPeerID), raft.ServerAddress(peerRaftAddress))
+				if err := f.Error(); err != nil {
+					return nil, err
+				}
 				return &proto.CosignerGRPCTransferLeadershipResponse{LeaderID: thisPeerID, LeaderAddress: peerRaftAddress}, nil
 			}
 		}
 	}
 	fmt.Printf("Transferring leadership to next candidate\n")
-	rpc.raftStore.raft.LeadershipTransfer()
+	if err := rpc.raftStore.raft.LeadershipTransfer().Error(); err != nil {
+		return nil, err
+	}
 	return &proto.CosignerGRPCTransferLeadershipResponse{}, nil
 }
-- 
2.43.0


From af7a658feb0f23901e02e2e38bd94a298734544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:27 +0000
Subject: [PATCH 25/28] fix: config peers set-shares refuses fewer than one
 share

---
 cmd/horcrux/cmd/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index fb2c5c1..83e5d49 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -593,7 +593,7 @@ func validateCosignerPeers(peers []CosignerPeer, shares int) error {
 
 	// Check that no more than {num-shares}-1 peers are in the peer list, assuming
 	// the remaining peer ID is the ID the local node is configured with.
-	if len(peers) == shares {
+	if len(peers) >= shares {
 		return fmt.Errorf("too many peers (%v+local node = %v) for the specified number of key shares (%v)",
 			len(peers), len(peers)+1, shares)
 	}
-- 
2.43.0


From 9d9f6edaaeb704c1cea350c39cb6ffcbdbd8e70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:04 +0000
Subject: [PATCH 26/28] fix: chain-id set moves the sign states back if the
 configuration cannot be written

A failed write of config.yaml left the sign states under the new chain ID while
the configuration still named the old one, so the next start of a single signer
would begin with an empty sign state.
---
 cmd/horcrux/cmd/config.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cmd/horcrux/cmd/config.go b/cmd/horcrux/cmd/config.go
index 83e5d49..fd902cb 100644
--- a/cmd/horcrux/cmd/config.go
+++ b/cmd/horcrux/cmd/config.go
@@ -518,22 +518,30 @@ func setChainIDCmd() *cobra.Command {
 			}
 			if isCosigner {
 				if err = os.Rename(shareOldPath, shareNewPath); err != nil {
-					if undoErr := os.Rename(pvNewPath, pvOldPath); undoErr != nil {
-						return fmt.Errorf("%v, and could not move %s back: %v", err, pvNewPath, undoErr)
-					}
-					return err
+					return moveBack(err, pvNewPath, pvOldPath)
 				}
 			}
 
 			config.ChainID = args[0]
 			if err = writeConfigFile(path.Join(home, "config.yaml"), config); err != nil {
-				return err
+				if isCosigner {
+					err = moveBack(err, shareNewPath, shareOldPath)
+				}
+				return moveBack(err, pvNewPath, pvOldPath)
 			}
 			return nil
 		},
 	}
 }
 
+// moveBack undoes the move of a file after err, which it returns.
+func moveBack(err error, newPath, oldPath string) error {
+	if undoErr := os.Rename(newPath, oldPath); undoErr != nil {
+		return fmt.Errorf("%v, and could not move %s back: %v", err, newPath, undoErr)
+	}
+	return err
+}
+
 type Config struct {
 	HomeDir        string          `json:"home-dir" yaml:"home-dir"`
 	PrivValKeyFile string          `json:"key-file,omitempty" yaml:"key-file,omitempty"`
-- 
2.43.0


From d9d26f11ca5e57b9d9fb6f67b6c6ca1f55cd9c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:08 +0000
Subject: [PATCH 27/28] fix: answer sign requests with a malformed block ID
 with an error instead of panicking

---
 signer/remote_signer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/signer/remote_signer.go b/signer/remote_signer.go
index 604b42e..8bf5641 100644
--- a/signer/remote_signer.go
+++ b/signer/remote_signer.go
@@ -151,6 +151,12 @@ func (rs *ReconnRemoteSigner) handleSignVoteRequest(vote *tmProto.Vote) tmProtoP
 		msgSum.SignedVoteResponse.Error = getRemoteSignerError(err)
 		return tmProtoPrivval.Message{Sum: msgSum}
 	}
+	// building the sign bytes of a malformed block ID panics
+	if _, err := tm.BlockIDFromProto(&vote.BlockID); err != nil {
+		rs.Logger.Error("Failed to sign vote", "address", rs.address, "error", err)
+		msgSum.SignedVoteResponse.Error = getRemoteSignerError(err)
+		return tmProtoPrivval.Message{Sum: msgSum}
+	}
 	if err := rs.privVal.SignVote(rs.chainID, vote); err != nil {
 		switch typedErr := err.(type) {
 		case *BeyondBlockError:
@@ -179,6 +185,12 @@ func (rs *ReconnRemoteSigner) handleSignProposalRequest(proposal *tmProto.Propos
 		msgSum.SignedProposalResponse.Error = getRemoteSignerError(err)
 		return tmProtoPrivval.Message{Sum: msgSum}
 	}
+	// building the sign bytes of a malformed block ID panics
+	if _, err := tm.BlockIDFromProto(&proposal.BlockID); err != nil {
+		rs.Logger.Error("Failed to sign proposal", "address", rs.address, "error", err)
+		msgSum.SignedProposalResponse.Error = getRemoteSignerError(err)
+		return tmProtoPrivval.Message{Sum: msgSum}
+	}
 	if err := rs.privVal.SignProposal(rs.chainID, proposal); err != nil {
 		switch typedErr := err.(type) {
 		case *BeyondBlockError:
-- 
2.43.0


From 7c7f09ddacc56535db329e9eaa1260396016ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:22 +0000
Subject: [PATCH 28/28] fix: elect moved leadership to another cosigner when
 the named one is not a peer

---
 signer/cosigner_grpc_server.go | 1 +
 signer/grpc_server.go          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/signer/cosigner_grpc_server.go b/signer/cosigner_grpc_server.go
index 23baab5..7220416 100644
--- a/signer/cosigner_grpc_server.go
+++ b/signer/cosigner_grpc_server.go
@@ -84,6 +84,7 @@ func (rpc *CosignerGRPCServer) TransferLeadership(
 				return &proto.CosignerGRPCTransferLeadershipResponse{LeaderID: thisPeerID, LeaderAddress: peerRaftAddress}, nil
 			}
 		}
+		return nil, fmt.Errorf("no peer of the leader has the ID %s", leaderID)
 	}
 	fmt.Printf("Transferring leadership to next candidate\n")
 	if err := rpc.raftStore.raft.LeadershipTransfer().Error(); err != nil {
diff --git a/signer/grpc_server.go b/signer/grpc_server.go
index e07b8c9..916ff35 100644
--- a/signer/grpc_server.go
+++ b/signer/grpc_server.go
@@ -84,6 +84,7 @@ func (rpc *GRPCServer) TransferLeadership(
 				return &proto.CosignerGRPCTransferLeadershipResponse{LeaderID: thisPeerID, LeaderAddress: peerRaftAddress}, nil
 			}
 		}
+		return nil, fmt.Errorf("no peer of the leader has the ID %s", leaderID)
 	}
 	fmt.Printf("Transferring leadership to next candidate\n")
 	if err := rpc.raftStore.raft.LeadershipTransfer().Error(); err != nil {
-- 
2.43.0

