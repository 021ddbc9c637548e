From 03e85bd891721de6b5df19b1eb9092e913cf2c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 01/27] fix: do not dereference routing fields missing from a
 received message

---
 common/tss.go        | 12 ++++++++----
 common/tss_helper.go |  5 +++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index 07066a5..f524c59 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -223,7 +223,7 @@ func (t *TssCommon) processInvalidMsgBlame(roundInfo string, round blame.RoundIn
 
 // updateLocal will apply the wireMsg to local keygen/keysign party
 func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
-	if wireMsg == nil || wireMsg.Routing == nil || wireMsg.Routing.From == nil {
+	if wireMsg == nil || !hasSender(wireMsg.Routing) {
 		t.logger.Warn().Msg("wire msg is nil")
 		return errors.New("invalid wireMsg")
 	}
@@ -231,9 +231,9 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 	if partyInfo == nil {
 		return nil
 	}
-	partyID, ok := partyInfo.PartyIDMap[wireMsg.Routing.From.Id]
+	_, ok := partyInfo.PartyIDMap[wireMsg.Routing.From.Id]
 	if !ok {
-		return fmt.Errorf("get message from unknown party %s", partyID.Id)
+		return fmt.Errorf("get message from unknown party %s", wireMsg.Routing.From.Id)
 	}
 
 	dataOwnerPeerID, ok := t.PartyIDtoP2PID[wireMsg.Routing.From.Id]
@@ -261,6 +261,10 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		go t.doTssJob(tssJobChan, &jobWg)
 	}
 	for _, msg := range bulkMsg {
+		if !hasSender(msg.Routing) {
+			t.logger.Error().Msg("a share in the message has no sender")
+			return errors.New("invalid share in the message")
+		}
 		data, ok := partyInfo.PartyMap.Load(msg.MsgIdentifier)
 		if !ok {
 			t.logger.Error().Msg("cannot find the party to this wired msg")
@@ -735,7 +739,7 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 	t.logger.Debug().Msg("process wire message")
 	defer t.logger.Debug().Msg("finish process wire message")
 
-	if wireMsg == nil || wireMsg.Routing == nil || wireMsg.Routing.From == nil {
+	if wireMsg == nil || !hasSender(wireMsg.Routing) {
 		t.logger.Warn().Msg("received msg invalid")
 		return errors.New("invalid wireMsg")
 	}
diff --git a/common/tss_helper.go b/common/tss_helper.go
index eaf713a..4784b91 100644
--- a/common/tss_helper.go
+++ b/common/tss_helper.go
@@ -38,6 +38,11 @@ func Contains(s []*btss.PartyID, e *btss.PartyID) bool {
 	return false
 }
 
+// hasSender checks that the routing info, which may come from the network, names a sender
+func hasSender(r *btss.MessageRouting) bool {
+	return r != nil && r.From != nil && r.From.MessageWrapper_PartyID != nil
+}
+
 func MsgToHashInt(msg []byte) (*big.Int, error) {
 	return hashToInt(msg, btcec.S256()), nil
 }
-- 
2.43.0


From 078c7ef7b544f71193a157e5b8df3fabb1b4bf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:35 +0000
Subject: [PATCH 02/27] fix: bind the shares of a batch to the verified sender
 of the message

---
 common/tss.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index f524c59..a27676e 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -265,6 +265,12 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 			t.logger.Error().Msg("a share in the message has no sender")
 			return errors.New("invalid share in the message")
 		}
+		// only the outer message is signed and checked by the committee, its shares must come from
+		// the same sender in the same way.
+		if msg.Routing.From.Id != wireMsg.Routing.From.Id || msg.Routing.IsBroadcast != wireMsg.Routing.IsBroadcast {
+			t.logger.Error().Msgf("the routing of the share does not match the message from party %s", wireMsg.Routing.From.Id)
+			return errors.New("share does not match the message routing")
+		}
 		data, ok := partyInfo.PartyMap.Load(msg.MsgIdentifier)
 		if !ok {
 			t.logger.Error().Msg("cannot find the party to this wired msg")
-- 
2.43.0


From 972fc149e44fa15bd643241ca2024bca4a8b5b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 03/27] fix: stop the share workers when a batch is rejected

---
 common/tss.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index a27676e..0779a6a 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -260,6 +260,11 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		jobWg.Add(1)
 		go t.doTssJob(tssJobChan, &jobWg)
 	}
+	// whatever happens below, the workers have to finish
+	defer func() {
+		close(tssJobChan)
+		jobWg.Wait()
+	}()
 	for _, msg := range bulkMsg {
 		if !hasSender(msg.Routing) {
 			t.logger.Error().Msg("a share in the message has no sender")
@@ -316,8 +321,6 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		job := newJob(localMsgParty, msg.WiredBulkMsgs, round.MsgIdentifier, partyID, msg.Routing.IsBroadcast)
 		tssJobChan <- job
 	}
-	close(tssJobChan)
-	jobWg.Wait()
 	return nil
 }
 
-- 
2.43.0


From e495fe97c43f86abf649754d2574fcb8f6b15432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 04/27] fix: apply a share once even if a batch repeats it

---
 common/tss.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/tss.go b/common/tss.go
index 0779a6a..710a81a 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -265,6 +265,7 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		close(tssJobChan)
 		jobWg.Wait()
 	}()
+	queued := make(map[blame.RoundInfo]bool)
 	for _, msg := range bulkMsg {
 		if !hasSender(msg.Routing) {
 			t.logger.Error().Msg("a share in the message has no sender")
@@ -298,7 +299,7 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		// here we use round + msgIdentifier as the key for the acceptedShares
 		round.MsgIdentifier = msg.MsgIdentifier
 		// if this share is duplicated, we skip this share
-		if t.blameMgr.CheckMsgDuplication(round, partyID.Id) {
+		if queued[round] || t.blameMgr.CheckMsgDuplication(round, partyID.Id) {
 			t.logger.Debug().Msgf("we received the duplicated message from party %s", partyID.Id)
 			continue
 		}
@@ -319,6 +320,7 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		}
 		t.culpritsLock.RUnlock()
 		job := newJob(localMsgParty, msg.WiredBulkMsgs, round.MsgIdentifier, partyID, msg.Routing.IsBroadcast)
+		queued[round] = true
 		tssJobChan <- job
 	}
 	return nil
-- 
2.43.0


From 31f7759ac74b85012ddd6e20bbe9385df4868543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 05/27] fix: do not record a share the local party ignored as
 accepted

---
 common/tss.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/tss.go b/common/tss.go
index 710a81a..7aa875b 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -129,12 +129,16 @@ func (t *TssCommon) doTssJob(tssJobChan chan *tssJob, jobWg *sync.WaitGroup) {
 		}
 		round.MsgIdentifier = tssjob.msgIdentifier
 
-		_, errUp := party.UpdateFromBytes(wireBytes, partyID, isBroadcast)
+		accepted, errUp := party.UpdateFromBytes(wireBytes, partyID, isBroadcast)
 		if errUp != nil {
 			err := t.processInvalidMsgBlame(round.RoundMsg, round, errUp)
 			t.logger.Error().Err(err).Msgf("fail to apply the share to tss")
 			continue
 		}
+		if !accepted {
+			t.logger.Error().Msg("the share does not belong to this tss protocol, ignored")
+			continue
+		}
 		// we need to retrieve the partylist again as others may update it once we process apply tss share
 		t.blameMgr.UpdateAcceptShare(round, partyID.Id)
 	}
-- 
2.43.0


From 0e18c4ae916948ce1b1a68703c04793b84ca1fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 06/27] fix: count confirmations of committee members only

---
 common/tss.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index 7aa875b..1348d61 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -330,6 +330,16 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 	return nil
 }
 
+// isCommitteePeer checks whether the peer is one of the members of this session
+func (t *TssCommon) isCommitteePeer(peerID string) bool {
+	for _, el := range t.PartyIDtoP2PID {
+		if el.String() == peerID {
+			return true
+		}
+	}
+	return false
+}
+
 func (t *TssCommon) checkDupAndUpdateVerMsg(bMsg *messages.BroadcastConfirmMessage, peerID string) bool {
 	localCacheItem := t.TryGetLocalCacheItem(bMsg.Key)
 	// we check whether this node has already sent the VerMsg message to avoid eclipse of others VerMsg
@@ -366,6 +376,9 @@ func (t *TssCommon) ProcessOneMessage(wrappedMsg *messages.WrappedMessage, peerI
 		if err := json.Unmarshal(wrappedMsg.Payload, &bMsg); nil != err {
 			return errors.New("fail to unmarshal broadcast confirm message")
 		}
+		if !t.isCommitteePeer(peerID) {
+			return fmt.Errorf("confirm message from peer %s which is not in the committee", peerID)
+		}
 		// we check whether this peer has already send us the VerMsg before update
 		ret := t.checkDupAndUpdateVerMsg(&bMsg, peerID)
 		if ret {
-- 
2.43.0


From 0ce8b8bd6a00273a06142c8c22668b62e40de004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 07/27] fix: accept received signatures only if there is one
 for every message

---
 keysign/notifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keysign/notifier.go b/keysign/notifier.go
index dd4feed..6ed3507 100644
--- a/keysign/notifier.go
+++ b/keysign/notifier.go
@@ -63,6 +63,10 @@ func (n *Notifier) ProcessSignature(data []*common.ECSignature) (bool, error) {
 	// when data is nil , which means keysign  failed, there is no signature to be verified in that case
 	// for gg20, it wrap the signature R,S into ECSignature structure
 	if len(data) != 0 {
+		// the signatures are matched to the messages by position, so we only take a complete batch
+		if len(data) != len(n.messages) {
+			return false, fmt.Errorf("expect %d signatures, received %d", len(n.messages), len(data))
+		}
 
 		for i := 0; i < len(data); i++ {
 			eachSig := data[i]
-- 
2.43.0


From ce61441fd7b8481a25b6cfab742d6b7396c4b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 08/27] fix: do not dereference a nil last message when keysign
 times out

---
 keysign/tss_keysign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index cd2ebe9..2b79088 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -200,6 +200,10 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 			if failReason == "" {
 				failReason = blame.TssTimeout
 			}
+			if lastMsg == nil {
+				tKeySign.logger.Error().Msg("fail to start the keysign, the last produced message of this node is none")
+				return nil, errors.New("timeout before shared message is generated")
+			}
 
 			tKeySign.tssCommonStruct.P2PPeersLock.RLock()
 			threshold, err := conversion.GetThreshold(len(tKeySign.tssCommonStruct.P2PPeers) + 1)
-- 
2.43.0


From ede3058698503c2bccf977bc55576b94f5316b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 09/27] fix: reject a keysign without messages

---
 keysign/tss_keysign.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index 2b79088..365c4c1 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -82,6 +82,9 @@ func (tKeySign *TssKeySign) startBatchSigning(keySignPartyMap *sync.Map, msgNum
 
 // signMessage
 func (tKeySign *TssKeySign) SignMessage(msgsToSign [][]byte, localStateItem storage.KeygenLocalState, parties []string) ([]*tsslibcommon.ECSignature, error) {
+	if len(msgsToSign) == 0 {
+		return nil, errors.New("no message to sign")
+	}
 	partiesID, localPartyID, err := conversion.GetParties(parties, localStateItem.LocalPartyKey)
 	if err != nil {
 		return nil, fmt.Errorf("fail to form key sign party: %w", err)
-- 
2.43.0


From be33a5a6d628bc3a9b03d90a4e61c5d84261e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 10/27] fix: report a failure to map parties to peers as an
 error

---
 keygen/tss_keygen.go   | 2 +-
 keysign/tss_keysign.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/keygen/tss_keygen.go b/keygen/tss_keygen.go
index 262509c..c9f9f52 100644
--- a/keygen/tss_keygen.go
+++ b/keygen/tss_keygen.go
@@ -98,7 +98,7 @@ func (tKeyGen *TssKeyGen) GenerateNewKey(keygenReq Request) (*bcrypto.ECPoint, e
 	err2 := conversion.SetupIDMaps(partyIDMap, blameMgr.PartyIDtoP2PID)
 	if err1 != nil || err2 != nil {
 		tKeyGen.logger.Error().Msgf("error in creating mapping between partyID and P2P ID")
-		return nil, err
+		return nil, errors.New("fail to create the mapping between partyID and P2P ID")
 	}
 	// we never run multi keygen, so the moniker is set to default empty value
 	keyGenPartyMap.Store("", keyGenParty)
diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index 365c4c1..059181b 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -127,8 +127,8 @@ func (tKeySign *TssKeySign) SignMessage(msgsToSign [][]byte, localStateItem stor
 	err1 := conversion.SetupIDMaps(partyIDMap, tKeySign.tssCommonStruct.PartyIDtoP2PID)
 	err2 := conversion.SetupIDMaps(partyIDMap, blameMgr.PartyIDtoP2PID)
 	if err1 != nil || err2 != nil {
-		tKeySign.logger.Error().Err(err).Msgf("error in creating mapping between partyID and P2P ID")
-		return nil, err
+		tKeySign.logger.Error().Msgf("error in creating mapping between partyID and P2P ID")
+		return nil, errors.New("fail to create the mapping between partyID and P2P ID")
 	}
 
 	tKeySign.tssCommonStruct.SetPartyInfo(&common.PartyInfo{
-- 
2.43.0


From 747ecb39ba57aa532f205a997fe692cce31ab34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 11/27] fix: forget the peer group once the join party with a
 leader ends

---
 p2p/party_coordinator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 4c0836a..ec66bd8 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -482,6 +482,7 @@ func (pc *PartyCoordinator) JoinPartyWithLeader(msgID string, blockHeight int64,
 	if err != nil {
 		return nil, "", err
 	}
+	defer pc.removePeerGroup(msgID)
 	if pc.host.ID().String() == leader {
 		onlines, err := pc.joinPartyLeader(msgID, peers, threshold, signChan)
 		return onlines, leader, err
-- 
2.43.0


From c3c1a408c6d5137e97fde41d43970aecddea2ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 12/27] fix: end the leaderless join party as soon as every
 peer is online

---
 p2p/party_coordinator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index ec66bd8..db298c0 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -531,7 +531,7 @@ func (pc *PartyCoordinator) JoinPartyWithRetry(msgID string, peers []string) ([]
 		defer wg.Done()
 		for {
 			select {
-			case <-peerGroup.notify:
+			case <-peerGroup.newFound:
 				pc.logger.Debug().Msg("we have found the new peer")
 				if peerGroup.getCoordinationStatus() {
 					close(done)
-- 
2.43.0


From bf93da6ed24b2cbff539733637dd317e077beafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 13/27] fix: stop waiting for peers once the leader has the
 signature

---
 p2p/party_coordinator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index db298c0..a18b3e0 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -444,6 +444,7 @@ func (pc *PartyCoordinator) joinPartyLeader(msgID string, peers []string, thresh
 				return
 			case result := <-sigChan:
 				sigNotify = result
+				return
 			}
 		}
 	}()
-- 
2.43.0


From 8ea72834b64fdc96defc4c1649d9e29ed8c75d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 14/27] fix: report a received signature instead of blaming the
 leader

---
 p2p/party_coordinator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index a18b3e0..1b5b592 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -381,6 +381,10 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 	}()
 	wg.Wait()
 
+	if sigNotify == "signature received" {
+		return nil, ErrSignReceived
+	}
+
 	if peerGroup.getLeaderResponse() == nil {
 		leaderPk, err := conversion.GetPubKeyFromPeerID(leader)
 		if err != nil {
@@ -390,10 +394,6 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 		return nil, ErrLeaderNotReady
 	}
 
-	if sigNotify == "signature received" {
-		return nil, ErrSignReceived
-	}
-
 	onlineNodes := peerGroup.getLeaderResponse().PeerIDs
 	// we trust the returned nodes returned by the leader, if tss fail, the leader
 	// also will get blamed.
-- 
2.43.0


From 733bbf2066dd1bef607d1fe5e481c8d8b51c01dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 15/27] fix: remove both join party handlers when the
 coordinator stops

---
 p2p/party_coordinator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 1b5b592..17782e7 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -61,6 +61,7 @@ func NewPartyCoordinator(host host.Host, timeout time.Duration) *PartyCoordinato
 func (pc *PartyCoordinator) Stop() {
 	defer pc.logger.Info().Msg("stop party coordinator")
 	pc.host.RemoveStreamHandler(joinPartyProtocol)
+	pc.host.RemoveStreamHandler(joinPartyProtocolWithLeader)
 	close(pc.stopChan)
 }
 
-- 
2.43.0


From 9e02d99873cf476df9c7b1fce9f428649bd138c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 16/27] fix: do not block the stream handler when the leader
 repeats its response

---
 p2p/party_coordinator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 17782e7..c0a0110 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -78,7 +78,11 @@ func (pc *PartyCoordinator) processRespMsg(respMsg *messages.JoinPartyLeaderComm
 	}
 	if remotePeer == peerGroup.leader {
 		peerGroup.setLeaderResponse(respMsg)
-		peerGroup.notify <- true
+		// the leader may repeat its response, one pending notification is all we need
+		select {
+		case peerGroup.notify <- true:
+		default:
+		}
 		err := WriteStreamWithBuffer([]byte("done"), stream)
 		if err != nil {
 			pc.logger.Error().Err(err).Msgf("fail to write the reply to peer: %s", remotePeer)
-- 
2.43.0


From 16d2dd8b506b3bf1c6d62df2f17ff24b7d2c4248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 17/27] fix: do not write the leader of a peer group that is
 already in use

---
 p2p/party_coordinator.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index c0a0110..408f572 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -338,7 +338,6 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 	if err != nil {
 		return nil, fmt.Errorf("fail to decode peer id(%s):%w", leader, err)
 	}
-	peerGroup.leader = leader
 	msg := messages.JoinPartyLeaderComm{
 		ID: msgID,
 	}
@@ -424,9 +423,6 @@ func (pc *PartyCoordinator) joinPartyLeader(msgID string, peers []string, thresh
 		pc.logger.Error().Err(err).Msg("fail to create the join party group")
 		return nil, err
 	}
-	peerGroup.peerStatusLock.Lock()
-	peerGroup.leader = pc.host.ID().String()
-	peerGroup.peerStatusLock.Unlock()
 	allPeers, err := pc.getPeerIDs(peers)
 	if err != nil {
 		pc.logger.Error().Err(err).Msg("fail to parse peer id")
-- 
2.43.0


From a15c2b648ab780869cdaf9faef304466e845e68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 18/27] fix: forget every stream that is released and none that
 is not

---
 p2p/stream_helper.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/p2p/stream_helper.go b/p2p/stream_helper.go
index 38d3759..e19e375 100644
--- a/p2p/stream_helper.go
+++ b/p2p/stream_helper.go
@@ -39,21 +39,18 @@ func NewStreamMgr() *StreamMgr {
 }
 
 func (sm *StreamMgr) ReleaseStream(msgID string) {
-	sm.streamLocker.RLock()
-	usedStreams, okStream := sm.unusedStreams[msgID]
-	unknownStreams, okUnknown := sm.unusedStreams["UNKNOWN"]
-	sm.streamLocker.RUnlock()
+	sm.streamLocker.Lock()
+	usedStreams := sm.unusedStreams[msgID]
+	unknownStreams := sm.unusedStreams["UNKNOWN"]
+	delete(sm.unusedStreams, msgID)
+	delete(sm.unusedStreams, "UNKNOWN")
+	sm.streamLocker.Unlock()
 	streams := append(usedStreams, unknownStreams...)
-	if okStream || okUnknown {
-		for _, el := range streams {
-			err := el.Reset()
-			if err != nil {
-				sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
-			}
+	for _, el := range streams {
+		err := el.Reset()
+		if err != nil {
+			sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
 		}
-		sm.streamLocker.Lock()
-		delete(sm.unusedStreams, msgID)
-		sm.streamLocker.Unlock()
 	}
 }
 
-- 
2.43.0


From 975b2772ad4fd0663fb78b3910f83753c92bcd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 19/27] fix: blame the missing shares of each message of a
 batch on its own

---
 blame/policy.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/blame/policy.go b/blame/policy.go
index a580d04..d3ea32e 100644
--- a/blame/policy.go
+++ b/blame/policy.go
@@ -135,8 +135,8 @@ func (m *Manager) TssWrongShareBlame(wiredMsg *messages.WireMessage) (string, er
 func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	acceptedShareForMsg := make(map[string][][]string)
 	var blameNodes []Node
-	var peers []string
 	isUnicast := false
+	blamed := make(map[string]bool)
 	m.acceptShareLocker.Lock()
 	for roundInfo, value := range m.acceptedShares {
 		cachedShares, ok := acceptedShareForMsg[roundInfo.MsgIdentifier]
@@ -151,11 +151,14 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	m.acceptShareLocker.Unlock()
 
 	for _, cachedShares := range acceptedShareForMsg {
+		var peers []string
+		missing := false
 		// we search from the first round to find the missing
 		for index, el := range cachedShares {
 			if len(el)+1 == len(m.PartyIDtoP2PID) {
 				continue
 			}
+			missing = true
 			// we find whether the missing share is in unicast
 			if rounds == messages.TSSKEYGENROUNDS {
 				// we are processing the keygen and if the missing shares is in second round(index=1)
@@ -181,11 +184,19 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 			}
 			break
 		}
+		// every share of this message has arrived
+		if !missing {
+			continue
+		}
 		blamePubKeys, err := m.getBlamePubKeysNotInList(peers)
 		if err != nil {
 			return nil, isUnicast, err
 		}
 		for _, el := range blamePubKeys {
+			if blamed[el] {
+				continue
+			}
+			blamed[el] = true
 			node := Node{
 				el,
 				nil,
-- 
2.43.0


From 57506b1339fe673a1dc07cef32eec15c6bde06c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 20/27] fix: recognise the culprits of a batch by their ID

---
 common/tss.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/tss.go b/common/tss.go
index 1348d61..d56baa6 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -310,7 +310,8 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 
 		partyInlist := func(el *btss.PartyID, l []*btss.PartyID) bool {
 			for _, each := range l {
-				if el == each {
+				// every message of a batch has its own copy of the party IDs
+				if el.Id == each.Id {
 					return true
 				}
 			}
-- 
2.43.0


From 3c467558b74726867a40f080524a2b5af1510266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 21/27] fix: let only the requested message use up a share
 request

---
 common/tss.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index d56baa6..3755ffe 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -417,6 +417,15 @@ func (t *TssCommon) ProcessOneMessage(wrappedMsg *messages.WrappedMessage, peerI
 			}
 			return t.processRequestMsgFromPeer([]peer.ID{decodedPeerID}, &wireMsg, false)
 		}
+		// a reply with another message must not use up the request
+		msgHash, err := conversion.BytesToHashString(wireMsg.Msg.Message)
+		if err != nil {
+			return fmt.Errorf("fail to calculate hash of the wire message: %w", err)
+		}
+		if msgHash != wireMsg.ReqHash {
+			t.logger.Error().Msgf("peer %s replies with a message we did not request", peerID)
+			return errors.New("invalid wireMsg")
+		}
 		exist := t.blameMgr.GetShareMgr().QueryAndDelete(wireMsg.ReqHash)
 		if !exist {
 			t.logger.Debug().Msg("this request does not exit, maybe already processed")
-- 
2.43.0


From 1947cb570b3cf75e5a60ed6c698b10251a29c37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 22/27] fix: access the blame under its lock

---
 blame/blame.go         | 23 +++++++++++++++++++++++
 keygen/tss_keygen.go   |  6 +++---
 keysign/tss_keysign.go |  6 +++---
 tss/keygen.go          |  4 ++--
 tss/keysign.go         |  2 +-
 5 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/blame/blame.go b/blame/blame.go
index ee7a780..c41745f 100644
--- a/blame/blame.go
+++ b/blame/blame.go
@@ -49,6 +49,29 @@ func (b *Blame) SetBlame(reason string, nodes []Node, isUnicast bool) {
 	b.BlameNodes = append(b.BlameNodes, nodes...)
 }
 
+// GetFailReason returns the reason recorded so far
+func (b *Blame) GetFailReason() string {
+	b.blameLock.RLock()
+	defer b.blameLock.RUnlock()
+	return b.FailReason
+}
+
+// SetIsUnicast records whether the blame is about a unicast message
+func (b *Blame) SetIsUnicast(isUnicast bool) {
+	b.blameLock.Lock()
+	defer b.blameLock.Unlock()
+	b.IsUnicast = isUnicast
+}
+
+// Snapshot returns a copy that no longer changes when the blame is updated
+func (b *Blame) Snapshot() Blame {
+	b.blameLock.RLock()
+	defer b.blameLock.RUnlock()
+	snapshot := NewBlame(b.FailReason, append([]Node(nil), b.BlameNodes...))
+	snapshot.IsUnicast = b.IsUnicast
+	return snapshot
+}
+
 func (b *Blame) AlreadyBlame() bool {
 	b.blameLock.RLock()
 	defer b.blameLock.RUnlock()
diff --git a/keygen/tss_keygen.go b/keygen/tss_keygen.go
index c9f9f52..ea29302 100644
--- a/keygen/tss_keygen.go
+++ b/keygen/tss_keygen.go
@@ -163,7 +163,7 @@ func (tKeyGen *TssKeyGen) processKeyGen(errChan chan struct{},
 			// we bail out after KeyGenTimeoutSeconds
 			tKeyGen.logger.Error().Msgf("fail to generate message with %s", tssConf.KeyGenTimeout.String())
 			lastMsg := blameMgr.GetLastMsg()
-			failReason := blameMgr.GetBlame().FailReason
+			failReason := blameMgr.GetBlame().GetFailReason()
 			if failReason == "" {
 				failReason = blame.TssTimeout
 			}
@@ -192,14 +192,14 @@ func (tKeyGen *TssKeyGen) processKeyGen(errChan chan struct{},
 			blameMgr.GetBlame().AddBlameNodes(blameNodesBroadcast...)
 
 			// if we cannot find the blame node, we check whether everyone send me the share
-			if len(blameMgr.GetBlame().BlameNodes) == 0 {
+			if !blameMgr.GetBlame().AlreadyBlame() {
 				blameNodesMisingShare, isUnicast, err := blameMgr.TssMissingShareBlame(messages.TSSKEYGENROUNDS)
 				if err != nil {
 					tKeyGen.logger.Error().Err(err).Msg("fail to get the node of missing share ")
 				}
 				if len(blameNodesMisingShare) > 0 && len(blameNodesMisingShare) <= threshold {
 					blameMgr.GetBlame().AddBlameNodes(blameNodesMisingShare...)
-					blameMgr.GetBlame().IsUnicast = isUnicast
+					blameMgr.GetBlame().SetIsUnicast(isUnicast)
 				}
 			}
 			return nil, blame.ErrTssTimeOut
diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index 059181b..ad1e7f4 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -199,7 +199,7 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 			// we bail out after KeySignTimeoutSeconds
 			tKeySign.logger.Error().Msgf("fail to sign message with %s", tssConf.KeySignTimeout.String())
 			lastMsg := blameMgr.GetLastMsg()
-			failReason := blameMgr.GetBlame().FailReason
+			failReason := blameMgr.GetBlame().GetFailReason()
 			if failReason == "" {
 				failReason = blame.TssTimeout
 			}
@@ -239,7 +239,7 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 			blameMgr.GetBlame().AddBlameNodes(blameNodesBroadcast...)
 
 			// if we cannot find the blame node, we check whether everyone send me the share
-			if len(blameMgr.GetBlame().BlameNodes) == 0 {
+			if !blameMgr.GetBlame().AlreadyBlame() {
 				blameNodesMisingShare, isUnicast, err := blameMgr.TssMissingShareBlame(messages.TSSKEYSIGNROUNDS)
 				if err != nil {
 					tKeySign.logger.Error().Err(err).Msg("fail to get the node of missing share ")
@@ -247,7 +247,7 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 
 				if len(blameNodesMisingShare) > 0 && len(blameNodesMisingShare) <= threshold {
 					blameMgr.GetBlame().AddBlameNodes(blameNodesMisingShare...)
-					blameMgr.GetBlame().IsUnicast = isUnicast
+					blameMgr.GetBlame().SetIsUnicast(isUnicast)
 				}
 			}
 
diff --git a/tss/keygen.go b/tss/keygen.go
index 9511ee4..3c72b21 100644
--- a/tss/keygen.go
+++ b/tss/keygen.go
@@ -114,7 +114,7 @@ func (t *TssServer) Keygen(req keygen.Request) (keygen.Response, error) {
 	if err != nil {
 		t.tssMetrics.UpdateKeyGen(keygenTime, false)
 		t.logger.Error().Err(err).Msg("err in keygen")
-		blameNodes := *blameMgr.GetBlame()
+		blameNodes := blameMgr.GetBlame().Snapshot()
 		return keygen.NewResponse("", "", common.Fail, blameNodes), err
 	} else {
 		t.tssMetrics.UpdateKeyGen(keygenTime, true)
@@ -126,7 +126,7 @@ func (t *TssServer) Keygen(req keygen.Request) (keygen.Response, error) {
 		status = common.Fail
 	}
 
-	blameNodes := *blameMgr.GetBlame()
+	blameNodes := blameMgr.GetBlame().Snapshot()
 	return keygen.NewResponse(
 		newPubKey,
 		addr.String(),
diff --git a/tss/keysign.go b/tss/keysign.go
index b82391c..4a1ad1a 100644
--- a/tss/keysign.go
+++ b/tss/keysign.go
@@ -157,7 +157,7 @@ func (t *TssServer) generateSignature(msgID string, msgsToSign [][]byte, req key
 		t.logger.Error().Err(err).Msg("err in keysign")
 		sigChan <- "signature generated"
 		t.broadcastKeysignFailure(msgID, allPeersID)
-		blameNodes := *blameMgr.GetBlame()
+		blameNodes := blameMgr.GetBlame().Snapshot()
 		return keysign.Response{
 			Status: common.Fail,
 			Blame:  blameNodes,
-- 
2.43.0


From 3aa12dbb20a161bb7c6ead81bcb4821affdaecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 23/27] fix: keep the key share readable by its owner only

---
 storage/localstate_mgr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storage/localstate_mgr.go b/storage/localstate_mgr.go
index 67f026e..6fa7e57 100644
--- a/storage/localstate_mgr.go
+++ b/storage/localstate_mgr.go
@@ -84,7 +84,8 @@ func (fsm *FileStateMgr) SaveLocalState(state KeygenLocalState) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filePathName, buf, 0o655)
+	// the state holds our share of the private key
+	return ioutil.WriteFile(filePathName, buf, 0o600)
 }
 
 // GetLocalState read the local state from file system
-- 
2.43.0


From 68f1e7d6f876e3b734ab8e42bf325d3cacb7e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 24/27] fix: keep the recovered key readable by its owner only

---
 cmd/tss-recovery/tss-recovery.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/tss-recovery/tss-recovery.go b/cmd/tss-recovery/tss-recovery.go
index 7f3adab..aded4ad 100644
--- a/cmd/tss-recovery/tss-recovery.go
+++ b/cmd/tss-recovery/tss-recovery.go
@@ -5,7 +5,6 @@ import (
 	"flag"
 	"fmt"
 	"io/ioutil"
-	"os"
 
 	"github.com/binance-chain/tss-lib/crypto/vss"
 	. "github.com/decred/dcrd/dcrec/secp256k1"
@@ -63,7 +62,7 @@ func main() {
 		}
 
 		jsonString, _ := json.Marshal(keyfile)
-		err = ioutil.WriteFile(*export, jsonString, os.ModePerm)
+		err = ioutil.WriteFile(*export, jsonString, 0o600)
 		if err != nil {
 			fmt.Printf("--->%v", err)
 		}
-- 
2.43.0


From 0b530a2b2812a6f5407f536079551a938b3d951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 25/27] fix: honour the party size and stop the recovery when a
 step fails

---
 cmd/tss-recovery/tss-recovery.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/cmd/tss-recovery/tss-recovery.go b/cmd/tss-recovery/tss-recovery.go
index aded4ad..dd46c8c 100644
--- a/cmd/tss-recovery/tss-recovery.go
+++ b/cmd/tss-recovery/tss-recovery.go
@@ -5,18 +5,24 @@ import (
 	"flag"
 	"fmt"
 	"io/ioutil"
+	"os"
 
 	"github.com/binance-chain/tss-lib/crypto/vss"
 	. "github.com/decred/dcrd/dcrec/secp256k1"
 )
 
 func main() {
-	n := *(flag.Int("n", 3, "signing party size"))
-	threshold := n - 1
+	partySize := flag.Int("n", 3, "signing party size")
 	export := flag.String("export", "", "path to export keyfile")
 	password := flag.String("password", "", "encryption password for keyfile")
 	flag.Parse()
+	n := *partySize
+	threshold := n - 1
 	files := flag.Args()
+	if n < 1 || len(files) < n {
+		fmt.Printf("need the key files of %d parties, got %d\n", n, len(files))
+		os.Exit(1)
+	}
 
 	setupBech32Prefix()
 	allSecret := make([]KeygenLocalState, len(files))
@@ -24,6 +30,7 @@ func main() {
 		tssSecret, err := getTssSecretFile(f)
 		if err != nil {
 			fmt.Printf("---%v\n", err)
+			os.Exit(1)
 		}
 		allSecret[i] = tssSecret
 	}
@@ -41,7 +48,8 @@ func main() {
 
 	tssPrivateKey, err := vssShares[:n].ReConstruct()
 	if err != nil {
-		fmt.Printf("error in tss verify")
+		fmt.Printf("error in tss verify: %v\n", err)
+		os.Exit(1)
 	}
 
 	privKey := NewPrivateKey(tssPrivateKey)
@@ -50,6 +58,7 @@ func main() {
 	thorchainpk, address, err := getTssPubKey(pk.X, pk.Y)
 	if err != nil {
 		fmt.Printf("--->%v", err)
+		os.Exit(1)
 	}
 	fmt.Printf("---recoverd sk:%v\n", privKey)
 	fmt.Printf("---recoverd pk:%v\n", thorchainpk)
@@ -59,12 +68,18 @@ func main() {
 		keyfile, err := exportKeyStore(privKey.Serialize(), *password)
 		if err != nil {
 			fmt.Printf("--->%v", err)
+			os.Exit(1)
 		}
 
-		jsonString, _ := json.Marshal(keyfile)
+		jsonString, err := json.Marshal(keyfile)
+		if err != nil {
+			fmt.Printf("--->%v", err)
+			os.Exit(1)
+		}
 		err = ioutil.WriteFile(*export, jsonString, 0o600)
 		if err != nil {
 			fmt.Printf("--->%v", err)
+			os.Exit(1)
 		}
 		fmt.Printf("---wrote to: %+v\n", *export)
 	}
-- 
2.43.0


From bbf348701264550f8d625d0dd1126ea06b6f0a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 26/27] fix: do not report a recovered key that is not the key
 of the pool

---
 cmd/tss-recovery/tss-recovery.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/tss-recovery/tss-recovery.go b/cmd/tss-recovery/tss-recovery.go
index dd46c8c..877c200 100644
--- a/cmd/tss-recovery/tss-recovery.go
+++ b/cmd/tss-recovery/tss-recovery.go
@@ -60,6 +60,11 @@ func main() {
 		fmt.Printf("--->%v", err)
 		os.Exit(1)
 	}
+	// too few shares, or shares of different pools, give another key without any error
+	if thorchainpk != allSecret[0].PubKey {
+		fmt.Printf("the recovered key does not belong to the pool %s\n", allSecret[0].PubKey)
+		os.Exit(1)
+	}
 	fmt.Printf("---recoverd sk:%v\n", privKey)
 	fmt.Printf("---recoverd pk:%v\n", thorchainpk)
 	fmt.Printf("-------%v\n", address)
-- 
2.43.0


From 6f2ec324d29e7702e17fad4e2d96b53a8abb19db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 27/27] fix: the handler of a message ends with the node when
 its session no longer reads

---
 p2p/communication.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/p2p/communication.go b/p2p/communication.go
index c2bb3a7..42f1f7b 100644
--- a/p2p/communication.go
+++ b/p2p/communication.go
@@ -177,11 +177,14 @@ func (c *Communication) readFromStream(stream network.Stream) {
 			c.logger.Debug().Msgf("no MsgID %s found for this message", wrappedMsg.MessageType)
 			return
 		}
-		channel <- &Message{
+		select {
+		case channel <- &Message{
 			PeerID:  stream.Conn().RemotePeer(),
 			Payload: dataBuf,
+		}:
+		case <-c.stopChan:
+			// nobody may read the channel any more once its session is over
 		}
-
 	}
 }
 
-- 
2.43.0

