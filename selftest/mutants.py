ALL = []
def B(prop, name, *edits, **k): ALL.append(dict(kind='break', prop=prop, name=name, edits=[tuple(e) for e in edits], **k))
def K(name, *edits, **k): ALL.append(dict(kind='keep', prop='keep', name=name, edits=[tuple(e) for e in edits], **k))
T = 'common/tss.go'
# ---- C01
B('C01', 'verify result ignored', (T, '''	if !ok {
		t.logger.Error().Msg("fail to verify the signature")
		return errors.New("signature verify failed")
	}
''', '''	if !ok {
		t.logger.Error().Msg("fail to verify the signature")
	}
'''))
B('C01', 'forwarded messages not verified', (T, '''	ok = verifySignature(pk, wireMsg.Message, wireMsg.Sig, t.msgID)
	if !ok {''', '''	if !forward {
		ok = verifySignature(pk, wireMsg.Message, wireMsg.Sig, t.msgID)
	}
	if !ok {'''))
B('C01', 'broadcast before verify', (T, '''	keyBytes := dataOwner.GetKey()
	var pk''', '''	if !forward && wireMsg.Routing.IsBroadcast {
		_ = t.receiverBroadcastHashToPeers(wireMsg, msgType)
	}
	keyBytes := dataOwner.GetKey()
	var pk'''))
B('C01', 'msgid not covered', ('common/tss_helper.go', 'dataForSigning.WriteString(msgID)', '_ = msgID'))
# ---- C02
B('C02', 'no sender comparison', (T, 'if msg.Routing.From.Id != wireMsg.Routing.From.Id || msg.Routing.IsBroadcast != wireMsg.Routing.IsBroadcast {', 'if msg.Routing.IsBroadcast != wireMsg.Routing.IsBroadcast {'))
B('C02', 'no flag comparison', (T, 'if msg.Routing.From.Id != wireMsg.Routing.From.Id || msg.Routing.IsBroadcast != wireMsg.Routing.IsBroadcast {', 'if msg.Routing.From.Id != wireMsg.Routing.From.Id {'))
B('C02', 'comparison only logged', (T, '''			t.logger.Error().Msgf("the routing of the share does not match the message from party %s", wireMsg.Routing.From.Id)
			return errors.New("share does not match the message routing")
''', '''			t.logger.Error().Msgf("the routing of the share does not match the message from party %s", wireMsg.Routing.From.Id)
'''))
B('C02', 'only first share compared', (T, '''	for _, msg := range bulkMsg {
		if !hasSender(msg.Routing) {''', '''	for i, msg := range bulkMsg {
		if i > 0 {
			msg.Routing = bulkMsg[0].Routing
		}
		if !hasSender(msg.Routing) {''')) if False else None
B('C02', 'compared only on first', (T, 'if msg.Routing.From.Id != wireMsg.Routing.From.Id || msg', 'if bulkMsg[0].Routing.From.Id != wireMsg.Routing.From.Id || msg'))
B('C02', 'party of the first share', (T, 'partyInfo.PartyMap.Load(msg.MsgIdentifier)', 'partyInfo.PartyMap.Load(bulkMsg[0].MsgIdentifier)'))
B('C02', 'worker swaps flag', (T, 'accepted, errUp := party.UpdateFromBytes(wireBytes, partyID, isBroadcast)', 'accepted, errUp := party.UpdateFromBytes(wireBytes, partyID, round.Index != 0 || isBroadcast)'))
B('C02', 'any party', (T, 'data, ok := partyInfo.PartyMap.Load(msg.MsgIdentifier)', '''data, ok := partyInfo.PartyMap.Load(msg.MsgIdentifier)
		if !ok {
			partyInfo.PartyMap.Range(func(k, v interface{}) bool { data, ok = v, true; return false })
		}'''))
# ---- C05
B('C05', 'no duplicate check', (T, 'if queued[round] || t.blameMgr.CheckMsgDuplication(round, partyID.Id) {', 'if queued[round] {'))
B('C05', 'no batch check', (T, 'if queued[round] || t.blameMgr.CheckMsgDuplication(round, partyID.Id) {', 'if t.blameMgr.CheckMsgDuplication(round, partyID.Id) {'))
B('C05', 'batch not marked', (T, 'queued[round] = true\n', '_ = round\n'))
B('C05', 'round without message', (T, '		round.MsgIdentifier = msg.MsgIdentifier\n', ''))
B('C05', 'first only search', ('blame/manager.go', '''			if el == id {
				return true
			}
''', '''			return el == id
'''))
B('C05', 'ignored share recorded', (T, '''			t.logger.Error().Msg("the share does not belong to this tss protocol, ignored")
			continue
''', '''			t.logger.Error().Msg("the share does not belong to this tss protocol, ignored")
'''))
B('C05', 'rejected share recorded', (T, '''			t.logger.Error().Err(err).Msgf("fail to apply the share to tss")
			continue
		}
		if !accepted {''', '''			t.logger.Error().Err(err).Msgf("fail to apply the share to tss")
		} else if !accepted {'''))
B('C05', 'culprits by pointer', (T, 'if el.Id == each.Id {', 'if el == each {'))
B('C05', 'culprit only last', (T, '''				if el.Id == each.Id {
					return true
				}
			}
			return false''', '''				if el.Id != each.Id {
					return false
				}
			}
			return len(l) > 0'''))
B('C05', 'culprits not recorded', (T, '	t.culprits = append(t.culprits, err.Culprits()...)\n', ''))
B('C05', 'no wait', (T, '		jobWg.Wait()\n', ''))
B('C05', 'record replaced', ('blame/manager.go', 'partyList = append(partyList, id)', 'partyList = []string{id}'))
B('C05', 'worker drops identifier', (T, '		round.MsgIdentifier = tssjob.msgIdentifier\n', ''))
# ---- C03
B('C03', 'no count', (T, '	if localCacheItem.TotalConfirmParty() < threshold {', '	if localCacheItem.TotalConfirmParty() < 1 {'))
B('C03', 'count off by one', (T, '	if localCacheItem.TotalConfirmParty() < threshold {', '	if localCacheItem.TotalConfirmParty()+1 < threshold {'))
B('C03', 'freq off by one', (T, 'if freq < threshold-1 {', 'if freq < threshold-2 {'))
B('C03', 'freq of total', (T, 'if freq < threshold-1 {', 'if len(localCacheItem.ConfirmedList) < threshold-1 {'))
B('C03', 'mismatch applied', (T, '''		if errors.Is(err, blame.ErrNotMajority) {
			t.logger''', '''		if errors.Is(err, blame.ErrNotMajority) && forwardable(localCacheItem) {
			t.logger'''), (T, '''	t.blameMgr.GetRoundMgr().Set(key, localCacheItem.Msg)
	if err''', '''	if localCacheItem.Msg == nil {
		return nil
	}
	t.blameMgr.GetRoundMgr().Set(key, localCacheItem.Msg)
	if err'''), (T, '// updateLocal will apply', 'func forwardable(l *LocalCacheItem) bool { return l.Msg.Routing != nil }\n\n// updateLocal will apply')) if False else None
B('C03', 'not enough not returned', (T, '''		if errors.Is(err, blame.ErrNotEnoughPeer) {
			return nil
		}
''', '''		if errors.Is(err, blame.ErrNotEnoughPeer) && localCacheItem.TotalConfirmParty() < 2 {
			return nil
		} else if errors.Is(err, blame.ErrNotEnoughPeer) {
			return t.updateLocal(localCacheItem.Msg)
		}
'''))
B('C03', 'owner counted', (T, 'if P2PID == dataOwnerP2PID.String() {', 'if P2PID+"x" == dataOwnerP2PID.String() {'))
B('C03', 'owner vote only dropped', (T, '''			delete(localCacheItem.ConfirmedList, P2PID)
			return blame.ErrHashFromOwner
''', '''			continue
'''))
B('C03', 'hash not refreshed', (T, '''			localCacheItem.Msg = wireMsg
			localCacheItem.Hash = msgHash
''', '''			localCacheItem.Msg = wireMsg
'''))
B('C03', 'hash of announcement kept', (T, 'localCacheItem.Hash = msgHash\n', 'if localCacheItem.Hash == "" {\n				localCacheItem.Hash = msgHash\n			}\n'))
B('C03', 'forwarded applied directly', (T, '''	if !wireMsg.Routing.IsBroadcast {
		t.logger.Debug().Msgf("msg from''', '''	if !wireMsg.Routing.IsBroadcast || forward {
		t.logger.Debug().Msgf("msg from'''))
B('C03', 'tie breaking min', ('common/tss_helper.go', 'if counter > maxFreq {', 'if counter > maxFreq || key < data {')) 
B('C03', 'threshold of confirmers', (T, 'threshold, err := conversion.GetThreshold(len(partyInfo.PartyIDMap))\n	if err != nil {\n		return err\n	}\n	// if we', 'threshold, err := conversion.GetThreshold(len(localCacheItem.ConfirmedList))\n	if err != nil {\n		return err\n	}\n	// if we'))
B('C03', 'key without owner', ('messages/p2p_message.go', 'return fmt.Sprintf("%s-%s", m.Routing.From.Id, m.RoundInfo)', 'return fmt.Sprintf("%s-%s", m.RoundInfo, m.RoundInfo)'))
# ---- C04
B('C04', 'no committee check', (T, '''			return fmt.Errorf("confirm message from peer %s which is not in the committee", peerID)
''', '''			t.logger.Error().Msg("not in the committee")
'''))
B('C04', 'id from content', (T, '''	if localCacheItem == nil {
		bMsg.P2PID = peerID
		return true
	}
''', '''	if localCacheItem == nil {
		if bMsg.P2PID == "" {
			bMsg.P2PID = peerID
		}
		return true
	}
'''))
B('C04', 'revote', (T, '''	if _, ok := localCacheItem.ConfirmedList[peerID]; ok {
		return false''', '''	if h, ok := localCacheItem.ConfirmedList[peerID]; ok && h == bMsg.Hash {
		return false'''))
B('C04', 'vote check on content id', (T, 'if _, ok := localCacheItem.ConfirmedList[peerID]; ok {', 'if _, ok := localCacheItem.ConfirmedList[bMsg.P2PID]; ok {'))
B('C04', 'vote for own hash', (T, 'localCacheItem.UpdateConfirmList(broadcastConfirmMsg.P2PID, broadcastConfirmMsg.Hash)', 'localCacheItem.UpdateConfirmList(broadcastConfirmMsg.P2PID, localCacheItem.Hash)'))
B('C04', 'committee any', (T, '		if el.String() == peerID {\n			return true\n		}\n	}\n	return false', '		if el.String() == peerID {\n			break\n		}\n	}\n	return len(t.PartyIDtoP2PID) > 0'))
# ---- behaviour preserved
K('index loop', (T, 'for _, msg := range bulkMsg {\n		if !hasSender', 'for i := 0; i < len(bulkMsg); i++ {\n		msg := bulkMsg[i]\n		if !hasSender'))
K('index loop in place', (T, 'for _, msg := range bulkMsg {\n		if !hasSender', 'for i := range bulkMsg {\n		msg := &bulkMsg[i]\n		if !hasSender'))
K('split comparison', (T, 'if msg.Routing.From.Id != wireMsg.Routing.From.Id || msg.Routing.IsBroadcast != wireMsg.Routing.IsBroadcast {', '''if msg.Routing.IsBroadcast != wireMsg.Routing.IsBroadcast {
			return errors.New("share does not match the message routing")
		}
		if wireMsg.Routing.From.Id != msg.Routing.From.Id {'''))
K('comparison helper', (T, 'if msg.Routing.From.Id != wireMsg.Routing.From.Id || msg.Routing.IsBroadcast != wireMsg.Routing.IsBroadcast {', 'if !sameRouting(msg, wireMsg) {'),
  (T, '// updateLocal will apply', '''func sameRouting(msg BulkWireMsg, wireMsg *messages.WireMessage) bool {
	if msg.Routing.From.Id == wireMsg.Routing.From.Id {
		return msg.Routing.IsBroadcast == wireMsg.Routing.IsBroadcast
	}
	return false
}

// updateLocal will apply'''))
K('dup check split', (T, '''		if queued[round] || t.blameMgr.CheckMsgDuplication(round, partyID.Id) {
''', '''		if _, dup := queued[round]; dup {
			continue
		}
		if dup := t.blameMgr.CheckMsgDuplication(round, partyID.Id); dup {
'''))
K('dup lookup rewritten', ('blame/manager.go', '''	partyList, ok := m.acceptedShares[round]
	if ok {
		for _, el := range partyList {
			if el == id {
				return true
			}
		}
	}
	return false
''', '''	found := false
	partyList := m.acceptedShares[round]
	for i := 0; i < len(partyList); i++ {
		if partyList[i] == id {
			found = true
			break
		}
	}
	return found
'''))
K('accept append', ('blame/manager.go', '''	partyList, ok := m.acceptedShares[round]
	if !ok {
		partyList := []string{id}
		m.acceptedShares[round] = partyList
		return
	}
	partyList = append(partyList, id)
	m.acceptedShares[round] = partyList
''', '''	m.acceptedShares[round] = append(m.acceptedShares[round], id)
'''))
K('culprit helper method', (T, '''		if len(t.culprits) != 0 && partyInlist(partyID, t.culprits) {''', '''		if t.isCulprit(partyID) {'''),
  (T, '''		partyInlist := func(el *btss.PartyID, l []*btss.PartyID) bool {
			for _, each := range l {
				// every message of a batch has its own copy of the party IDs
				if el.Id == each.Id {
					return true
				}
			}
			return false
		}
''', ''), (T, '// updateLocal will apply', '''func (t *TssCommon) isCulprit(p *btss.PartyID) bool {
	for i := range t.culprits {
		if t.culprits[i].Id == p.Id {
			return true
		}
	}
	return false
}

// updateLocal will apply'''))
K('job literal', (T, 'job := newJob(localMsgParty, msg.WiredBulkMsgs, round.MsgIdentifier, partyID, msg.Routing.IsBroadcast)', '''job := &tssJob{
			localParty:    localMsgParty,
			partyID:       partyID,
			wireBytes:     msg.WiredBulkMsgs,
			msgIdentifier: msg.MsgIdentifier,
			isBroadcast:   wireMsg.Routing.IsBroadcast,
		}'''))
K('worker helper', (T, '''	for tssjob := range tssJobChan {
		party := tssjob.localParty
''', '''	for tssjob := range tssJobChan {
		t.runJob(tssjob)
	}
}

func (t *TssCommon) runJob(tssjob *tssJob) {
	for i := 0; i < 1; i++ {
		party := tssjob.localParty
'''))
K('worker select style', (T, '		party := tssjob.localParty\n', ''), (T, 'accepted, errUp := party.UpdateFromBytes(wireBytes, partyID, isBroadcast)\n		if errUp != nil {', 'accepted, errUp := tssjob.localParty.UpdateFromBytes(tssjob.wireBytes, tssjob.partyID, tssjob.isBroadcast)\n		if nil != errUp {'))
K('process function', (T, '''	keyBytes := dataOwner.GetKey()
	var pk secp256k1.PubKey
	pk = keyBytes
	ok = verifySignature(pk, wireMsg.Message, wireMsg.Sig, t.msgID)
	if !ok {''', '''	if !t.signedBy(dataOwner, wireMsg) {'''), (T, '// updateLocal will apply', '''func (t *TssCommon) signedBy(owner *btss.PartyID, m *messages.WireMessage) bool {
	return verifySignature(secp256k1.PubKey(owner.GetKey()), m.Message, m.Sig, t.msgID)
}

// updateLocal will apply'''))

K('hashcheck reorder', (T, """	if localCacheItem.TotalConfirmParty() < threshold {
		t.logger.Debug().Msg("not enough nodes to evaluate the hash")
		return blame.ErrNotEnoughPeer
	}
	localCacheItem.lock.Lock()
	defer localCacheItem.lock.Unlock()
""", """	localCacheItem.lock.Lock()
	defer localCacheItem.lock.Unlock()
	if !(threshold <= len(localCacheItem.ConfirmedList)) {
		return blame.ErrNotEnoughPeer
	}
"""), (T, """	if targetHashValue == hash {
		t.logger.Debug().Msgf("hash check complete for messageID: %v", t.msgID)
		return nil
	}
	return blame.ErrNotMajority
""", """	if targetHashValue != hash {
		return blame.ErrNotMajority
	}
	return nil
"""))
K('owner by lookup', (T, """	for P2PID := range localCacheItem.ConfirmedList {
		if P2PID == dataOwnerP2PID.String() {
			t.logger.Warn().Msgf("we detect that the data owner try to send the hash for his own message\\n")
			delete(localCacheItem.ConfirmedList, P2PID)
			return blame.ErrHashFromOwner
		}
	}
""".replace('\\\\n','\\n'), """	if _, bad := localCacheItem.ConfirmedList[dataOwnerP2PID.String()]; bad {
		delete(localCacheItem.ConfirmedList, dataOwnerP2PID.String())
		return blame.ErrHashFromOwner
	}
"""))
K('freq threshold', (T, 'if freq < threshold-1 {', 'if freq+1 < threshold {'))
K('freq threshold2', (T, 'if freq < threshold-1 {', 'needed := threshold - 1\n	if !(freq >= needed) {'))
K('committee loop', (T, """	for _, el := range t.PartyIDtoP2PID {
		if el.String() == peerID {
			return true
		}
	}
	return false
""", """	member := false
	for id := range t.PartyIDtoP2PID {
		if t.PartyIDtoP2PID[id].String() == peerID {
			member = true
		}
	}
	return member
"""))
K('committee check inside dup check', (T, """		if !t.isCommitteePeer(peerID) {
			return fmt.Errorf("confirm message from peer %s which is not in the committee", peerID)
		}
""", ""), (T, "ret := t.checkDupAndUpdateVerMsg(&bMsg, peerID)", "ret := t.isCommitteePeer(peerID) && t.checkDupAndUpdateVerMsg(&bMsg, peerID)"))
K('confirm update inlined', (T, "	localCacheItem.UpdateConfirmList(broadcastConfirmMsg.P2PID, broadcastConfirmMsg.Hash)\n", "	localCacheItem.lock.Lock()\n	localCacheItem.ConfirmedList[broadcastConfirmMsg.P2PID] = broadcastConfirmMsg.Hash\n	localCacheItem.lock.Unlock()\n"))
K('item literal', (T, "localCacheItem = NewLocalCacheItem(wireMsg, msgHash)", "localCacheItem = NewLocalCacheItem(nil, \"\")\n		localCacheItem.Hash = msgHash\n		localCacheItem.Msg = wireMsg"))
K('switch errors', (T, """		if errors.Is(err, blame.ErrNotEnoughPeer) {
			return nil
		}
		if errors.Is(err, blame.ErrNotMajority) {""", """		if err == blame.ErrNotEnoughPeer {
			return nil
		}
		if err == blame.ErrNotMajority {"""))

H = 'common/tss_helper.go'
SB = """	} else {
		for _, each := range r.To {
			peerID, ok := t.PartyIDtoP2PID[each.Id]
			if !ok {
				t.logger.Error().Msg("error in find the P2P ID")
				continue
			}
			peerIDs = append(peerIDs, peerID)
		}
	}
"""
B('C06', 'unicast to all', (T, SB, "	} else {\n		peerIDs = t.P2PPeers\n	}\n"))
B('C06', 'fallback to all', (T, SB, SB + "	if len(peerIDs) == 0 {\n		peerIDs = t.P2PPeers\n	}\n"))
B('C06', 'unicast also to first peer', (T, SB, SB.replace("peerIDs = append(peerIDs, peerID)", "peerIDs = append(peerIDs, peerID, t.P2PPeers[0])")))
B('C06', 'broadcast when some unknown', (T, SB, SB.replace("				continue\n", "				peerIDs = t.P2PPeers\n				break\n")))
B('C06', 'unicast keyed by type', (T, "t.cachedWireUnicastMsgLists.Load(msg.Type() + \":\" + r.To[0].String())", "t.cachedWireUnicastMsgLists.Load(msg.Type())"), (T, "t.cachedWireUnicastMsgLists.Store(msg.Type()+\":\"+r.To[0].String(), l)", "t.cachedWireUnicastMsgLists.Store(msg.Type(), l)"), (T, "t.cachedWireUnicastMsgLists.Store(msg.Type()+\":\"+r.To[0].String(), cachedList)", "t.cachedWireUnicastMsgLists.Store(msg.Type(), cachedList)"))
B('C06', 'unicast stored', (T, "		return t.updateLocal(wireMsg)\n	}\n\n	// if not", "		t.blameMgr.GetRoundMgr().Set(wireMsg.GetCacheKey(), wireMsg)\n		return t.updateLocal(wireMsg)\n	}\n\n	// if not"))
B('C06', 'unicast announced', (T, "		return t.updateLocal(wireMsg)\n	}\n\n	// if not", "		_ = t.receiverBroadcastHashToPeers(wireMsg, msgType)\n		return t.updateLocal(wireMsg)\n	}\n\n	// if not"))
B('C06', 'failed unicast cached', (T, "		return t.updateLocal(wireMsg)\n	}\n\n	// if not", "		if err := t.updateLocal(wireMsg); err == nil {\n			return nil\n		}\n	}\n\n	// if not"))
B('C06', 'routing of wrong share', (T, "	r := wiredMsgList[0].Routing\n", "	r := &btss.MessageRouting{From: wiredMsgList[0].Routing.From, IsBroadcast: wiredMsgList[0].Routing.IsBroadcast}\n"))
B('C07', 'no pending check', (T, "		if !exist {\n			t.logger.Debug().Msg(\"this request does not exit, maybe already processed\")\n			return nil\n		}\n", "		if !exist {\n			t.logger.Debug().Msg(\"this request does not exit, maybe already processed\")\n		}\n"))
B('C07', 'pending checked before hash', (T, """		if msgHash != wireMsg.ReqHash {
			t.logger.Error().Msgf("peer %s replies with a message we did not request", peerID)
			return errors.New("invalid wireMsg")
		}
		exist := t.blameMgr.GetShareMgr().QueryAndDelete(wireMsg.ReqHash)
""", """		exist := t.blameMgr.GetShareMgr().QueryAndDelete(wireMsg.ReqHash)
		if msgHash != wireMsg.ReqHash {
			t.logger.Error().Msgf("peer %s replies with a message we did not request", peerID)
			return errors.New("invalid wireMsg")
		}
"""))
B('C07', 'hash not compared', (T, "		if msgHash != wireMsg.ReqHash {\n			t.logger", "		if msgHash == \"\" {\n			t.logger"))
B('C07', 'request not consumed', ('blame/share_mgr.go', "	delete(sm.requested, key)\n", ""))
B('C07', 'request deleted wrong key', ('blame/share_mgr.go', "	delete(sm.requested, key)\n", "	delete(sm.requested, key+\"-\")\n"))
B('C07', 'request to all', (T, "		if hash == targetHash {\n			thisPeer", "		if hash != \"\" {\n			thisPeer"))
B('C07', 'not noted pending', (T, "	t.blameMgr.GetShareMgr().Set(targetHash)\n", ""))
B('C07', 'pending own hash', (T, "	t.blameMgr.GetShareMgr().Set(targetHash)\n", "	t.blameMgr.GetShareMgr().Set(localCacheItem.Hash)\n"))
B('C07', 'requests own hash', (T, "		ReqHash:     targetHash,\n", "		ReqHash:     localCacheItem.Hash,\n"))
B('C07', 'answer to all', (T, "return t.processRequestMsgFromPeer([]peer.ID{decodedPeerID}, &wireMsg, false)", "_ = decodedPeerID\n			return t.processRequestMsgFromPeer(t.P2PPeers, &wireMsg, false)"))
B('C07', 'answer other key', (H, "		reqKey := msg.ReqKey\n", "		reqKey := msg.ReqHash\n"))
B('C07', 'answer without message', (H, "			t.logger.Debug().Msg(\"we do not have this message either\")\n			return nil\n", "			t.logger.Debug().Msg(\"we do not have this message either\")\n"))
B('C31', 'sent early', (T, "		if len(wiredMsgList) == t.msgNum {\n			err := t.sendBulkMsg(wiredMsgType, msgType, wiredMsgList)\n", "		if len(wiredMsgList) > 0 {\n			err := t.sendBulkMsg(wiredMsgType, msgType, wiredMsgList)\n"))
B('C31', 'kept after send', (T, "		t.cachedWireUnicastMsgLists.Delete(key)\n", "		_ = key\n"))
B('C31', 'deleted before success', (T, "			t.cachedWireUnicastMsgLists.Delete(key)\n		}\n		return true", "		}\n		t.cachedWireUnicastMsgLists.Delete(key)\n		return true"))
B('C31', 'delete in other map', (T, "			t.cachedWireUnicastMsgLists.Delete(key)\n", "			t.cachedWireBroadcastMsgLists.Delete(key)\n"))
B('C31', 'replaces list', (T, "			cachedList := dat.([]BulkWireMsg)\n			cachedList = append(cachedList, cachedWiredMsg)\n			t.cachedWireBroadcast", "			_ = dat.([]BulkWireMsg)\n			cachedList := []BulkWireMsg{cachedWiredMsg}\n			t.cachedWireBroadcast"))
B('C31', 'round of wrapped', (T, "		RoundInfo: wiredMsgType,\n", "		RoundInfo: t.msgID,\n"))
B('C31', 'identifier id', (T, "		cachedWiredMsg := NewBulkWireMsg(msgData, msg.GetFrom().Moniker, r)\n		// now", "		cachedWiredMsg := NewBulkWireMsg(msgData, msg.GetFrom().Id, r)\n		// now"))
B('C31', 'not filed when existing', (T, "			cachedList = append(cachedList, cachedWiredMsg)\n			t.cachedWireUnicastMsgLists.Store(msg.Type()+\":\"+r.To[0].String(), cachedList)\n", "			cachedList = append(cachedList, cachedWiredMsg)\n			t.cachedWireUnicastMsgLists.Store(msg.Type()+\":\"+r.From.String(), cachedList)\n"))
B('C31', 'broadcast swapped maps', (T, "	if r.IsBroadcast {\n		cachedWired", "	if !r.IsBroadcast {\n		cachedWired"))

K('peer list helper', (T, "	peerIDs := make([]peer.ID, 0)\n	if len(r.To) == 0 {\n		t.P2PPeersLock.RLock()\n		peerIDs = t.P2PPeers\n		t.P2PPeersLock.RUnlock()\n" + SB, "	peerIDs := t.recipients(r)\n"),
  (T, "func (t *TssCommon) ProcessOutCh(", """func (t *TssCommon) recipients(r *btss.MessageRouting) []peer.ID {
	if len(r.To) == 0 {
		t.P2PPeersLock.RLock()
		defer t.P2PPeersLock.RUnlock()
		return t.P2PPeers
	}
	peerIDs := make([]peer.ID, 0, len(r.To))
	for i := range r.To {
		if peerID, ok := t.PartyIDtoP2PID[r.To[i].Id]; ok {
			peerIDs = append(peerIDs, peerID)
		} else {
			t.logger.Error().Msg("error in find the P2P ID")
		}
	}
	return peerIDs
}

func (t *TssCommon) ProcessOutCh("""))
K('unicast key var', (T, "		dat, ok := t.cachedWireUnicastMsgLists.Load(msg.Type() + \":\" + r.To[0].String())", "		listKey := msg.Type() + \":\" + r.To[0].String()\n		dat, ok := t.cachedWireUnicastMsgLists.Load(listKey)"), (T, "t.cachedWireUnicastMsgLists.Store(msg.Type()+\":\"+r.To[0].String(), l)", "t.cachedWireUnicastMsgLists.Store(listKey, l)"), (T, "t.cachedWireUnicastMsgLists.Store(msg.Type()+\":\"+r.To[0].String(), cachedList)", "t.cachedWireUnicastMsgLists.Store(listKey, cachedList)"))
K('file helper', (T, """		cachedWiredMsg := NewBulkWireMsg(msgData, msg.GetFrom().Moniker, r)
		// now we store this message in cache
		dat, ok := t.cachedWireBroadcastMsgLists.Load(msg.Type())
		if !ok {
			l := []BulkWireMsg{cachedWiredMsg}
			t.cachedWireBroadcastMsgLists.Store(msg.Type(), l)
		} else {
			cachedList := dat.([]BulkWireMsg)
			cachedList = append(cachedList, cachedWiredMsg)
			t.cachedWireBroadcastMsgLists.Store(msg.Type(), cachedList)
		}
""", """		t.addToList(t.cachedWireBroadcastMsgLists, msg.Type(), NewBulkWireMsg(msgData, msg.GetFrom().Moniker, r))
"""), (T, """		cachedWiredMsg := NewBulkWireMsg(msgData, msg.GetFrom().Moniker, r)
		dat, ok := t.cachedWireUnicastMsgLists.Load(msg.Type() + ":" + r.To[0].String())
		if !ok {
			l := []BulkWireMsg{cachedWiredMsg}
			t.cachedWireUnicastMsgLists.Store(msg.Type()+":"+r.To[0].String(), l)
		} else {
			cachedList := dat.([]BulkWireMsg)
			cachedList = append(cachedList, cachedWiredMsg)
			t.cachedWireUnicastMsgLists.Store(msg.Type()+":"+r.To[0].String(), cachedList)
		}
""", """		t.addToList(t.cachedWireUnicastMsgLists, msg.Type()+":"+r.To[0].String(), NewBulkWireMsg(msgData, msg.GetFrom().Moniker, r))
"""), (T, "func (t *TssCommon) ProcessOutCh(", """func (t *TssCommon) addToList(lists *sync.Map, key string, share BulkWireMsg) {
	dat, ok := lists.Load(key)
	if !ok {
		lists.Store(key, []BulkWireMsg{share})
		return
	}
	lists.Store(key, append(dat.([]BulkWireMsg), share))
}

func (t *TssCommon) ProcessOutCh("""))
K('flush early return', (T, """		if len(wiredMsgList) == t.msgNum {
			err := t.sendBulkMsg(wiredMsgType, msgType, wiredMsgList)
			if err != nil {
				t.logger.Error().Err(err).Msg("error in send bulk message")
				return true
			}
			t.cachedWireBroadcastMsgLists.Delete(key)
		}
		return true
""", """		if t.msgNum != len(wiredMsgList) {
			return true
		}
		if err := t.sendBulkMsg(wiredMsgType, msgType, wiredMsgList); err == nil {
			t.cachedWireBroadcastMsgLists.Delete(key)
		} else {
			t.logger.Error().Err(err).Msg("error in send bulk message")
		}
		return true
"""))
K('control helper', (T, """			decodedPeerID, err := peer.Decode(peerID)
			if err != nil {
				t.logger.Error().Err(err).Msg("error in decode the peer")
				return err
			}
			return t.processRequestMsgFromPeer([]peer.ID{decodedPeerID}, &wireMsg, false)
""", """			return t.answerRequest(peerID, &wireMsg)
"""), (T, "func (t *TssCommon) getMsgHash(", """func (t *TssCommon) answerRequest(from string, req *messages.TssControl) error {
	requester, err := peer.Decode(from)
	if err != nil {
		return err
	}
	to := make([]peer.ID, 0, 1)
	to = append(to, requester)
	return t.processRequestMsgFromPeer(to, req, false)
}

func (t *TssCommon) getMsgHash("""))
K('query delete comma ok', ('blame/share_mgr.go', "	ret := sm.requested[key]\n	delete(sm.requested, key)\n	return ret\n", "	if _, ok := sm.requested[key]; !ok {\n		return false\n	}\n	delete(sm.requested, key)\n	return true\n"))
K('request switch merged', (T, """	switch msgType {
	case messages.TSSKeyGenVerMsg:
		msg.RequestType = messages.TSSKeyGenMsg
		return t.processRequestMsgFromPeer(peersIDs, msg, true)
	case messages.TSSKeySignVerMsg:
		msg.RequestType = messages.TSSKeySignMsg
		return t.processRequestMsgFromPeer(peersIDs, msg, true)
	case messages.TSSKeySignMsg, messages.TSSKeyGenMsg:
		msg.RequestType = msgType
		return t.processRequestMsgFromPeer(peersIDs, msg, true)
	default:
		t.logger.Debug().Msg("unknown message type")
		return nil
	}
""", """	if msgType == messages.TSSKeyGenVerMsg || msgType == messages.TSSKeyGenMsg {
		msg.RequestType = messages.TSSKeyGenMsg
	} else if msgType == messages.TSSKeySignVerMsg || msgType == messages.TSSKeySignMsg {
		msg.RequestType = messages.TSSKeySignMsg
	} else {
		t.logger.Debug().Msg("unknown message type")
		return nil
	}
	return t.processRequestMsgFromPeer(peersIDs, msg, true)
"""))
K('wrapped literal', (T, """	t.renderToP2P(&messages.BroadcastMsgChan{
		WrappedMessage: wrappedMsg,
		PeersID:        peerIDs,
	})

	return nil
}

func (t *TssCommon) ProcessOutCh""", """	out := new(messages.BroadcastMsgChan)
	out.WrappedMessage = wrappedMsg
	out.PeersID = peerIDs
	t.renderToP2P(out)
	return nil
}

func (t *TssCommon) ProcessOutCh"""))
# ---- C09
KG = 'keygen/tss_keygen.go'; SK = 'tss/keygen.go'; SS = 'tss/keysign.go'
B('C09', 'save failure logged only', (KG, '				return nil, fmt.Errorf("fail to save keygen result to storage: %w", err)\n', '				tKeyGen.logger.Error().Err(err).Msg("fail to save keygen result to storage")\n'))
B('C09', 'share not stored in item', (KG, '			keyGenLocalStateItem.LocalData = msg\n', ''))
B('C09', 'pub key of item from elsewhere', (KG, '			keyGenLocalStateItem.PubKey = pubKey\n', '			keyGenLocalStateItem.PubKey = keyGenLocalStateItem.LocalPartyKey\n			_ = pubKey\n'))
B('C09', 'participants without local', (KG, '		ParticipantKeys: keygenReq.Keys,\n', '		ParticipantKeys: keygenReq.Keys[:len(keygenReq.Keys)-1],\n'))
B('C09', 'derivation error keeps success', (SK, '		t.logger.Error().Err(err).Msg("fail to generate the new Tss key")\n		status = common.Fail\n', '		t.logger.Error().Err(err).Msg("fail to generate the new Tss key")\n'))
B('C09', 'keygen error reported as success', (SK, 'return keygen.NewResponse("", "", common.Fail, blameNodes), err', 'return keygen.NewResponse("", "", status, blameNodes), err'))
B('C09', 'save only if slow', (KG, '			if err := tKeyGen.stateManager.SaveLocalState(keyGenLocalStateItem); err != nil {\n', '			if _, errState := tKeyGen.stateManager.GetLocalState(pubKey); errState == nil {\n				return msg.ECDSAPub, nil\n			}\n			if err := tKeyGen.stateManager.SaveLocalState(keyGenLocalStateItem); err != nil {\n'))
B('C09', 'saved in background', (KG, '''			if err := tKeyGen.stateManager.SaveLocalState(keyGenLocalStateItem); err != nil {
				return nil, fmt.Errorf("fail to save keygen result to storage: %w", err)
			}
''', '''			go func() {
				if err := tKeyGen.stateManager.SaveLocalState(keyGenLocalStateItem); err != nil {
					tKeyGen.logger.Error().Err(err).Msg("fail to save keygen result to storage")
				}
			}()
'''))
K('keygen save helper', (KG, '''			keyGenLocalStateItem.LocalData = msg
			keyGenLocalStateItem.PubKey = pubKey
			if err := tKeyGen.stateManager.SaveLocalState(keyGenLocalStateItem); err != nil {
				return nil, fmt.Errorf("fail to save keygen result to storage: %w", err)
			}
''', '''			if err := tKeyGen.persist(keyGenLocalStateItem, msg, pubKey); err != nil {
				return nil, err
			}
'''), (KG, 'func (tKeyGen *TssKeyGen) processKeyGen(', '''func (tKeyGen *TssKeyGen) persist(item storage.KeygenLocalState, share bkg.LocalPartySaveData, pk string) error {
	item.PubKey = pk
	item.LocalData = share
	err := tKeyGen.stateManager.SaveLocalState(item)
	if err == nil {
		return nil
	}
	return fmt.Errorf("fail to save keygen result to storage: %w", err)
}

func (tKeyGen *TssKeyGen) processKeyGen('''))
K('keygen item literal', (KG, '''			keyGenLocalStateItem.LocalData = msg
			keyGenLocalStateItem.PubKey = pubKey
			if err := tKeyGen.stateManager.SaveLocalState(keyGenLocalStateItem); err != nil {
''', '''			item := storage.KeygenLocalState{
				PubKey:          pubKey,
				LocalData:       msg,
				ParticipantKeys: keyGenLocalStateItem.ParticipantKeys,
				LocalPartyKey:   keyGenLocalStateItem.LocalPartyKey,
			}
			if err := tKeyGen.stateManager.SaveLocalState(item); err != nil {
'''))
K('keygen status flow', (SK, '''	newPubKey, addr, err := conversion.GetTssPubKey(k)
	if err != nil {
		t.logger.Error().Err(err).Msg("fail to generate the new Tss key")
		status = common.Fail
	}
''', '''	newPubKey, addr, err := conversion.GetTssPubKey(k)
	if err == nil {
		status = common.Success
	} else {
		t.logger.Error().Err(err).Msg("fail to generate the new Tss key")
		status = common.Fail
	}
'''), (SK, '	status := common.Success\n', '	var status common.Status\n'))
K('keygen else dropped', (SK, '''		return keygen.NewResponse("", "", common.Fail, blameNodes), err
	} else {
		t.tssMetrics.UpdateKeyGen(keygenTime, true)
	}
''', '''		return keygen.Response{Status: common.Fail, Blame: blameNodes}, err
	}
	t.tssMetrics.UpdateKeyGen(keygenTime, true)
'''))
K('keygen join failure helper', (SK, '''	if errJoinParty != nil {
		t.tssMetrics.KeygenJoinParty(joinPartyTime, false)
		t.tssMetrics.UpdateKeyGen(0, false)
''', '''	failed := errJoinParty != nil
	if failed {
		t.countKeygenJoinFailure(joinPartyTime)
'''), (SK, 'func (t *TssServer) Keygen(', '''func (t *TssServer) countKeygenJoinFailure(spent time.Duration) {
	t.tssMetrics.UpdateKeyGen(0, false)
	t.tssMetrics.KeygenJoinParty(spent, false)
}

func (t *TssServer) Keygen('''))
# ---- C14
B('C14', 'taskdone not cancelled', (SK, '		t.p2pCommunication.CancelSubscribe(messages.TSSTaskDone, msgID)\n', ''))
B('C14', 'wrong type cancelled', (SS, '		t.p2pCommunication.CancelSubscribe(messages.TSSKeySignVerMsg, msgID)\n', '		t.p2pCommunication.CancelSubscribe(messages.TSSKeySignMsg, msgID)\n'))
B('C14', 'notifier streams kept', (SS, '		t.signatureNotifier.ReleaseStream(msgID)\n', ''))
B('C14', 'cleanup after early return', (SS, '''	defer func() {
		t.p2pCommunication.CancelSubscribe(messages.TSSKeySignMsg, msgID)''', '''	if _, err := t.stateManager.GetLocalState(req.PoolPubKey); err != nil {
		return emptyResp, err
	}
	defer func() {
		t.p2pCommunication.CancelSubscribe(messages.TSSKeySignMsg, msgID)'''))
B('C14', 'streams released early', (SK, '		t.partyCoordinator.ReleaseStream(msgID)\n	}()\n', '	}()\n	t.partyCoordinator.ReleaseStream(msgID)\n'))
B('C14', 'notifier kept on timeout', ('keysign/signature_notifier.go', '	defer s.removeNotifier(n)\n', ''))
K('unsubscribe loop', (SK, '''		t.p2pCommunication.CancelSubscribe(messages.TSSKeyGenMsg, msgID)
		t.p2pCommunication.CancelSubscribe(messages.TSSKeyGenVerMsg, msgID)
		t.p2pCommunication.CancelSubscribe(messages.TSSControlMsg, msgID)
		t.p2pCommunication.CancelSubscribe(messages.TSSTaskDone, msgID)

		t.p2pCommunication.ReleaseStream(msgID)
		t.partyCoordinator.ReleaseStream(msgID)
	}()
''', '''		t.endKeygen(msgID)
	}()
'''), (SK, 'func (t *TssServer) Keygen(', '''func (t *TssServer) endKeygen(id string) {
	t.p2pCommunication.ReleaseStream(id)
	t.partyCoordinator.ReleaseStream(id)
	t.p2pCommunication.CancelSubscribe(messages.TSSTaskDone, id)
	t.p2pCommunication.CancelSubscribe(messages.TSSControlMsg, id)
	t.p2pCommunication.CancelSubscribe(messages.TSSKeyGenVerMsg, id)
	t.p2pCommunication.CancelSubscribe(messages.TSSKeyGenMsg, id)
}

func (t *TssServer) Keygen('''))
K('subscribe range', (SK, '''	t.p2pCommunication.SetSubscribe(messages.TSSKeyGenMsg, msgID, keygenMsgChannel)
	t.p2pCommunication.SetSubscribe(messages.TSSKeyGenVerMsg, msgID, keygenMsgChannel)
	t.p2pCommunication.SetSubscribe(messages.TSSControlMsg, msgID, keygenMsgChannel)
	t.p2pCommunication.SetSubscribe(messages.TSSTaskDone, msgID, keygenMsgChannel)

	defer func() {
		t.p2pCommunication.CancelSubscribe(messages.TSSKeyGenMsg, msgID)
		t.p2pCommunication.CancelSubscribe(messages.TSSKeyGenVerMsg, msgID)
		t.p2pCommunication.CancelSubscribe(messages.TSSControlMsg, msgID)
		t.p2pCommunication.CancelSubscribe(messages.TSSTaskDone, msgID)

''', '''	kinds := []messages.THORChainTSSMessageType{messages.TSSKeyGenMsg, messages.TSSKeyGenVerMsg, messages.TSSControlMsg, messages.TSSTaskDone}
	for _, kind := range kinds {
		t.p2pCommunication.SetSubscribe(kind, msgID, keygenMsgChannel)
	}

	defer func() {
		for _, kind := range kinds {
			t.p2pCommunication.CancelSubscribe(kind, msgID)
		}

'''))
# ---- C23
B('C23', 'keygen failure uncounted', (SK, '		t.tssMetrics.UpdateKeyGen(keygenTime, false)\n', ''))
B('C23', 'join failure counted true', (SK, 't.tssMetrics.KeygenJoinParty(joinPartyTime, false)', 't.tssMetrics.KeygenJoinParty(joinPartyTime, true)'))
B('C23', 'generated counted as received', (SS, '''	t.updateKeySignResult(generatedSig, keysignTime)
	return generatedSig, errGen''', '''	t.updateKeySignResult(receivedSig, keysignTime)
	return generatedSig, errGen'''))
B('C23', 'counted twice', (SS, '	if result.Status == common.Success {\n		t.tssMetrics.UpdateKeySign(timeSpent, true)\n		return\n	}\n', '	if result.Status == common.Success {\n		t.tssMetrics.UpdateKeySign(timeSpent, true)\n	}\n'))
B('C23', 'not active uncounted', (SS, '''		t.updateKeySignResult(receivedSig, keysignTime)
		return receivedSig, nil
	}
	// we get the signature''', '''		return receivedSig, nil
	}
	// we get the signature'''))
B('C23', 'NA counted as success', (SS, '	if result.Status == common.Success {', '	if result.Status != common.Fail {'))
B('C23', 'label swapped', ('monitor/metric.go', 'm.keygenCounter.WithLabelValues("failure").Inc()', 'm.keysignCounter.WithLabelValues("failure").Inc()'))
K('count by flag', (SS, '''	if result.Status == common.Success {
		t.tssMetrics.UpdateKeySign(timeSpent, true)
		return
	}
	t.tssMetrics.UpdateKeySign(timeSpent, false)
	return
''', '''	switch result.Status {
	case common.Success:
		t.tssMetrics.UpdateKeySign(timeSpent, true)
	default:
		t.tssMetrics.UpdateKeySign(timeSpent, false)
	}
'''))
K('count by comparison', (SS, '''	if result.Status == common.Success {
		t.tssMetrics.UpdateKeySign(timeSpent, true)
		return
	}
	t.tssMetrics.UpdateKeySign(timeSpent, false)
	return
''', '''	t.tssMetrics.UpdateKeySign(timeSpent, result.Status == common.Success)
'''))
K('result chosen', (SS, '''	if errWait == nil {
		t.updateKeySignResult(receivedSig, keysignTime)
		return receivedSig, nil
	}
	// for this round, we are not the active signer
	if errors.Is(errGen, p2p.ErrSignReceived) || errors.Is(errGen, p2p.ErrNotActiveSigner) {
		t.updateKeySignResult(receivedSig, keysignTime)
		return receivedSig, nil
	}
''', '''	if errWait == nil || errors.Is(errGen, p2p.ErrSignReceived) || errors.Is(errGen, p2p.ErrNotActiveSigner) {
		t.updateKeySignResult(receivedSig, keysignTime)
		return receivedSig, nil
	}
'''))
# ---- C11
NO = 'keysign/notifier.go'; SN = 'keysign/signature_notifier.go'; TK = 'keysign/tss_keysign.go'
B('C11', 'only first verified', (NO, '				if err != nil || !verify {\n					return false, fmt.Errorf("fail to verify signature: %w", err)\n				}\n', '				if err != nil || !verify {\n					return false, fmt.Errorf("fail to verify signature: %w", err)\n				}\n				break\n'))
B('C11', 'nil signatures skipped', (NO, '				return false, errors.New("keysign failed with nil signature")\n', '				continue\n'))
B('C11', 'any instead of all', (NO, '				if err != nil || !verify {', '				if err != nil || (!verify && i == 0) {'))
B('C11', 'no length test', (NO, '		if len(data) != len(n.messages) {', '		if len(data) > len(n.messages) {'))
B('C11', 'wrong message', (NO, '			msg := n.messages[i]', '			msg := n.messages[0]'))
B('C11', 'swap R S', (NO, 'new(big.Int).SetBytes(data.R), new(big.Int).SetBytes(data.S)', 'new(big.Int).SetBytes(data.S), new(big.Int).SetBytes(data.R)'))
B('C11', 'error only', (NO, '				if err != nil || !verify {', '				if err != nil || (!verify && false) {'))
B('C11', 'key of signature', (NO, '	return ecdsa.Verify(pub.ToECDSA(), msg,', '	return ecdsa.Verify(pub.ToECDSA(), data.M,'))
B('C11', 'wrong notifier', (SN, '	n, ok := s.notifiers[msg.ID]\n', '	n, ok := s.notifiers[string(remotePeer)]\n'))
B('C11', 'verify skipped for one', (NO, '			if eachSig.GetSignature() != nil {', '			if len(data) == 1 && eachSig.GetM() != nil {\n				continue\n			}\n			if eachSig.GetSignature() != nil {'))
B('C11', 'wait other messages', (SN, 'n, err := NewNotifier(messageID, message, poolPubKey)', 'n, err := NewNotifier(messageID, message[:1], poolPubKey)'))
K('verify range', (NO, '''		for i := 0; i < len(data); i++ {
			eachSig := data[i]
			msg := n.messages[i]
			if eachSig.GetSignature() != nil {
				verify, err := n.verifySignature(eachSig, msg)
				if err != nil || !verify {
					return false, fmt.Errorf("fail to verify signature: %w", err)
				}
			} else {
				return false, errors.New("keysign failed with nil signature")
			}
		}
		n.resp <- data
''', '''		for i, msg := range n.messages {
			if data[i].GetSignature() == nil {
				return false, errors.New("keysign failed with nil signature")
			}
			valid, err := n.verifySignature(data[i], msg)
			if err != nil {
				return false, fmt.Errorf("fail to verify signature: %w", err)
			}
			if !valid {
				return false, errors.New("fail to verify signature")
			}
		}
		n.resp <- data
'''))
K('verify all helper', (NO, '''		for i := 0; i < len(data); i++ {
			eachSig := data[i]
			msg := n.messages[i]
			if eachSig.GetSignature() != nil {
				verify, err := n.verifySignature(eachSig, msg)
				if err != nil || !verify {
					return false, fmt.Errorf("fail to verify signature: %w", err)
				}
			} else {
				return false, errors.New("keysign failed with nil signature")
			}
		}
		n.resp <- data
''', '''		if err := n.verifyAll(data); err != nil {
			return false, err
		}
		n.resp <- data
'''), (NO, '// ProcessSignature is to verify', '''func (n *Notifier) verifyAll(sigs []*common.ECSignature) error {
	for i := range sigs {
		if err := n.verifyAt(i, sigs[i]); err != nil {
			return err
		}
	}
	return nil
}

func (n *Notifier) verifyAt(pos int, sig *common.ECSignature) error {
	if sig.GetSignature() == nil {
		return errors.New("keysign failed with nil signature")
	}
	good, err := n.verifySignature(sig, n.messages[pos])
	if err != nil || !good {
		return fmt.Errorf("fail to verify signature: %w", err)
	}
	return nil
}

// ProcessSignature is to verify'''))
K('notifier early return', (NO, '''	if len(data) != 0 {
		// the sig''', '''	if len(data) == 0 {
		return false, nil
	}
	{
		// the sig'''), (NO, '''		n.resp <- data
		return true, nil
	}
	return false, nil
''', '''		n.resp <- data
		return true, nil
	}
'''))
K('pub key helper', (NO, '''	pubKey, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, n.poolPubKey)
	if err != nil {
		return false, fmt.Errorf("fail to get pubkey from bech32 pubkey string(%s):%w", n.poolPubKey, err)
	}
	pub, err := btcec.ParsePubKey(pubKey.Bytes(), btcec.S256())
	if err != nil {
		return false, err
	}
	return ecdsa.Verify(pub.ToECDSA(), msg, new(big.Int).SetBytes(data.R), new(big.Int).SetBytes(data.S)), nil
''', '''	pub, err := poolKey(n.poolPubKey)
	if err != nil {
		return false, err
	}
	var r, s big.Int
	r.SetBytes(data.GetR())
	s.SetBytes(data.GetS())
	ok := ecdsa.Verify(pub, msg, &r, &s)
	return ok, nil
'''), (NO, '// ProcessSignature is to verify', '''func poolKey(k string) (*ecdsa.PublicKey, error) {
	pubKey, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, k)
	if err != nil {
		return nil, fmt.Errorf("fail to get pubkey from bech32 pubkey string(%s):%w", k, err)
	}
	pub, err := btcec.ParsePubKey(pubKey.Bytes(), btcec.S256())
	if err != nil {
		return nil, err
	}
	return pub.ToECDSA(), nil
}

// ProcessSignature is to verify'''))
# ---- C12
B('C12', 'sort order of sigs flipped', (TK, '		if a.Cmp(b) == -1 {\n			return false\n		}\n		return true\n', '		return a.Cmp(b) == -1\n'))
B('C12', 'unsorted sigs', (TK, '	sort.SliceStable(results, func(i, j int) bool {', '	sorted := append([]*tsslibcommon.ECSignature(nil), results...)\n	sort.SliceStable(sorted, func(i, j int) bool {'))
B('C12', 'sort by bytes', (SS, '		if ma.Cmp(mb) == -1 {', '		if bytes.Compare(msgsToSign[i], msgsToSign[j]) < 0 && ma != nil && mb != nil {'), (SS, 'import (\n', 'import (\n	"bytes"\n'))
B('C12', 'r s swapped in answer', (SS, 'signature := keysign.NewSignature(msg, r, s, recovery)', 'signature := keysign.NewSignature(msg, s, r, recovery)'))
B('C12', 'message off by one', (SS, 'msg := base64.StdEncoding.EncodeToString(msgsToSign[i])', 'msg := base64.StdEncoding.EncodeToString(msgsToSign[len(sigs)-1-i])'))
B('C12', 'early complete', (TK, '			if len(signatures) == reqNum {', '			if len(signatures) >= 1 {'))
B('C12', 'identifier not unique', (TK, '		moniker := m.String() + ":" + strconv.Itoa(i)\n', '		moniker := m.String() + ":" + strconv.Itoa(len(msgsToSign))\n		_ = i\n'))
B('C12', 'request messages used unsorted', (SS, 'receivedSig, errWait = t.waitForSignatures(msgID, req.PoolPubKey, msgsToSign, sigChan)', 'receivedSig, errWait = t.waitForSignatures(msgID, req.PoolPubKey, unordered, sigChan)'), (SS, '	sort.SliceStable(msgsToSign,', '	unordered := append([][]byte(nil), msgsToSign...)\n	sort.SliceStable(msgsToSign,'))
B('C12', 'sign failure answered', (SS, '''		blameNodes := blameMgr.GetBlame().Snapshot()
		return keysign.Response{
			Status: common.Fail,
			Blame:  blameNodes,
		}, nil
	}

	sigChan <-''', '''		blameNodes := blameMgr.GetBlame().Snapshot()
		return keysign.Response{
			Status: common.Success,
			Blame:  blameNodes,
		}, nil
	}

	sigChan <-'''))
B('C12', 'duplicate skipped', (SS, '		signature := keysign.NewSignature(msg, r, s, recovery)\n', '		signature := keysign.NewSignature(msg, r, s, recovery)\n		if i > 0 && string(msgsToSign[i]) == string(msgsToSign[i-1]) {\n			continue\n		}\n'))
B('C12', 'signer other local state', (TK, 'signing.NewLocalParty(m, params, localStateItem.LocalData, outCh, endCh)', 'signing.NewLocalParty(m, params, keygenData(localStateItem), outCh, endCh)'), (TK, '// signMessage\n', 'func keygenData(s storage.KeygenLocalState) (d keygen.LocalPartySaveData) {\n	return d\n}\n\n// signMessage\n'), (TK, '	"github.com/binance-chain/tss-lib/ecdsa/signing"\n', '	"github.com/binance-chain/tss-lib/ecdsa/keygen"\n	"github.com/binance-chain/tss-lib/ecdsa/signing"\n'))
B('C12', 'repeated messages signed once', (TK, '		moniker := m.String() + ":" + strconv.Itoa(i)\n', '		moniker := m.String() + ":" + strconv.Itoa(i)\n		if i > 0 && string(val) == string(msgsToSign[i-1]) {\n			continue\n		}\n'))
K('sort helper', (SS, '	sort.SliceStable(msgsToSign, func(i, j int) bool {', '	t.orderMessages(msgsToSign)\n\n	oldJoinParty, err := conversion.VersionLTCheck(req.Version, messages.NEWJOINPARTYVERSION)\n	return t.keySign2(req, msgID, msgsToSign, oldJoinParty, err, localStateItem, keysignInstance)\n}\n\nfunc (t *TssServer) orderMessages(msgsToSign [][]byte) {\n	sort.SliceStable(msgsToSign, func(i, j int) bool {'), (SS, '''		if ma.Cmp(mb) == -1 {
			return false
		}
		return true
	})

	oldJoinParty, err := conversion.VersionLTCheck(req.Version, messages.NEWJOINPARTYVERSION)
''', '''		return ma.Cmp(mb) != -1
	})
}

func (t *TssServer) keySign2(req keysign.Request, msgID string, msgsToSign [][]byte, oldJoinParty bool, err error, localStateItem storage.KeygenLocalState, keysignInstance *keysign.TssKeySign) (keysign.Response, error) {
	emptyResp := keysign.Response{}
'''))
K('sort both ascending', (SS, '		if ma.Cmp(mb) == -1 {\n			return false\n		}\n		return true\n', '		return ma.Cmp(mb) < 0\n'), (TK, '		if a.Cmp(b) == -1 {\n			return false\n		}\n		return true\n', '		return b.Cmp(a) > 0\n'))
K('batch prealloc', (SS, '''	var signatures []keysign.Signature
	for i, sig := range sigs {
		msg := base64.StdEncoding.EncodeToString(msgsToSign[i])
		r := base64.StdEncoding.EncodeToString(sig.R)
		s := base64.StdEncoding.EncodeToString(sig.S)
		recovery := base64.StdEncoding.EncodeToString(sig.SignatureRecovery)

		signature := keysign.NewSignature(msg, r, s, recovery)
		signatures = append(signatures, signature)
	}
''', '''	signatures := make([]keysign.Signature, len(sigs))
	enc := base64.StdEncoding
	for i := 0; i < len(sigs); i++ {
		signatures[i] = keysign.Signature{
			Msg:        enc.EncodeToString(msgsToSign[i]),
			R:          enc.EncodeToString(sigs[i].GetR()),
			S:          enc.EncodeToString(sigs[i].GetS()),
			RecoveryID: enc.EncodeToString(sigs[i].GetSignatureRecovery()),
		}
	}
'''))
K('batch one helper', (SS, '''		msg := base64.StdEncoding.EncodeToString(msgsToSign[i])
		r := base64.StdEncoding.EncodeToString(sig.R)
		s := base64.StdEncoding.EncodeToString(sig.S)
		recovery := base64.StdEncoding.EncodeToString(sig.SignatureRecovery)

		signature := keysign.NewSignature(msg, r, s, recovery)
		signatures = append(signatures, signature)
''', '''		signatures = append(signatures, toSignature(sig, msgsToSign[i]))
'''), (SS, 'func (t *TssServer) batchSignatures(', '''func toSignature(sig *tsslibcommon.ECSignature, msg []byte) keysign.Signature {
	return keysign.NewSignature(b64(msg), b64(sig.R), b64(sig.S), b64(sig.SignatureRecovery))
}

func b64(in []byte) string { return base64.StdEncoding.EncodeToString(in) }

func (t *TssServer) batchSignatures('''))
K('collect signatures', (TK, '''			signatures = append(signatures, msg.GetSignature())
			if len(signatures) == reqNum {
''', '''			signatures = append(signatures, msg.GetSignature())
			if len(signatures) < reqNum {
				continue
			}
			{
'''))
K('party per message helper', (TK, '''		eachLocalPartyID.Moniker = moniker
		tKeySign.localParties = nil
		params := btss.NewParameters(ctx, eachLocalPartyID, len(partiesID), threshold)
		keySignParty := signing.NewLocalParty(m, params, localStateItem.LocalData, outCh, endCh)
		keySignPartyMap.Store(moniker, keySignParty)
''', '''		tKeySign.localParties = nil
		eachLocalPartyID.Moniker = moniker
		params := btss.NewParameters(ctx, eachLocalPartyID, len(partiesID), threshold)
		addParty(keySignPartyMap, moniker, signing.NewLocalParty(m, params, localStateItem.LocalData, outCh, endCh))
'''), (TK, '// signMessage\n', '''func addParty(parties *sync.Map, id string, p btss.Party) {
	parties.Store(id, p)
}

// signMessage
'''))

# ---- C10 / C28
ST='storage/localstate_mgr.go'
B('C10','world readable',(ST,'0o600','0o644'))
B('C10','short name',(ST,'"localstate-%s.json", pubKey)','"localstate-%.20s.json", pubKey)'))
B('C10','short name slice',(ST,'"localstate-%s.json", pubKey)','"localstate-%s.json", pubKey[len(pubKey)-8:])'))
B('C10','write error ignored',(ST,'	return ioutil.WriteFile(filePathName, buf, 0o600)','	_ = ioutil.WriteFile(filePathName, buf, 0o600)\n	return nil'))
B('C10','only local data',(ST,'json.Marshal(state)','json.Marshal(KeygenLocalState{PubKey: state.PubKey, LocalData: state.LocalData, LocalPartyKey: state.LocalPartyKey})'))
B('C10','no key check',(ST,'''	if !ret {
		return "", errors.New("invalid pubkey for file name")
	}
''','''	_ = ret
'''))
B('C10','decode error ignored',(ST,'''	if err := json.Unmarshal(buf, &localState); nil != err {
		return KeygenLocalState{}, fmt.Errorf("fail to unmarshal KeygenLocalState: %w", err)
	}
''','''	if err := json.Unmarshal(buf, &localState); nil != err && len(localState.PubKey) == 0 {
		return KeygenLocalState{}, fmt.Errorf("fail to unmarshal KeygenLocalState: %w", err)
	}
'''))
B('C10','missing file is empty',(ST,'''		return KeygenLocalState{}, err
	}

	buf, err''','''		return KeygenLocalState{PubKey: pubKey}, nil
	}

	buf, err'''))
B('C10','party key not stored',(ST,'`json:"local_party_key"`','`json:"-"`'))
B('C10','same json name',(ST,'`json:"local_party_key"`','`json:"pub_key"`'))
B('C10','key check constant',('conversion/conversion.go','return curve.IsOnCurve(x, y)','return curve.IsOnCurve(x, y) || x.Sign() > 0'))
B('C10','local key dropped',(ST,'	buf, err := json.Marshal(state)','	state.ParticipantKeys = nil\n	buf, err := json.Marshal(state)'))
B('C10','no truncation',(ST,'	return ioutil.WriteFile(filePathName, buf, 0o600)','''	f, err := os.OpenFile(filePathName, os.O_CREATE|os.O_WRONLY, 0o600)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = f.Write(buf)
	return err'''))
B('C10','temp not renamed on success only',(ST,'	return ioutil.WriteFile(filePathName, buf, 0o600)','''	tmp := filePathName + ".tmp"
	if err := ioutil.WriteFile(tmp, buf, 0o600); err != nil {
		return err
	}
	if _, err := os.Stat(filePathName); err == nil {
		return nil
	}
	return os.Rename(tmp, filePathName)'''))
K('write then rename',(ST,'	return ioutil.WriteFile(filePathName, buf, 0o600)','''	tmp := filePathName + ".tmp"
	if err := ioutil.WriteFile(tmp, buf, 0o600); err != nil {
		return fmt.Errorf("fail to write: %w", err)
	}
	return os.Rename(tmp, filePathName)'''))
K('open and write',(ST,'	return ioutil.WriteFile(filePathName, buf, 0o600)','''	f, err := os.OpenFile(filePathName, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o600)
	if err != nil {
		return err
	}
	_, err = f.Write(buf)
	if errClose := f.Close(); err == nil {
		err = errClose
	}
	return err'''))
K('name by plus',(ST,'fmt.Sprintf("localstate-%s.json", pubKey)','"localstate-" + pubKey + ".json"'))
K('read helper',(ST,'''	var localState KeygenLocalState
	if err := json.Unmarshal(buf, &localState); nil != err {
		return KeygenLocalState{}, fmt.Errorf("fail to unmarshal KeygenLocalState: %w", err)
	}
	return localState, nil
}
''','''	return decodeState(buf)
}

func decodeState(buf []byte) (KeygenLocalState, error) {
	var out KeygenLocalState
	err := json.Unmarshal(buf, &out)
	if err != nil {
		return KeygenLocalState{}, fmt.Errorf("fail to unmarshal KeygenLocalState: %w", err)
	}
	return out, nil
}
'''))
K('name inline',(ST,'''	localFileName := fmt.Sprintf("localstate-%s.json", pubKey)
	if len(fsm.folder) > 0 {
		return filepath.Join(fsm.folder, localFileName), nil
	}
	return localFileName, nil''','''	return filepath.Join(fsm.folder, fmt.Sprintf("localstate-%s.json", pubKey)), nil'''))
B('C28','wrong peer per line',(ST,'''	for peer, addrs := range address {
		for _, addr := range addrs {''','''	var last string
	for peer, addrs := range address {
		if last == "" {
			last = peer.String()
		}
		for _, addr := range addrs {'''),(ST,'peer.String() + "\\n"','last + "\\n"'))
B('C28','first address only',(ST,'''				return errors.New("fail to write the record to buffer")
			}
''','''				return errors.New("fail to write the record to buffer")
			}
			break
'''))
B('C28','skips loopback peers',(ST,'''				continue
			}
			record''','''				break
			}
			record'''))
B('C28','skips local addresses',(ST,'if strings.Contains(addr.String(), "127.0.0.1") {','if strings.Contains(addr.String(), "127.0.0.1") || strings.Contains(addr.String(), "/ip4/10.") {'))
B('C28','no line feed',(ST,'peer.String() + "\\n"','peer.String()'))
B('C28','no lock',(ST,'''	fsm.writeLock.Lock()
	defer fsm.writeLock.Unlock()
	return ioutil.WriteFile(filePathName, buf.Bytes''','''	return ioutil.WriteFile(filePathName, buf.Bytes'''))
B('C28','read lock to write',(ST,'''	fsm.writeLock.Lock()
	defer fsm.writeLock.Unlock()
	return ioutil.WriteFile(filePathName, buf.Bytes''','''	fsm.writeLock.RLock()
	defer fsm.writeLock.RUnlock()
	return ioutil.WriteFile(filePathName, buf.Bytes'''))
B('C28','bad line skipped',(ST,'''			return nil, fmt.Errorf("invalid address in address book %w", err)''','''			continue'''))
B('C28','bad line ends',(ST,'''			return nil, fmt.Errorf("invalid address in address book %w", err)''','''			break'''))
B('C28','last line dropped',(ST,'''	for _, el := range data {
		// we''','''	for _, el := range data[:len(data)-1] {
		// we'''))
B('C28','other file',(ST,'''	filePathName := filepath.Join(fsm.folder, "address_book.seed")

	_, err''','''	filePathName := filepath.Join(fsm.folder, "address_book.txt")

	_, err'''))
B('C28','saved only',('tss/tss.go','''		bootstrapPeers = append(bootstrapPeers, cmdBootstrapPeers...)
''',''))
B('C28','configured only',('tss/tss.go','''		bootstrapPeers = savedPeers
''','''		_ = savedPeers
'''))
B('C28','none on error',('tss/tss.go','''	if err != nil {
		bootstrapPeers = cmdBootstrapPeers
	} else {''','''	if err == nil {'''))
K('record format',(ST,'addr.String() + "/p2p/" + peer.String() + "\\n"','fmt.Sprintf("%s/p2p/%s\\n", addr.String(), peer.String())'))
K('fprintf',(ST,'''			record := addr.String() + "/p2p/" + peer.String() + "\\n"
			_, err := buf.WriteString(record)
			if err''','''			_, err := fmt.Fprintf(&buf, "%s/p2p/%s\\n", addr, peer)
			if err'''))
K('record helper',(ST,'''			record := addr.String() + "/p2p/" + peer.String() + "\\n"
			_, err := buf.WriteString(record)
''','''			_, err := buf.WriteString(addressRecord(peer, addr))
'''),(ST,'func (fsm *FileStateMgr) SaveAddressBook','''func addressRecord(id peer.ID, address ma.Multiaddr) string {
	return address.String() + "/p2p/" + id.String() + "\\n"
}

func (fsm *FileStateMgr) SaveAddressBook'''))
K('lines joined',(ST,'	var buf bytes.Buffer\n','	var records []string\n'),(ST,'''			record := addr.String() + "/p2p/" + peer.String() + "\\n"
			_, err := buf.WriteString(record)
			if err != nil {
				return errors.New("fail to write the record to buffer")
			}
''','''			records = append(records, addr.String()+"/p2p/"+peer.String())
'''),(ST,'buf.Bytes()','[]byte(strings.Join(records, "\\n"))'),(ST,'	"bytes"\n',''))
K('nested condition',(ST,'''			if strings.Contains(addr.String(), "127.0.0.1") {
				continue
			}
			record := addr.String() + "/p2p/" + peer.String() + "\\n"
			_, err := buf.WriteString(record)
			if err != nil {
				return errors.New("fail to write the record to buffer")
			}
''','''			text := addr.String()
			if !strings.Contains(text, "127.0.0.1") {
				if _, err := buf.WriteString(text + "/p2p/" + peer.String() + "\\n"); err != nil {
					return errors.New("fail to write the record to buffer")
				}
			}
'''))
K('deferred read lock',(ST,'''	fsm.writeLock.RLock()
	input, err := ioutil.ReadFile(filePathName)
	if err != nil {
		fsm.writeLock.RUnlock()
		return nil, err
	}
	fsm.writeLock.RUnlock()
''','''	fsm.writeLock.RLock()
	defer fsm.writeLock.RUnlock()
	input, err := ioutil.ReadFile(filePathName)
	if err != nil {
		return nil, err
	}
'''))
K('file helper',(ST,'''	filePathName := filepath.Join(fsm.folder, "address_book.seed")
	var buf''','''	filePathName := fsm.addressBook()
	var buf'''),(ST,'''	filePathName := filepath.Join(fsm.folder, "address_book.seed")

	_, err''','''	filePathName := fsm.addressBook()

	_, err'''),(ST,'func (fsm *FileStateMgr) SaveAddressBook','''func (fsm *FileStateMgr) addressBook() string {
	return filepath.Join(fsm.folder, "address_book.seed")
}

func (fsm *FileStateMgr) SaveAddressBook'''))
K('index loop lines',(ST,'''	for _, el := range data {
		// we skip the empty entry
		if len(el) == 0 {
			continue
		}
''','''	for i := 0; i < len(data); i++ {
		el := data[i]
		if el == "" {
			continue
		}
'''))
K('bootstrap append',('tss/tss.go','''	if err != nil {
		bootstrapPeers = cmdBootstrapPeers
	} else {
		bootstrapPeers = savedPeers
		bootstrapPeers = append(bootstrapPeers, cmdBootstrapPeers...)
	}
''','''	if err == nil {
		bootstrapPeers = append(bootstrapPeers, savedPeers...)
	}
	bootstrapPeers = append(bootstrapPeers, cmdBootstrapPeers...)
'''))

# ---- C27
HT='cmd/tss/tss_http.go'
B('C27','keygen decode error continues',(HT,'''		t.logger.Error().Err(err).Msg("fail to decode keygen request")
		w.WriteHeader(http.StatusBadRequest)
		return
''','''		t.logger.Error().Err(err).Msg("fail to decode keygen request")
		w.WriteHeader(http.StatusBadRequest)
'''))
B('C27','keysign error answered',(HT,'''		t.logger.Error().Err(err).Msg("fail to key sign")
		w.WriteHeader(http.StatusInternalServerError)
		return
''','''		t.logger.Error().Err(err).Msg("fail to key sign")
'''))
B('C27','keysign error 200',(HT,'''		t.logger.Error().Err(err).Msg("fail to key sign")
		w.WriteHeader(http.StatusInternalServerError)
		return
''','''		t.logger.Error().Err(err).Msg("fail to key sign")
		return
'''))
B('C27','request changed',(HT,'t.tssServer.KeySign(keySignReq)','t.tssServer.KeySign(keysign.NewRequest(keySignReq.PoolPubKey, keySignReq.Messages, keySignReq.BlockHeight, nil, keySignReq.Version))'))
B('C27','method of keysign',(HT,'''	if r.Method != http.MethodPost {
		w.WriteHeader(http.StatusMethodNotAllowed)
		return
	}
	defer func() {
		if err := r.Body.Close(); nil != err {
			t.logger.Error().Err(err).Msg("fail to close request body")
		}
	}()
	t.logger.Info().Msg("receive key sign request")
''','''	defer func() {
		if err := r.Body.Close(); nil != err {
			t.logger.Error().Err(err).Msg("fail to close request body")
		}
	}()
	t.logger.Info().Msg("receive key sign request")
'''))
B('C27','routes swapped',(HT,'"/keysign", http.HandlerFunc(t.keySignHandler)','"/keysign", http.HandlerFunc(t.keygenHandler)'))
B('C27','get keygen',(HT,'t.keygenHandler)).Methods(http.MethodPost)','t.keygenHandler)).Methods(http.MethodPost, http.MethodGet)'))
B('C27','keygen retried',(HT,'''		t.logger.Error().Err(err).Msg("fail to key gen")
''','''		t.logger.Error().Err(err).Msg("fail to key gen")
		resp, err = t.tssServer.Keygen(keygenReq)
'''))
B('C27','stop keeps signer',(HT,'''		log.Error().Err(err).Msg("Failed to shutdown the Tss server gracefully")
''','''		log.Error().Err(err).Msg("Failed to shutdown the Tss server gracefully")
		return err
'''))
B('C27','start error ignored',(HT,'''		return fmt.Errorf("fail to start tss server: %w", err)
''','''		t.logger.Error().Err(err).Msg("fail to start tss server")
'''))
B('C27','all interfaces',('cmd/tss/main.go','"127.0.0.1:8080"','":8080"'))
B('C27','encode error answers empty',(HT,'''		t.logger.Error().Err(err).Msg("fail to marshal response to json message")
		w.WriteHeader(http.StatusInternalServerError)
		return
''','''		t.logger.Error().Err(err).Msg("fail to marshal response to json message")
'''))
B('C27','answers request',(HT,'json.MarshalIndent(signResp, "", "	")','json.MarshalIndent(keysign.Response{Status: signResp.Status}, "", "	")'))
B('C27','bad body status',(HT,'''		t.logger.Error().Err(err).Msg("fail to decode key sign request")
		w.WriteHeader(http.StatusBadRequest)
''','''		t.logger.Error().Err(err).Msg("fail to decode key sign request")
		w.WriteHeader(http.StatusOK)
'''))
K('http helper decode',(HT,'''	decoder := json.NewDecoder(r.Body)
	var keygenReq keygen.Request
	if err := decoder.Decode(&keygenReq); nil != err {
		t.logger.Error().Err(err).Msg("fail to decode keygen request")
		w.WriteHeader(http.StatusBadRequest)
		return
	}
''','''	var keygenReq keygen.Request
	if !t.decode(w, r, &keygenReq) {
		return
	}
'''),(HT,'func (t *TssHttpServer) keySignHandler','''func (t *TssHttpServer) decode(w http.ResponseWriter, r *http.Request, into interface{}) bool {
	if err := json.NewDecoder(r.Body).Decode(into); err != nil {
		t.logger.Error().Err(err).Msg("fail to decode request")
		w.WriteHeader(http.StatusBadRequest)
		return false
	}
	return true
}

func (t *TssHttpServer) keySignHandler'''))
K('http helper reply',(HT,'''	buf, err := json.Marshal(resp)
	if err != nil {
		t.logger.Error().Err(err).Msg("fail to marshal response to json")
		w.WriteHeader(http.StatusInternalServerError)
		return
	}
	_, err = w.Write(buf)
	if err != nil {
		t.logger.Error().Err(err).Msg("fail to write to response")
	}
''','''	t.reply(w, resp)
'''),(HT,'func (t *TssHttpServer) keySignHandler','''func (t *TssHttpServer) reply(w http.ResponseWriter, resp interface{}) {
	buf, err := json.Marshal(resp)
	if err != nil {
		t.logger.Error().Err(err).Msg("fail to marshal response to json")
		w.WriteHeader(http.StatusInternalServerError)
		return
	}
	if _, err := w.Write(buf); err != nil {
		t.logger.Error().Err(err).Msg("fail to write to response")
	}
}

func (t *TssHttpServer) keySignHandler'''))
K('http read all',(HT,'''	decoder := json.NewDecoder(r.Body)
	if err := decoder.Decode(&keySignReq); nil != err {
''','''	body, err := ioutil.ReadAll(r.Body)
	if err == nil {
		err = json.Unmarshal(body, &keySignReq)
	}
	if nil != err {
'''),(HT,'	"fmt"\n','	"fmt"\n	"io/ioutil"\n'))
K('http method switch',(HT,'''	if r.Method != http.MethodPost {
		w.WriteHeader(http.StatusMethodNotAllowed)
		return
	}
	defer func() {
		if err := r.Body.Close(); nil != err {
			t.logger.Error().Err(err).Msg("fail to close request body")
		}
	}()
	t.logger.Info().Msg("receive key gen request")
''','''	switch r.Method {
	case http.MethodPost:
	default:
		http.Error(w, "", http.StatusMethodNotAllowed)
		return
	}
	defer r.Body.Close()
	t.logger.Info().Msg("receive key gen request")
'''))
K('http routes func',(HT,'router.Handle("/keygen", http.HandlerFunc(t.keygenHandler))','router.HandleFunc("/keygen", t.keygenHandler)'))
# ---- C25
RE='cmd/tss-recovery/tss-recovery.go'
RK='cmd/tss-recovery/key.go'
RT_='cmd/tss-recovery/tool.go'
B('C25','no comparison',(RE,'	if thorchainpk != allSecret[0].PubKey {\n','	if thorchainpk == "" {\n'))
B('C25','printed first',(RE,'	pk := privKey.PubKey()\n','	fmt.Printf("recovered %v\\n", privKey)\n	pk := privKey.PubKey()\n'))
B('C25','mismatch warned',(RE,'''		fmt.Printf("the recovered key does not belong to the pool %s\\n", allSecret[0].PubKey)
		os.Exit(1)
''','''		fmt.Printf("the recovered key does not belong to the pool %s\\n", allSecret[0].PubKey)
'''))
B('C25','export world',(RE,'0o600','0o644'))
B('C25','key of first share',(RE,'ID:        el.LocalData.ShareID,','ID:        allSecret[0].LocalData.ShareID,'))
B('C25','export raw',(RE,'json.Marshal(keyfile)','json.Marshal(map[string]interface{}{"key": privKey.Serialize(), "enc": keyfile})'))
B('C25','salt of iv',(RK,'scryptParamsJSON["salt"] = hex.EncodeToString(salt)','scryptParamsJSON["salt"] = hex.EncodeToString(iv)'))
B('C25','count',(RK,'scryptParamsJSON["c"] = 262144','scryptParamsJSON["c"] = 26214'))
B('C25','mac over plain',(RK,'hasher.Write(cipherText)','hasher.Write(privKey)'))
B('C25','mac key half',(RK,'derivedKey[16:32]','derivedKey[0:16]'))
B('C25','iv is salt',(RK,'''	iv, err := generateRandomBytes(16)
	if err != nil {
		return nil, err
	}
''','''	iv := salt[:16]
'''))
B('C25','random error ignored',(RT_,'''	_, err := rand.Read(b)
	// Note that err == nil only if we read len(b) bytes.
	if err != nil {
		return nil, err
	}
	return b, nil''','''	_, _ = rand.Read(b[:n/2])
	return b, nil'''))
B('C25','json names',(RT_,'`json:"local_data"`','`json:"localdata"`'))
B('C25','read error skipped',(RE,'''			fmt.Printf("---%v\\n", err)
			os.Exit(1)
''','''			fmt.Printf("---%v\\n", err)
			continue
'''))
B('C25','password of path',(RE,'exportKeyStore(privKey.Serialize(), *password)','exportKeyStore(privKey.Serialize(), "")'))
B('C25','plain aes',(RT_,'	stream.XORKeyStream(outText, inText)\n','	stream.XORKeyStream(outText, outText)\n'))
K('recovery helper',(RE,'''	for i, el := range allSecret {
		share := vss.Share{
			Threshold: threshold,
			ID:        el.LocalData.ShareID,
			Share:     el.LocalData.Xi,
		}
		vssShares[i] = &share
	}
''','''	for i := range allSecret {
		vssShares[i] = newShare(threshold, allSecret[i])
	}
'''),(RE,'func main() {','''func newShare(threshold int, s KeygenLocalState) *vss.Share {
	return &vss.Share{Threshold: threshold, ID: s.LocalData.ShareID, Share: s.LocalData.Xi}
}

func main() {'''))
K('recovery fail helper',(RE,'''		fmt.Printf("error in tss verify: %v\\n", err)
		os.Exit(1)
''','''		fail("error in tss verify: %v\\n", err)
'''),(RE,'func main() {','''func fail(format string, err error) {
	fmt.Printf(format, err)
	os.Exit(1)
}

func main() {'''))
K('pubkey direct',(RE,'getTssPubKey(pk.X, pk.Y)','getTssPubKey(pk.GetX(), pk.GetY())'))
K('mac helper',(RK,'''	hasher := sha3.NewLegacyKeccak512()
	_, err = hasher.Write(derivedKey[16:32])
	if err != nil {
		return nil, err
	}
	_, err = hasher.Write(cipherText)
	if err != nil {
		return nil, err
	}
	mac := hasher.Sum(nil)
''','''	mac := keyMAC(derivedKey, cipherText)
'''),(RK,'func exportKeyStore','''func keyMAC(derived, text []byte) []byte {
	hasher := sha3.NewLegacyKeccak512()
	_, _ = hasher.Write(derived[16:32])
	_, _ = hasher.Write(text)
	return hasher.Sum(nil)
}

func exportKeyStore'''))
K('kdf literal',(RK,'''	scryptParamsJSON := make(map[string]interface{}, 4)
	scryptParamsJSON["prf"] = "hmac-sha256"
	scryptParamsJSON["dklen"] = 32
	scryptParamsJSON["salt"] = hex.EncodeToString(salt)
	scryptParamsJSON["c"] = 262144
''','''	const rounds = 262144
	scryptParamsJSON := map[string]interface{}{
		"prf":   "hmac-sha256",
		"dklen": 32,
		"salt":  hex.EncodeToString(salt),
		"c":     rounds,
	}
'''))
# ---- C17
SH='p2p/stream_helper.go'; CM='p2p/communication.go'; PC='p2p/party_coordinator.go'; SU='p2p/message_id_subscriber.go'; SNO='keysign/signature_notifier.go'
TKS='tss/keysign.go'; TKG='tss/keygen.go'
B('C17','limit inverted scale',(SH,'if length > MaxPayload {','if length > MaxPayload*10 {'))
B('C17','limit after allocation',(SH,'''	if length > MaxPayload {
		return nil, fmt.Errorf("payload length:%d exceed max payload length:%d", length, MaxPayload)
	}
	dataBuf := make([]byte, length)
''','''	dataBuf := make([]byte, length)
	if length > MaxPayload {
		return nil, fmt.Errorf("payload length:%d exceed max payload length:%d", length, MaxPayload)
	}
'''))
B('C17','plain read',(SH,'n, err = io.ReadFull(streamReader, dataBuf)','n, err = streamReader.Read(dataBuf)'))
B('C17','short read accepted',(SH,'if uint32(n) != length || err != nil {','if uint32(n) != length && err != nil && n == 0 {'))
B('C17','big endian on read',(SH,'binary.LittleEndian.Uint32(','binary.BigEndian.Uint32('))
B('C17','second buffer',(SH,'n, err = io.ReadFull(streamReader, dataBuf)','n, err = io.ReadFull(bufio.NewReader(stream), dataBuf)'))
B('C17','deadline error ignored',(SH,'''		if err := stream.SetReadDeadline(time.Now().Add(TimeoutReadPayload)); nil != err {
			if errReset := stream.Reset(); errReset != nil {
				return nil, errReset
			}
			return nil, err
		}
''','''		if err := stream.SetReadDeadline(time.Now().Add(TimeoutReadPayload)); nil != err {
			_ = err
		}
'''))
B('C17','write deadline used for reading',(SH,'stream.SetReadDeadline(time.Now()','stream.SetWriteDeadline(time.Now()'))
B('C17','no deadline on write',(SH,'''	if ApplyDeadline {
		if err := stream.SetWriteDeadline''','''	if !ApplyDeadline {
		if err := stream.SetWriteDeadline'''))
B('C17','flush error ignored',(SH,'''	err = streamWrite.Flush()
	if err != nil {
		return fmt.Errorf("fail to flush stream: %w", err)
	}
''','''	_ = streamWrite.Flush()
'''))
B('C17','flush deferred',(SH,'''	err = streamWrite.Flush()
	if err != nil {
		return fmt.Errorf("fail to flush stream: %w", err)
	}
''',''),(SH,'''	n, err := streamWrite.Write(lengthBytes)
''','''	defer streamWrite.Flush()
	n, err := streamWrite.Write(lengthBytes)
'''))
B('C17','length of header included',(SH,'length := uint32(len(msg))','length := uint32(len(msg) + LengthHeader)'),(SH,'if uint32(n) != length {\n		return fmt.Errorf("short write','if uint32(n) > length {\n		return fmt.Errorf("short write'))
B('C17','write error swallowed',(SH,'''	n, err = streamWrite.Write(msg)
	if err != nil {
		return err
	}
''','''	n, err = streamWrite.Write(msg)
'''),(SH,'if uint32(n) != length {\n		return fmt.Errorf("short write','if uint32(n) > length {\n		return fmt.Errorf("short write')) if False else None
B('C17','raw ack write',(SNO,'err = p2p.WriteStreamWithBuffer([]byte("done"), stream)','_, err = stream.Write([]byte("done"))'))
B('C17','read all',(SNO,'''	ret := make([]byte, 8)
	_, err = stream.Read(ret)
	return err
''','''	_, err = ioutil.ReadAll(stream)
	return err
'''),(SNO,'	"fmt"\n','	"fmt"\n	"io/ioutil"\n'))
B('C17','deadline in the past',(SH,'SetReadDeadline(time.Now().Add(TimeoutReadPayload))','SetReadDeadline(time.Time{})'))
K('frame in one write',(SH,'''	n, err := streamWrite.Write(lengthBytes)
	if n != LengthHeader || err != nil {
		return fmt.Errorf("fail to write head: %w", err)
	}
	n, err = streamWrite.Write(msg)
	if err != nil {
		return err
	}
	if uint32(n) != length {
''','''	n, err := streamWrite.Write(append(lengthBytes, msg...))
	if err != nil {
		return err
	}
	if uint32(n) != length+LengthHeader {
'''))
K('deadline helper',(SH,'''	if ApplyDeadline {
		if err := stream.SetReadDeadline(time.Now().Add(TimeoutReadPayload)); nil != err {
			if errReset := stream.Reset(); errReset != nil {
				return nil, errReset
			}
			return nil, err
		}
	}
	streamReader''','''	if err := armRead(stream); err != nil {
		return nil, err
	}
	streamReader'''),(SH,'// ReadStreamWithBuffer','''func armRead(stream network.Stream) error {
	if !ApplyDeadline {
		return nil
	}
	err := stream.SetReadDeadline(time.Now().Add(TimeoutReadPayload))
	if err == nil {
		return nil
	}
	if errReset := stream.Reset(); errReset != nil {
		return errReset
	}
	return err
}

// ReadStreamWithBuffer'''))
K('read frame helpers',(SH,'''	lengthBytes := make([]byte, LengthHeader)
	n, err := io.ReadFull(streamReader, lengthBytes)
	if n != LengthHeader || err != nil {
		return nil, fmt.Errorf("error in read the message head %w", err)
	}
	length := binary.LittleEndian.Uint32(lengthBytes)
	if length > MaxPayload {
		return nil, fmt.Errorf("payload length:%d exceed max payload length:%d", length, MaxPayload)
	}
	dataBuf := make([]byte, length)
	n, err = io.ReadFull(streamReader, dataBuf)
	if uint32(n) != length || err != nil {
		return nil, fmt.Errorf("short read err(%w), we would like to read: %d, however we only read: %d", err, length, n)
	}
	return dataBuf, nil
}
''','''	length, err := readLength(streamReader)
	if err != nil {
		return nil, err
	}
	dataBuf := make([]byte, length)
	if n, err := io.ReadFull(streamReader, dataBuf); err != nil {
		return nil, fmt.Errorf("short read err(%w), we would like to read: %d, however we only read: %d", err, length, n)
	}
	return dataBuf, nil
}

func readLength(r io.Reader) (uint32, error) {
	var head [LengthHeader]byte
	if _, err := io.ReadFull(r, head[:]); err != nil {
		return 0, fmt.Errorf("error in read the message head %w", err)
	}
	length := binary.LittleEndian.Uint32(head[:])
	if length <= MaxPayload {
		return length, nil
	}
	return 0, fmt.Errorf("payload length:%d exceed max payload length:%d", length, MaxPayload)
}
'''))
# ---- C26
B('C26','loop variable captured',(CM,'''		go func(p peer.ID) {
			defer wgSend.Done()
			if err := c.writeToStream(p, msg, msgID); nil != err {
				c.logger.Error().Err(err).Msg("fail to write to stream")
			}
		}(p)
''','''		go func() {
			defer wgSend.Done()
			if err := c.writeToStream(p, msg, msgID); nil != err {
				c.logger.Error().Err(err).Msg("fail to write to stream")
			}
		}()
'''))
B('C26','first failure ends',(CM,'''	var wgSend sync.WaitGroup
	wgSend.Add(len(peers))
	for _, p := range peers {
		go func(p peer.ID) {
			defer wgSend.Done()
			if err := c.writeToStream(p, msg, msgID); nil != err {
				c.logger.Error().Err(err).Msg("fail to write to stream")
			}
		}(p)
	}
	wgSend.Wait()
''','''	for _, p := range peers {
		if err := c.writeToStream(p, msg, msgID); nil != err {
			c.logger.Error().Err(err).Msg("fail to write to stream")
			return
		}
	}
'''),(CM,'	"sync"\n','	"sync"\n'))
B('C26','self ends the loop',(SNO,'''			// don't send the signature to itself
			continue
''','''			// don't send the signature to itself
			break
'''))
B('C26','no self check',(SNO,'''		if p == s.host.ID() {
			// don't send the signature to itself
			continue
		}
''',''))
B('C26','queue ends on encoding error',(CM,'''				c.logger.Error().Err(err).Msg("fail to marshal a wrapped message to json bytes")
				continue
''','''				c.logger.Error().Err(err).Msg("fail to marshal a wrapped message to json bytes")
				return
'''))
B('C26','empty peers message dropped',(CM,'''			wrappedMsgBytes, err := json.Marshal(msg.WrappedMessage)
''','''			if len(msg.WrappedMessage.Payload) > 1<<16 {
				continue
			}
			wrappedMsgBytes, err := json.Marshal(msg.WrappedMessage)
'''))
B('C26','other message id',(CM,'c.Broadcast(msg.PeersID, wrappedMsgBytes, msg.WrappedMessage.MsgID)','c.Broadcast(msg.PeersID, wrappedMsgBytes, string(msg.WrappedMessage.Payload))'))
B('C26','payload only',(CM,'c.Broadcast(msg.PeersID, wrappedMsgBytes, msg.WrappedMessage.MsgID)','_ = wrappedMsgBytes\n\t\t\tc.Broadcast(msg.PeersID, msg.WrappedMessage.Payload, msg.WrappedMessage.MsgID)'))
B('C26','wrong protocol',(CM,'c.host.NewStream(ctx, pID, TSSProtocolID)','c.host.NewStream(ctx, pID, joinPartyProtocol)'))
B('C26','unbounded context',(SNO,'''	ctx, cancel := context.WithTimeout(context.Background(), time.Second*2)
	defer cancel()
''','''	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
'''))
B('C26','first peer again',(CM,'c.writeToStream(p, msg, msgID); nil','c.writeToStream(peers[0], msg, msgID); nil'))
B('C26','status always success',(SNO,'KeysignStatus: messages.KeysignSignature_Failed,','KeysignStatus: messages.KeysignSignature_Success,'))
B('C26','status never success',(SNO,'		ks.KeysignStatus = messages.KeysignSignature_Success\n',''))
B('C26','one signature missing',(SNO,'for _, el := range m.signatureData {','for _, el := range m.signatureData[1:] {'))
B('C26','encode failure skipped',(SNO,'				return fmt.Errorf("fail to marshal signature data to bytes:%w", err)\n','				continue\n'))
B('C26','handed out to signers only',(TKS,'t.signatureNotifier.BroadcastSignature(msgID, signatureData, allPeersID)','t.signatureNotifier.BroadcastSignature(msgID, signatureData, onlinePeers)'))
B('C26','failure not told',(TKS,'''		sigChan <- "signature generated"
		t.broadcastKeysignFailure(msgID, allPeersID)
		blameNodes''','''		sigChan <- "signature generated"
		blameNodes'''))
B('C26','not handed out for one message',(TKS,'''	if err := t.signatureNotifier.BroadcastSignature(msgID, signatureData, allPeersID); err != nil {
		return keysign.Response{}, fmt.Errorf("fail to broadcast signature:%w", err)
	}
''','''	if len(onlinePeers) < len(allPeersID) {
		if err := t.signatureNotifier.BroadcastSignature(msgID, signatureData, allPeersID); err != nil {
			return keysign.Response{}, fmt.Errorf("fail to broadcast signature:%w", err)
		}
	}
'''))
B('C26','queue not served',(CM,'''	if err == nil {
		c.wg.Add(1)
		go c.ProcessBroadcast()
	}
''','''	if err == nil && len(c.bootstrapPeers) > 0 {
		c.wg.Add(1)
		go c.ProcessBroadcast()
	}
'''))
K('broadcast by index',(CM,'''	for _, p := range peers {
		go func(p peer.ID) {
			defer wgSend.Done()
			if err := c.writeToStream(p, msg, msgID); nil != err {
				c.logger.Error().Err(err).Msg("fail to write to stream")
			}
		}(p)
	}
''','''	for i := range peers {
		p := peers[i]
		go func() {
			defer wgSend.Done()
			err := c.writeToStream(p, msg, msgID)
			if err == nil {
				return
			}
			c.logger.Error().Err(err).Msg("fail to write to stream")
		}()
	}
'''))
K('notifier job by value',(SNO,'''		signature := &signatureItem{
			messageID:     messageID,
			peerID:        p,
			signatureData: sig,
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := s.sendOneMsgToPeer(signature)
			if err != nil {
				s.logger.Error().Err(err).Msgf("fail to send signature to peer %s", signature.peerID.String())
			}
		}()
''','''		wg.Add(1)
		go func(to peer.ID) {
			defer wg.Done()
			item := signatureItem{messageID: messageID, peerID: to}
			item.signatureData = sig
			if err := s.sendOneMsgToPeer(&item); err != nil {
				s.logger.Error().Err(err).Msgf("fail to send signature to peer %s", to.String())
			}
		}(p)
'''))
K('note built at once',(SNO,'''	ks := &messages.KeysignSignature{
		ID:            m.messageID,
		KeysignStatus: messages.KeysignSignature_Failed,
	}

	if m.signatureData != nil {
		var signatures [][]byte
		for _, el := range m.signatureData {
			buf, err := proto.Marshal(el)
			if err != nil {
				return fmt.Errorf("fail to marshal signature data to bytes:%w", err)
			}
			signatures = append(signatures, buf)
		}
		ks.Signatures = signatures
		ks.KeysignStatus = messages.KeysignSignature_Success
	}
''','''	ks := &messages.KeysignSignature{ID: m.messageID}
	if m.signatureData == nil {
		ks.KeysignStatus = messages.KeysignSignature_Failed
	} else {
		ks.KeysignStatus = messages.KeysignSignature_Success
		ks.Signatures = make([][]byte, len(m.signatureData))
		for i := range m.signatureData {
			buf, err := proto.Marshal(m.signatureData[i])
			if err != nil {
				return fmt.Errorf("fail to marshal signature data to bytes:%w", err)
			}
			ks.Signatures[i] = buf
		}
	}
'''))
K('queue loop helper',(CM,'''			wrappedMsgBytes, err := json.Marshal(msg.WrappedMessage)
			if err != nil {
				c.logger.Error().Err(err).Msg("fail to marshal a wrapped message to json bytes")
				continue
			}
			c.logger.Debug().Msgf("broadcast message %s to %+v", msg.WrappedMessage, msg.PeersID)
			c.Broadcast(msg.PeersID, wrappedMsgBytes, msg.WrappedMessage.MsgID)
''','''			c.broadcastOne(msg)
'''),(CM,'func (c *Communication) ReleaseStream','''func (c *Communication) broadcastOne(msg *messages.BroadcastMsgChan) {
	wrapped := msg.WrappedMessage
	buf, err := json.Marshal(wrapped)
	if err != nil {
		c.logger.Error().Err(err).Msg("fail to marshal a wrapped message to json bytes")
		return
	}
	c.Broadcast(msg.PeersID, buf, wrapped.MsgID)
}

func (c *Communication) ReleaseStream'''))
# ---- C30
B('C30','sender from the message',(CM,'			PeerID:  stream.Conn().RemotePeer(),','			PeerID:  peer.ID(wrappedMsg.MsgID),'))
B('C30','local peer as sender',(CM,'			PeerID:  stream.Conn().RemotePeer(),','			PeerID:  stream.Conn().LocalPeer(),'))
B('C30','inner payload delivered',(CM,'			Payload: dataBuf,','			Payload: wrappedMsg.Payload,'))
B('C30','decode error ignored',(CM,'''			c.logger.Error().Err(err).Msg("fail to unmarshal wrapped message bytes")
			c.streamMgr.AddStream("UNKNOWN", stream)
			return
''','''			c.logger.Error().Err(err).Msg("fail to unmarshal wrapped message bytes")
			c.streamMgr.AddStream("UNKNOWN", stream)
'''))
B('C30','dropped when busy',(CM,'''		case <-c.stopChan:
			// nobody''','''		default:
			// nobody'''))
B('C30','fallback to the keygen channel',(CM,'''		if nil == channel {
			c.logger''','''		if nil == channel {
			channel = c.getSubscriber(messages.TSSKeyGenMsg, wrappedMsg.MsgID)
		}
		if nil == channel {
			c.logger'''))
B('C30','subscribe keeps the first',(SU,'''	ms.subscribers[msgID] = channel
''','''	if _, ok := ms.subscribers[msgID]; !ok {
		ms.subscribers[msgID] = channel
	}
'''))
B('C30','subscribe replaces the type',(CM,'''	messageIDSubscribers, ok := c.subscribers[topic]
	if !ok {
		messageIDSubscribers = NewMessageIDSubscriber()
		c.subscribers[topic] = messageIDSubscribers
	}
	messageIDSubscribers.Subscribe''','''	messageIDSubscribers := NewMessageIDSubscriber()
	c.subscribers[topic] = messageIDSubscribers
	messageIDSubscribers.Subscribe'''))
B('C30','subscribe not stored',(CM,'		c.subscribers[topic] = messageIDSubscribers\n','		if len(c.subscribers) < 4 {\n			c.subscribers[topic] = messageIDSubscribers\n		}\n'))
B('C30','cancel drops the type',(CM,'	if messageIDSubscribers.IsEmpty() {\n','	if !messageIDSubscribers.IsEmpty() {\n'))
B('C30','cancel drops always',(CM,'''	if messageIDSubscribers.IsEmpty() {
		delete(c.subscribers, topic)
	}
''','''	delete(c.subscribers, topic)
'''))
B('C30','emptiness of one',(SU,'return len(ms.subscribers) == 0','return len(ms.subscribers) <= 1'))
B('C30','control message not subscribed',(TKS,'	t.p2pCommunication.SetSubscribe(messages.TSSControlMsg, msgID, keySignChannels)\n',''),(TKS,'		t.p2pCommunication.CancelSubscribe(messages.TSSControlMsg, msgID)\n',''))
B('C30','subscribed after the party',(TKG,'	t.p2pCommunication.SetSubscribe(messages.TSSTaskDone, msgID, keygenMsgChannel)\n',''),(TKG,'	t.tssMetrics.KeygenJoinParty(joinPartyTime, true)\n','	t.tssMetrics.KeygenJoinParty(joinPartyTime, true)\n	t.p2pCommunication.SetSubscribe(messages.TSSTaskDone, msgID, keygenMsgChannel)\n'))
B('C30','subscribed under the pool key',(TKS,'t.p2pCommunication.SetSubscribe(messages.TSSTaskDone, msgID, keySignChannels)','t.p2pCommunication.SetSubscribe(messages.TSSTaskDone, req.PoolPubKey, keySignChannels)'))
K('handler flattened',(CM,'''	select {
	case <-c.stopChan:
		return
	default:
		dataBuf, err := ReadStreamWithBuffer(stream)''','''	select {
	case <-c.stopChan:
		return
	default:
	}
	{
		dataBuf, err := ReadStreamWithBuffer(stream)'''))
K('deliver helper',(CM,'''		select {
		case channel <- &Message{
			PeerID:  stream.Conn().RemotePeer(),
			Payload: dataBuf,
		}:
		case <-c.stopChan:
			// nobody may read the channel any more once its session is over
		}
	}
}

''','''		remote := stream.Conn().RemotePeer()
		c.deliver(channel, remote, dataBuf)
	}
}

func (c *Communication) deliver(to chan *Message, from peer.ID, data []byte) {
	msg := new(Message)
	msg.PeerID = from
	msg.Payload = data
	select {
	case to <- msg:
	case <-c.stopChan:
	}
}
'''))
K('subscribe all helper',(TKS,'''	t.p2pCommunication.SetSubscribe(messages.TSSKeySignMsg, msgID, keySignChannels)
	t.p2pCommunication.SetSubscribe(messages.TSSKeySignVerMsg, msgID, keySignChannels)
	t.p2pCommunication.SetSubscribe(messages.TSSControlMsg, msgID, keySignChannels)
	t.p2pCommunication.SetSubscribe(messages.TSSTaskDone, msgID, keySignChannels)

	defer func() {
		t.p2pCommunication.CancelSubscribe(messages.TSSKeySignMsg, msgID)
		t.p2pCommunication.CancelSubscribe(messages.TSSKeySignVerMsg, msgID)
		t.p2pCommunication.CancelSubscribe(messages.TSSControlMsg, msgID)
		t.p2pCommunication.CancelSubscribe(messages.TSSTaskDone, msgID)
''','''	kinds := []messages.THORChainTSSMessageType{messages.TSSKeySignMsg, messages.TSSKeySignVerMsg, messages.TSSControlMsg, messages.TSSTaskDone}
	for _, k := range kinds {
		t.p2pCommunication.SetSubscribe(k, msgID, keySignChannels)
	}

	defer func() {
		for _, k := range kinds {
			t.p2pCommunication.CancelSubscribe(k, msgID)
		}
'''))
K('subscriber lookup inline',(SU,'''	c, ok := ms.subscribers[msgID]
	if !ok {
		return nil
	}
	return c
''','''	return ms.subscribers[msgID]
'''),(CM,'''	if !ok {
		c.logger.Debug().Msgf("fail to find subscribers for %s", topic)
		return nil
	}
	return messageIDSubscribers.GetSubscriber(msgID)
''','''	if ok {
		return messageIDSubscribers.GetSubscriber(msgID)
	}
	c.logger.Debug().Msgf("fail to find subscribers for %s", topic)
	return nil
'''))
# ---- C29
B('C29', 'unknown streams forgotten', (SH, 'streams := append(usedStreams, unknownStreams...)', 'streams := usedStreams\n\t_ = unknownStreams'))
B('C29', 'unknown streams kept', (SH, '	delete(sm.unusedStreams, "UNKNOWN")\n', ''))
B('C29', 'session streams kept', (SH, '	delete(sm.unusedStreams, msgID)\n', ''))
B('C29', 'reset stops at first error', (SH, 'sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")', 'sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")\n\t\t\treturn'))
B('C29', 'only first reset', (SH, '	for _, el := range streams {\n', '	for i, el := range streams {\n\t\tif i > 0 {\n\t\t\tcontinue\n\t\t}\n'))
B('C29', 'first stream reset each time', (SH, 'err := el.Reset()', 'err := streams[0].Reset()\n\t\t_ = el'))
B('C29', 'two sections', (SH, '''	unknownStreams := sm.unusedStreams["UNKNOWN"]
''', '''	unknownStreams := sm.unusedStreams["UNKNOWN"]
	sm.streamLocker.Unlock()
	sm.streamLocker.Lock()
'''))
B('C29', 'read lock', (SH, '	sm.streamLocker.Lock()\n	usedStreams', '	sm.streamLocker.RLock()\n	usedStreams'), (SH, '	sm.streamLocker.Unlock()\n	streams', '	sm.streamLocker.RUnlock()\n	streams'))
B('C29', 'last one only', (SH, 'entries = append(entries, stream)', 'entries = []network.Stream{stream}'))
B('C29', 'second stream not stored', (SH, '''		entries = append(entries, stream)
		sm.unusedStreams[msgID] = entries
''', '''		entries = append(entries, stream)
		_ = entries
'''))
B('C29', 'add without lock', (SH, '''	sm.streamLocker.Lock()
	defer sm.streamLocker.Unlock()
	entries, ok''', '''	entries, ok'''))
B('C29', 'unreadable stream dropped', (CM, '''fail to read from stream,peerID: %s", peerID)
			c.streamMgr.AddStream("UNKNOWN", stream)
''', '''fail to read from stream,peerID: %s", peerID)
'''))
B('C29', 'undecodable stream dropped', (PC, '''		logger.Err(err).Msg("fail to unmarshal party data")
		pc.streamMgr.AddStream("UNKNOWN", stream)
''', '''		logger.Err(err).Msg("fail to unmarshal party data")
'''))
B('C29', 'filed under empty id', (PC, '''	var msg messages.JoinPartyRequest
	if err''', '''	var msg messages.JoinPartyRequest
	pc.streamMgr.AddStream(msg.ID, stream)
	if err'''))
B('C29', 'filed after delivery', (CM, '''		c.streamMgr.AddStream(wrappedMsg.MsgID, stream)
		channel''', '''		channel'''), (CM, '''			Payload: dataBuf,
		}:
''', '''			Payload: dataBuf,
		}:
			c.streamMgr.AddStream(wrappedMsg.MsgID, stream)
'''))
B('C29', 'filed only if registered', (CM, '''		c.streamMgr.AddStream(wrappedMsg.MsgID, stream)
		channel := c.getSubscriber(wrappedMsg.MessageType, wrappedMsg.MsgID)
		if nil == channel {''', '''		channel := c.getSubscriber(wrappedMsg.MessageType, wrappedMsg.MsgID)
		if nil != channel {
			c.streamMgr.AddStream(wrappedMsg.MsgID, stream)
		}
		if nil == channel {'''))
B('C29', 'written stream filed on success only', (CM, '''	defer func() {
		c.streamMgr.AddStream(msgID, stream)
	}()
	c.logger.Debug().Msgf(">>>writing messages to peer(%s)", pID)

	return WriteStreamWithBuffer(msg, stream)''', '''	if err := WriteStreamWithBuffer(msg, stream); err != nil {
		return err
	}
	c.streamMgr.AddStream(msgID, stream)
	return nil'''))
B('C29', 'filed too late', (SNO, '''	defer func() {
		s.streamMgr.AddStream(m.messageID, stream)
	}()
''', ''), (SNO, '	err = p2p.WriteStreamWithBuffer(ksBuf, stream)\n	if err', '	s.streamMgr.AddStream(m.messageID, stream)\n	err = p2p.WriteStreamWithBuffer(ksBuf, stream)\n	if err'))
B('C29', 'coordinator closes only', (PC, '''		pc.streamMgr.AddStream(msgID, stream)
		if err := stream.Close()''', '''		if err := stream.Close()'''))
B('C29', 'coordinator other id', (PC, 'pc.streamMgr.AddStream(msgID, stream)', 'pc.streamMgr.AddStream(remotePeer.String(), stream)'))
B('C29', 'member streams unfiled', (PC, '	pc.streamMgr.AddStream(respMsg.ID, stream)\n', ''))
B('C29', 'handler kept', (PC, '	pc.host.RemoveStreamHandler(joinPartyProtocolWithLeader)\n', ''))
B('C29', 'stop channel open', (CM, '	close(c.stopChan)\n', ''))
B('C29', 'not waited', (CM, '	close(c.stopChan)\n	c.wg.Wait()', '	close(c.stopChan)'))
B('C29', 'return on close error', (CM, 'c.logger.Err(err).Msg("fail to close host network")', 'c.logger.Err(err).Msg("fail to close host network")\n\t\treturn err'))
B('C29', 'coordinator not stopped', ('tss/tss.go', '	t.partyCoordinator.Stop()\n', ''))
B('C29', 'coordinator not stopped on error', ('tss/tss.go', '		t.logger.Error().Msgf("error in shutdown the p2p server")\n', '		t.logger.Error().Msgf("error in shutdown the p2p server")\n\t\treturn\n'))
B('C29', 'requests go on', ('tss/tss.go', '	close(t.stopChan)\n', ''))
B('C29', 'release of nothing', (PC, '	pc.streamMgr.ReleaseStream(msgID)', '	if pc.timeout == 0 {\n\t\treturn\n\t}\n\tpc.streamMgr.ReleaseStream(msgID)'))
K('C29 simpler add', (SH, '''	entries, ok := sm.unusedStreams[msgID]
	if !ok {
		entries := []network.Stream{stream}
		sm.unusedStreams[msgID] = entries
	} else {
		entries = append(entries, stream)
		sm.unusedStreams[msgID] = entries
	}
''', '''	sm.unusedStreams[msgID] = append(sm.unusedStreams[msgID], stream)
'''))
K('C29 take helper', (SH, '''	sm.streamLocker.Lock()
	usedStreams := sm.unusedStreams[msgID]
	unknownStreams := sm.unusedStreams["UNKNOWN"]
	delete(sm.unusedStreams, msgID)
	delete(sm.unusedStreams, "UNKNOWN")
	sm.streamLocker.Unlock()
	streams := append(usedStreams, unknownStreams...)
	for _, el := range streams {
		err := el.Reset()
		if err != nil {
			sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
		}
	}
}
''', '''	sm.resetAll(sm.take(msgID))
	sm.resetAll(sm.take("UNKNOWN"))
}

func (sm *StreamMgr) take(id string) []network.Stream {
	sm.streamLocker.Lock()
	defer sm.streamLocker.Unlock()
	out := sm.unusedStreams[id]
	delete(sm.unusedStreams, id)
	return out
}

func (sm *StreamMgr) resetAll(streams []network.Stream) {
	for i := 0; i < len(streams); i++ {
		if err := streams[i].Reset(); err != nil {
			sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
		}
	}
}
'''))
K('C29 reset helper', (SH, '''		err := el.Reset()
		if err != nil {
			sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
		}
	}
}
''', '''		sm.resetOne(el)
	}
}

func (sm *StreamMgr) resetOne(el network.Stream) {
	if err := el.Reset(); err != nil {
		sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
	}
}
'''))
K('C29 unknown helper', (CM, '''fail to read from stream,peerID: %s", peerID)
			c.streamMgr.AddStream("UNKNOWN", stream)
''', '''fail to read from stream,peerID: %s", peerID)
			c.fileUnknown(stream)
'''), (CM, '''func (c *Communication) handleStream''', '''func (c *Communication) fileUnknown(stream network.Stream) {
	const unknown = "UNKNOWN"
	c.streamMgr.AddStream(unknown, stream)
}

func (c *Communication) handleStream'''))
K('C29 sync open', (PC, '''	go func() {
		defer close(streamGetChan)

		pc''', '''	func() {
		defer close(streamGetChan)

		pc'''))
K('C29 defer direct', (CM, '''	defer func() {
		c.streamMgr.AddStream(msgID, stream)
	}()
''', '''	defer c.streamMgr.AddStream(msgID, stream)
'''))
K('C29 add after write', (CM, '''	defer func() {
		c.streamMgr.AddStream(msgID, stream)
	}()
	c.logger.Debug().Msgf(">>>writing messages to peer(%s)", pID)

	return WriteStreamWithBuffer(msg, stream)''', '''	err = WriteStreamWithBuffer(msg, stream)
	c.streamMgr.AddStream(msgID, stream)
	return err'''))
K('C29 stop reordered', (PC, '''	pc.host.RemoveStreamHandler(joinPartyProtocol)
	pc.host.RemoveStreamHandler(joinPartyProtocolWithLeader)
''', '''	for _, p := range []protocol.ID{joinPartyProtocol, joinPartyProtocolWithLeader} {
		pc.host.RemoveStreamHandler(p)
	}
'''))
K('C29 add early in handler', (PC, '''	var msg messages.JoinPartyLeaderComm
	err = proto''', '''	pc.streamMgr.AddStream(msgLeaderless.ID, stream)
	var msg messages.JoinPartyLeaderComm
	err = proto'''))

# ---- C15
PS, TSS = 'p2p/peer_status.go', 'tss/tss.go'
B('C15', 'unknown peer recorded', (PS, '''	if !ok {
		return false, errors.New("key not found")
	}
''', '''	if !ok {
		ps.peersResponse[peerNode] = false
		_ = errors.New
	}
'''))
B('C15', 'claimed peer recorded', (PC, '''	newFound, err := peerGroup.updatePeer(remotePeer)''', '''	if msgPeer, e := peer.Decode(msg.ID); e == nil {
		remotePeer = msgPeer
	}
	newFound, err := peerGroup.updatePeer(remotePeer)'''))
B('C15', 'response of anybody', (PC, '''	if remotePeer == peerGroup.leader {
		peerGroup.set''', '''	if _, ok := peerGroup.peersResponse[stream.Conn().RemotePeer()]; ok || remotePeer == peerGroup.leader {
		peerGroup.set'''))
B('C15', 'wrong compare', (PC, '''	if remotePeer == peerGroup.leader {
		peerGroup.set''', '''	if remotePeer != "" && peerGroup.leader != "NONE" {
		peerGroup.set'''))
B('C15', 'threshold off by one', (PC, 'if len(onlinePeers) < threshold+1 {', 'if len(onlinePeers) < threshold {'))
B('C15', 'timeout as success', (PC, '''		msg.Type = messages.JoinPartyLeaderComm_Timeout
''', ''))
B('C15', 'timeout not told', (PC, '''		pc.sendResponseToAll(&msg, allPeers)
		return onlinePeers, ErrJoinPartyTimeout''', '''		return onlinePeers, ErrJoinPartyTimeout'''))
B('C15', 'told online only', (PC, '''	pc.sendResponseToAll(&msg, allPeers)
	return onlinePeers, nil''', '''	pc.sendResponseToAll(&msg, onlinePeers)
	return onlinePeers, nil'''))
B('C15', 'offline too', (PC, '''	onlinePeers, _ := peerGroup.getPeersStatus()
	onlinePeers = append(onlinePeers, pc.host.ID())

	tss''', '''	onlinePeers, off := peerGroup.getPeersStatus()
	if len(onlinePeers) < threshold {
		onlinePeers = append(onlinePeers, off...)
	}
	onlinePeers = append(onlinePeers, pc.host.ID())

	tss'''))
B('C15', 'self left out', (PC, '''	onlinePeers = append(onlinePeers, pc.host.ID())

	tss''', '''	tss'''), (PC, 'if len(onlinePeers) < threshold+1 {', 'if len(onlinePeers) < threshold {'))
B('C15', 'type ignored', (PC, 'if peerGroup.getLeaderResponse().Type == messages.JoinPartyLeaderComm_Success {', 'if len(pIDs) > threshold || peerGroup.getLeaderResponse().Type == messages.JoinPartyLeaderComm_Success {'))
B('C15', 'type inverted', (PC, 'if peerGroup.getLeaderResponse().Type == messages.JoinPartyLeaderComm_Success {', 'if peerGroup.getLeaderResponse().Type != messages.JoinPartyLeaderComm_Unknown {'))
B('C15', 'size unchecked', (PC, '''	if len(pIDs) < threshold {
		return pIDs, errors.New("not enough peer")
	}
''', ''))
B('C15', 'enough peers', (PC, '''	if len(onlinePeers) == len(peers) {
		return onlinePeers, nil''', '''	if len(onlinePeers) >= len(peers)-1 {
		return onlinePeers, nil'''))
B('C15', 'leader group of leader', (PC, 'pc.createJoinPartyGroups(msgID, pc.host.ID().String(), peers, threshold)', 'pc.createJoinPartyGroups(msgID, peers[0], peers, threshold)'))
B('C15', 'threshold of group', (PC, 'pc.createJoinPartyGroups(msgID, pc.host.ID().String(), peers, threshold)', 'pc.createJoinPartyGroups(msgID, pc.host.ID().String(), peers, threshold-1)'))
B('C15', 'one peer skipped', (PC, '''	for _, el := range peers {
		go func(peer peer.ID) {
			defer wg.Done()
			if peer == pc.host.ID() {
				return
			}
			if err := pc.sendMsgToPeer(msgSend, msg.ID''', '''	for _, el := range peers {
		go func(peer peer.ID) {
			defer wg.Done()
			if peer == pc.host.ID() || len(msg.PeerIDs) == 0 {
				return
			}
			if err := pc.sendMsgToPeer(msgSend, msg.ID'''))
B('C15', 'fan-out stops', (PC, '''				pc.logger.Error().Err(err).Msg("error in send the join party request to peer")
			}
		}(el)
	}
	wg.Wait()
}

func (pc *PartyCoordinator) sendRequestToLeader''', '''				pc.logger.Error().Err(err).Msg("error in send the join party request to peer")
			}
		}(el)
		if len(msgSend) > 1024 {
			break
		}
	}
	wg.Wait()
}

func (pc *PartyCoordinator) sendRequestToLeader'''))
B('C15', 'loop variable', (PC, '''		go func(peer peer.ID) {
			defer wg.Done()
			if peer == pc.host.ID() {
				return
			}
			if err := pc.sendMsgToPeer(msgSend, msgID, peer, joinPartyProtocol, false)''', '''		go func(peer peer.ID) {
			defer wg.Done()
			if peer == pc.host.ID() {
				return
			}
			if err := pc.sendMsgToPeer(msgSend, msgID, el, joinPartyProtocol, false)'''))
B('C15', 'status mixed', (PS, '''		if val {
			online''', '''		if val || ps.reqCount >= ps.threshold {
			online'''))
B('C15', 'starts online', (PS, 'dat[el] = false', 'dat[el] = el.String() == leader'))
B('C15', 'not all known', (PS, '''		if el == myPeerID {
			continue
		}''', '''		if el == myPeerID || len(dat) > threshold {
			continue
		}'''))
B('C15', 'wrong group', (PC, '''	peerGroup, ok := pc.peersGroup[respMsg.ID]''', '''	peerGroup, ok := pc.peersGroup[respMsg.MsgType]'''))
B('C15', 'not woken', (PS, '''		ps.reqCount++
		if ps.reqCount >= ps.threshold {''', '''		ps.reqCount++
		if ps.reqCount > ps.threshold {'''))
B('C15', 'keygen threshold', ('tss/keygen.go', 'req.Keys, len(req.Keys)-1, sigChan', 'req.Keys, len(req.Keys)-2, sigChan'))
B('C15', 'height dropped', (TKS, 't.joinParty(msgID, req.Version, req.BlockHeight, allParticipants, threshold, sigChan)', 't.joinParty(msgID, req.Version, int64(threshold), allParticipants, threshold, sigChan)'))
B('C15', 'signers not online', (TKS, '''	signers, err := conversion.GetPubKeysFromPeerIDs(parsedPeers)''', '''	signers, err := conversion.GetPubKeysFromPeerIDs(parsedPeers)
	if len(signers) <= threshold {
		signers = allParticipants
	}'''))
B('C15', 'self not asked', (TKS, '''		if el == t.p2pCommunication.GetHost().ID() {
			isKeySignMember = true''', '''		if el != t.p2pCommunication.GetHost().ID() {
			isKeySignMember = true'''))
B('C15', 'protocol swapped', (TSS, 'if oldJoinParty {', 'if oldJoinParty || len(participants) < 3 {'))
B('C15', 'participants of request', (TKS, '		allParticipants = req.SignerPubKeys\n', ''))
B('C15', 'signers limited', (TKS, '''	if oldJoinParty {
		allParticipants = req.SignerPubKeys''', '''	if len(req.SignerPubKeys) > threshold {
		allParticipants = req.SignerPubKeys
	}
	if oldJoinParty {
		allParticipants = req.SignerPubKeys'''))
B('C15', 'sig ignored', (PC, '''	if sigNotify == "signature received" {
		return nil, ErrSignReceived
	}

	if peerGroup''', '''	if sigNotify == "signature received" && peerGroup.getLeaderResponse() == nil {
		return nil, ErrSignReceived
	}

	if peerGroup'''))
B('C15', 'member asks early', (PC, '''	peerGroup, err := pc.createJoinPartyGroups(msgID, leader, []string{leader}, threshold)
	if err != nil {
		return nil, fmt.Errorf("fail to create join party:%w", err)
	}

	leaderPeerID, err := peer.Decode(leader)
	if err != nil {
		return nil, fmt.Errorf("fail to decode peer id(%s):%w", leader, err)
	}
	msg := messages.JoinPartyLeaderComm{
		ID: msgID,
	}
''', '''	leaderPeerID, err := peer.Decode(leader)
	if err != nil {
		return nil, fmt.Errorf("fail to decode peer id(%s):%w", leader, err)
	}
	msg := messages.JoinPartyLeaderComm{
		ID: msgID,
	}
	_ = pc.sendRequestToLeader(&msg, leaderPeerID)
	peerGroup, err := pc.createJoinPartyGroups(msgID, leader, []string{leader}, threshold)
	if err != nil {
		return nil, fmt.Errorf("fail to create join party:%w", err)
	}
'''))
K('C15 responder helper', (PC, '''	if len(onlinePeers) < threshold+1 {''', '''	if tooFew := len(onlinePeers) <= threshold; tooFew {'''))
K('C15 nodes appended', (PC, '''	tssNodes := make([]string, len(onlinePeers))
	for i, el := range onlinePeers {
		tssNodes[i] = el.String()
	}
''', '''	var tssNodes []string
	for i := 0; i < len(onlinePeers); i++ {
		tssNodes = append(tssNodes, onlinePeers[i].String())
	}
'''))
K('C15 decode helper', (PC, '''	for i, item := range ids {
		pid, err := peer.Decode(item)
		if err != nil {
			return nil, fmt.Errorf("fail to decode peer id(%s):%w", item, err)
		}
		result[i] = pid
	}''', '''	for i := range ids {
		pid, err := decodePeer(ids[i])
		if err != nil {
			return nil, err
		}
		result[i] = pid
	}'''), (PC, '''func (pc *PartyCoordinator) getPeerIDs''', '''func decodePeer(item string) (peer.ID, error) {
	pid, err := peer.Decode(item)
	if err != nil {
		return "", fmt.Errorf("fail to decode peer id(%s):%w", item, err)
	}
	return pid, nil
}

func (pc *PartyCoordinator) getPeerIDs'''))
K('C15 response once', (PC, '''	onlineNodes := peerGroup.getLeaderResponse().PeerIDs
''', '''	resp := peerGroup.getLeaderResponse()
	onlineNodes := resp.PeerIDs
'''), (PC, 'if peerGroup.getLeaderResponse().Type == messages.JoinPartyLeaderComm_Success {', 'if resp.Type == messages.JoinPartyLeaderComm_Success {'))
K('C15 type first', (PC, '''	if peerGroup.getLeaderResponse().Type == messages.JoinPartyLeaderComm_Success {
		return pIDs, nil
	}
	pc.logger.Error().Msg("leader response with join party timeout")
	return pIDs, ErrJoinPartyTimeout''', '''	if peerGroup.getLeaderResponse().Type != messages.JoinPartyLeaderComm_Success {
		pc.logger.Error().Msg("leader response with join party timeout")
		return pIDs, ErrJoinPartyTimeout
	}
	return pIDs, nil'''))
K('C15 status switch', (PS, '''	if !val {
		ps.peersResponse[peerNode] = true
		ps.reqCount++
		if ps.reqCount >= ps.threshold {
			return true, nil
		}
	}
	return false, nil''', '''	if val {
		return false, nil
	}
	ps.peersResponse[peerNode] = true
	ps.reqCount++
	return ps.reqCount >= ps.threshold, nil'''))
K('C15 list helper', (TSS, '''		var peersIDStr []string
		for _, el := range peerIDs {
			peersIDStr = append(peersIDStr, el.String())
		}
		onlines''', '''		peersIDStr := peerStrings(peerIDs)
		onlines'''), (TSS, '''// GetLocalPeerID return''', '''func peerStrings(ids []peer.ID) []string {
	out := make([]string, 0, len(ids))
	for _, el := range ids {
		out = append(out, el.String())
	}
	return out
}

// GetLocalPeerID return'''))
K('C15 member helper', (TKS, '''	isKeySignMember := false
	for _, el := range onlinePeers {
		if el == t.p2pCommunication.GetHost().ID() {
			isKeySignMember = true
		}
	}
	if !isKeySignMember {''', '''	if !hasPeer(onlinePeers, t.p2pCommunication.GetHost().ID()) {'''), (TKS, '''func (t *TssServer) updateKeySignResult''', '''func hasPeer(l []peer.ID, id peer.ID) bool {
	for _, el := range l {
		if el == id {
			return true
		}
	}
	return false
}

func (t *TssServer) updateKeySignResult'''))
K('C15 leader bool', (PC, '''	if pc.host.ID().String() == leader {
		onlines''', '''	isLeader := leader == pc.host.ID().String()
	if isLeader {
		onlines'''))
K('C15 send first', (PC, '''	if len(onlinePeers) < threshold+1 {
		// we notify the failure of the join party to everyone
		msg.Type = messages.JoinPartyLeaderComm_Timeout
		pc.sendResponseToAll(&msg, allPeers)
		return onlinePeers, ErrJoinPartyTimeout
	}
	// we notify all the peers who to run keygen/keysign
	// if a nodes is not in the list, it means he is not selected by the leader to run the tss
	pc.sendResponseToAll(&msg, allPeers)
	return onlinePeers, nil''', '''	var result error
	if len(onlinePeers) < threshold+1 {
		msg.Type = messages.JoinPartyLeaderComm_Timeout
		result = ErrJoinPartyTimeout
	}
	pc.sendResponseToAll(&msg, allPeers)
	return onlinePeers, result'''))

# ------------------------------------------------------------------ C16
LP, CV = 'p2p/leader_provider.go', 'conversion/conversion.go'
B('C16', 'keys unsorted', (TSS, '''	sort.Strings(keys)
	for _, el''', '''	for _, el'''))
B('C16', 'messages unsorted', (TSS, '''		sort.Strings(value.Messages)
''', ''))
B('C16', 'messages out', (TSS, '''		dat = []byte(strings.Join(value.Messages, ","))
''', '''		t.logger.Debug().Msg(strings.Join(value.Messages, ","))
'''))
B('C16', 'first message only', (TSS, '''strings.Join(value.Messages, ",")''', '''strings.TrimSpace(value.Messages[0])'''))
B('C16', 'keys but the first', (TSS, '''	for _, el := range keys {
		keyAcc''', '''	for _, el := range keys[1:] {
		keyAcc'''))
B('C16', 'last key only', (TSS, '''		keyAccumulation += el''', '''		keyAccumulation = el'''))
B('C16', 'long keys only', (TSS, '''		keyAccumulation += el''', '''		if len(el) > 10 {
			keyAccumulation += el
		}'''))
B('C16', 'local key in', (TSS, '''	keyAccumulation := ""''', '''	keyAccumulation := t.localNodePubKey'''))
B('C16', 'time in', (TSS, '''	keyAccumulation := ""''', '''	keyAccumulation := time.Now().String()'''), (TSS, '''	"sync"
''', '''	"sync"
	"time"
'''))
B('C16', 'session of keygen only', (SS, '''		t.stopChan,
		msgID,''', '''		t.stopChan,
		req.PoolPubKey,'''))
B('C16', 'hash of part', ('common/tss_helper.go', '''	_, err := h.Write(msg)''', '''	_, err := h.Write(msg[:1])'''))
B('C16', 'leader unsorted', (LP, '''	sort.Strings(hashes)
''', '''	sort.Strings(pIDs)
'''))
B('C16', 'leader without height', (LP, '''msgID + strconv.FormatInt(blockHeight, 10) + el''', '''msgID + el'''), (LP, '''	"strconv"
''', ''))
B('C16', 'leader without peer', (LP, '''msgID + strconv.FormatInt(blockHeight, 10) + el''', '''msgID + strconv.FormatInt(blockHeight, 10) + pIDs[0]'''))
B('C16', 'leader first', (LP, '''keyStore[hashes[0]]''', '''keyStore[hashes[len(hashes)/2]]'''))
B('C16', 'leader any', (LP, '''	return keyStore[hashes[0]], nil''', '''	for _, el := range keyStore {
		return el, nil
	}
	return "", nil'''))
B('C16', 'leader not last', (LP, '''		hashes[i] = encodedSum
''', '''		if i+1 < len(pIDs) {
			hashes[i] = encodedSum
		}
'''))
B('C16', 'leader swapped', (LP, '''keyStore[encodedSum] = el''', '''keyStore[encodedSum] = pIDs[len(pIDs)-1-i]'''))
B('C16', 'parties in given order', (CV, '''	sort.Strings(keys)
	for idx, item''', '''	defer sort.Strings(keys)
	for idx, item'''))
B('C16', 'parties unsorted', (CV, '''	partiesID := btss.SortPartyIDs(unSortedPartiesID)
	return partiesID''', '''	return unSortedPartiesID'''))
B('C16', 'party dropped', (CV, '''		unSortedPartiesID = append(unSortedPartiesID, partyID)
''', '''		if key.BitLen() > 256 {
			unSortedPartiesID = append(unSortedPartiesID, partyID)
		}
'''))
B('C16', 'local party last', (CV, '''		if item == localPartyKey {
			localPartyID = partyID
		}
		unSorted''', '''		if item == localPartyKey || localPartyID == nil {
			localPartyID = partyID
		}
		unSorted'''))
B('C16', 'local party prefix', (CV, '''		if item == localPartyKey {
			localPartyID = partyID''', '''		if len(item) >= len(localPartyKey) && item[:len(localPartyKey)] == localPartyKey {
			localPartyID = partyID'''))
B('C16', 'local party missing', (CV, '''	if localPartyID == nil {
		return nil, nil, errors.New("local party is not in the list")
	}
''', '''	if len(unSortedPartiesID) == 0 {
		return nil, nil, errors.New("local party is not in the list")
	}
'''))
B('C16', 'party name constant', (CV, '''strconv.Itoa(idx), "", key''', '''strconv.Itoa(idx/2), "", key'''))
B('C16', 'party key of first', (CV, '''Bech32PubKeyTypeAccPub, item)
		if err != nil {
			return nil, nil, fmt.Errorf("fail to get account pub key address(%s): %w", item, err)
		}
		key''', '''Bech32PubKeyTypeAccPub, keys[0])
		if err != nil {
			return nil, nil, fmt.Errorf("fail to get account pub key address(%s): %w", item, err)
		}
		key'''))
K('C16 join keys', (TSS, '''	keyAccumulation := ""
	sort.Strings(keys)
	for _, el := range keys {
		keyAccumulation += el
	}
	dat = append(dat, []byte(keyAccumulation)...)
''', '''	sort.Strings(keys)
	dat = append(dat, []byte(strings.Join(keys, ""))...)
'''))
K('C16 sort copy', (TSS, '''	sort.Strings(keys)
	for _, el''', '''	sorted := make([]string, len(keys))
	copy(sorted, keys)
	sort.Strings(sorted)
	for _, el'''), (TSS, '''range keys {
		keyAcc''', '''range sorted {
		keyAcc'''))
K('C16 index loop', (TSS, '''	for _, el := range keys {
		keyAccumulation += el
	}''', '''	for i := 0; i < len(keys); i++ {
		keyAccumulation = keyAccumulation + keys[i]
	}'''))
K('C16 append bytes', (TSS, '''	keyAccumulation := ""
	sort.Strings(keys)
	for _, el := range keys {
		keyAccumulation += el
	}
	dat = append(dat, []byte(keyAccumulation)...)
''', '''	sort.Strings(keys)
	for _, el := range keys {
		dat = append(dat, []byte(el)...)
	}
'''))
K('C16 builder', (TSS, '''	keyAccumulation := ""
	sort.Strings(keys)
	for _, el := range keys {
		keyAccumulation += el
	}
	dat = append(dat, []byte(keyAccumulation)...)
''', '''	var b strings.Builder
	sort.Strings(keys)
	for _, el := range keys {
		b.WriteString(el)
	}
	dat = append(dat, []byte(b.String())...)
'''))
K('C16 helper', (TSS, '''	keyAccumulation := ""
	sort.Strings(keys)
	for _, el := range keys {
		keyAccumulation += el
	}
	dat = append(dat, []byte(keyAccumulation)...)
''', '''	dat = append(dat, []byte(joinSorted(keys))...)
'''), (TSS, '''// Start Tss server
''', '''func joinSorted(keys []string) string {
	all := ""
	sort.Strings(keys)
	for _, el := range keys {
		all += el
	}
	return all
}

// Start Tss server
'''))
K('C16 sum256', ('common/tss_helper.go', '''	h := sha256.New()
	_, err := h.Write(msg)
	if err != nil {
		return "", fmt.Errorf("fail to caculate sha256 hash: %w", err)
	}
	return hex.EncodeToString(h.Sum(nil)), nil
}
''', '''	sum := sha256.Sum256(msg)
	return hex.EncodeToString(sum[:]), nil
}
'''))
K('C16 leader append', (LP, '''	hashes := make([]string, len(pIDs))
	for i, el''', '''	var hashes []string
	for _, el'''), (LP, '''		hashes[i] = encodedSum
''', '''		hashes = append(hashes, encodedSum)
'''))
K('C16 leader helper', (LP, '''		sum := sha256.Sum256([]byte(msgID + strconv.FormatInt(blockHeight, 10) + el))
		encodedSum := hex.EncodeToString(sum[:])
''', '''		encodedSum := leaderHash(msgID, blockHeight, el)
'''), (LP, '''// LeaderNode use''', '''func leaderHash(msgID string, blockHeight int64, el string) string {
	sum := sha256.Sum256([]byte(msgID + strconv.FormatInt(blockHeight, 10) + el))
	return hex.EncodeToString(sum[:])
}

// LeaderNode use'''))
K('C16 parties helper', (CV, '''		pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, item)
		if err != nil {
			return nil, nil, fmt.Errorf("fail to get account pub key address(%s): %w", item, err)
		}
		key := new(big.Int).SetBytes(pk.Bytes())
		// Set''', '''		key, err := partyKey(item)
		if err != nil {
			return nil, nil, err
		}
		// Set'''), (CV, '''func GetParties(''', '''func partyKey(item string) (*big.Int, error) {
	pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, item)
	if err != nil {
		return nil, fmt.Errorf("fail to get account pub key address(%s): %w", item, err)
	}
	return new(big.Int).SetBytes(pk.Bytes()), nil
}

func GetParties('''))
K('C16 parties make', (CV, '''	var unSortedPartiesID []*btss.PartyID
''', '''	unSortedPartiesID := make([]*btss.PartyID, 0, len(keys))
'''))
K('C16 parties indexed', (CV, '''	var unSortedPartiesID []*btss.PartyID
''', '''	unSortedPartiesID := make([]*btss.PartyID, len(keys))
'''), (CV, '''		unSortedPartiesID = append(unSortedPartiesID, partyID)
''', '''		unSortedPartiesID[idx] = partyID
'''))
K('C16 local last', (CV, '''		if item == localPartyKey {
			localPartyID = partyID
		}
		unSortedPartiesID = append(unSortedPartiesID, partyID)
''', '''		unSortedPartiesID = append(unSortedPartiesID, partyID)
		if item != localPartyKey {
			continue
		}
		localPartyID = partyID
'''))

# ------------------------------------------------------------------ C20
BM, BL, BS, BR, BP = 'blame/manager.go', 'blame/blame.go', 'blame/share_mgr.go', 'blame/round_mgr.go', 'blame/policy.go'
B('C20', 'no lock', (T, '''	t.culpritsLock.Lock()
	t.culprits = append(t.culprits, err.Culprits()...)
	t.culpritsLock.Unlock()
''', '''	t.culprits = append(t.culprits, err.Culprits()...)
'''))
B('C20', 'read lock for writing', (T, '''	t.culpritsLock.Lock()
	t.culprits = append(t.culprits, err.Culprits()...)
	t.culpritsLock.Unlock()
''', '''	t.culpritsLock.RLock()
	t.culprits = append(t.culprits, err.Culprits()...)
	t.culpritsLock.RUnlock()
'''))
B('C20', 'not unlocked', (T, '''			t.culpritsLock.RUnlock()
			return errors.New(blame.TssBrokenMsg)''', '''			return errors.New(blame.TssBrokenMsg)'''))
B('C20', 'unlocked early', (T, '''	t.P2PPeersLock.RLock()
	for _, el := range t.P2PPeers {
		if el == dataOwnerPeerID {
			continue
		}
		peerIDs = append(peerIDs, el)
	}
	t.P2PPeersLock.RUnlock()
''', '''	t.P2PPeersLock.RLock()
	t.P2PPeersLock.RUnlock()
	for _, el := range t.P2PPeers {
		if el == dataOwnerPeerID {
			continue
		}
		peerIDs = append(peerIDs, el)
	}
'''))
B('C20', 'unicast blame early return', (BP, '''		m.lastMsgLocker.RUnlock()
		m.logger.Debug().Msg("we do not have any''', '''		m.logger.Debug().Msg("we do not have any'''))
B('C20', 'unicast blame read outside', (BP, '''	peersID, ok := m.lastUnicastPeer[lastMsgType]
	m.lastMsgLocker.RUnlock()
''', '''	m.lastMsgLocker.RUnlock()
	peersID, ok := m.lastUnicastPeer[lastMsgType]
'''))
B('C20', 'check then act', (BM, '''	m.acceptShareLocker.Lock()
	defer m.acceptShareLocker.Unlock()
	partyList, ok := m.acceptedShares[round]
	if !ok {
		partyList := []string{id}
		m.acceptedShares[round] = partyList
		return
	}
	partyList = append(partyList, id)
	m.acceptedShares[round] = partyList
''', '''	m.acceptShareLocker.Lock()
	partyList, ok := m.acceptedShares[round]
	m.acceptShareLocker.Unlock()
	if !ok {
		partyList = []string{}
	}
	partyList = append(partyList, id)
	m.acceptShareLocker.Lock()
	defer m.acceptShareLocker.Unlock()
	m.acceptedShares[round] = partyList
'''))
B('C20', 'wrong lock', (BM, '''	m.lastMsgLocker.Lock()
	defer m.lastMsgLocker.Unlock()
	l, ok''', '''	m.acceptShareLocker.Lock()
	defer m.acceptShareLocker.Unlock()
	l, ok'''))
B('C20', 'map handed out', (BM, '''func (m *Manager) SetLastMsg(''', '''// AcceptedShares returns the accepted shares
func (m *Manager) AcceptedShares() map[RoundInfo][]string {
	m.acceptShareLocker.Lock()
	defer m.acceptShareLocker.Unlock()
	return m.acceptedShares
}

func (m *Manager) SetLastMsg('''))
B('C20', 'lock taken twice', (BL, '''	b.blameLock.RLock()
	defer b.blameLock.RUnlock()
	snapshot := NewBlame(b.FailReason,''', '''	b.blameLock.RLock()
	defer b.blameLock.RUnlock()
	snapshot := NewBlame(b.GetFailReason(),'''))
B('C20', 'copy of blame', (KG, 'blameMgr.GetBlame().Snapshot()', '*blameMgr.GetBlame()')) if False else None
B('C20', 'leader written late', (PC, '''		return nil, err
	}
	return peerGroup, nil''', '''		return nil, err
	}
	peerGroup.leader = leader
	return peerGroup, nil''')) if False else None
B('C20', 'send under lock', (PC, '''	peerGroup, ok := pc.peersGroup[msg.ID]
	pc.joinPartyGroupLock.Unlock()
	if !ok {
		pc.logger.Info().Msg("this party is not ready")
		return
	}
	newFound, err := peerGroup.updatePeer(remotePeer)
''', '''	defer pc.joinPartyGroupLock.Unlock()
	peerGroup, ok := pc.peersGroup[msg.ID]
	if !ok {
		pc.logger.Info().Msg("this party is not ready")
		return
	}
	newFound, err := peerGroup.updatePeer(remotePeer)
'''))
B('C20', 'opposite order', (CM, '''	return messageIDSubscribers.GetSubscriber(msgID)''', '''	return messageIDSubscribers.GetSubscriber2(c, msgID)'''), (SU, '''// UnSubscribe''', '''func (ms *MessageIDSubscriber) GetSubscriber2(c *Communication, msgID string) chan *Message {
	return ms.GetSubscriber(msgID)
}

// Refresh looks at all
func (ms *MessageIDSubscriber) Refresh(c *Communication) int {
	ms.lock.Lock()
	defer ms.lock.Unlock()
	c.subscriberLocker.Lock()
	defer c.subscriberLocker.Unlock()
	return len(c.subscribers)
}

// UnSubscribe'''))
B('C20', 'group made outside', (PC, '''	pc.joinPartyGroupLock.Lock()
	defer pc.joinPartyGroupLock.Unlock()
	peerStatus := NewPeerStatus(pIDs, pc.host.ID(), leader, threshold)
	pc.peersGroup[messageID] = peerStatus
''', '''	pc.joinPartyGroupLock.Lock()
	peerStatus := NewPeerStatus(pIDs, pc.host.ID(), leader, threshold)
	pc.joinPartyGroupLock.Unlock()
	pc.peersGroup[messageID] = peerStatus
'''))
B('C20', 'status read outside', (PS, '''	ps.peerStatusLock.RLock()
	defer ps.peerStatusLock.RUnlock()
	for peerNode''', '''	for peerNode'''))
B('C20', 'response read outside', (PS, '''	ps.leaderResponseLock.RLock()
	defer ps.leaderResponseLock.RUnlock()
''', ''))
B('C20', 'other lock of the same object', (PS, '''	ps.leaderResponseLock.RLock()
	defer ps.leaderResponseLock.RUnlock()
''', '''	ps.peerStatusLock.RLock()
	defer ps.peerStatusLock.RUnlock()
'''))
B('C20', 'release after unlock', (SH, '''	delete(sm.unusedStreams, msgID)
	delete(sm.unusedStreams, "UNKNOWN")
	sm.streamLocker.Unlock()
''', '''	sm.streamLocker.Unlock()
	delete(sm.unusedStreams, msgID)
	delete(sm.unusedStreams, "UNKNOWN")
'''))
B('C20', 'iterate copy of map', (T, '''	for _, value := range t.unConfirmedMessages {
		localCachedItems = append(localCachedItems, value)
	}
	return''', '''	for _, value := range t.all() {
		localCachedItems = append(localCachedItems, value)
	}
	return'''), (T, '''func (t *TssCommon) removeKey(''', '''func (t *TssCommon) all() map[string]*LocalCacheItem {
	return t.unConfirmedMessages
}

func (t *TssCommon) removeKey('''))
B('C20', 'keygen peers unlocked', (KG, '''	tKeyGen.tssCommonStruct.P2PPeersLock.Lock()
	tKeyGen.tssCommonStruct.P2PPeers = ''', '''	tKeyGen.tssCommonStruct.P2PPeersLock.RLock()
	tKeyGen.tssCommonStruct.P2PPeers = '''), (KG, '''	tKeyGen.tssCommonStruct.P2PPeersLock.Unlock()
''', '''	tKeyGen.tssCommonStruct.P2PPeersLock.RUnlock()
'''))
B('C20', 'share request forgotten lock', (BS, '''	sm.reqLocker.Lock()
	defer sm.reqLocker.Unlock()
	_, ok''', '''	_, ok''')) if False else None
K('C20 defer', (T, '''	t.culpritsLock.Lock()
	t.culprits = append(t.culprits, err.Culprits()...)
	t.culpritsLock.Unlock()
''', '''	func() {
		t.culpritsLock.Lock()
		defer t.culpritsLock.Unlock()
		t.culprits = append(t.culprits, err.Culprits()...)
	}()
'''))
K('C20 helper', (T, '''	t.culpritsLock.Lock()
	t.culprits = append(t.culprits, err.Culprits()...)
	t.culpritsLock.Unlock()
''', '''	t.addCulprits(err.Culprits())
'''), (T, '''func (t *TssCommon) SetLocalPeerID(''', '''func (t *TssCommon) addCulprits(c []*btss.PartyID) {
	t.culpritsLock.Lock()
	t.culprits = append(t.culprits, c...)
	t.culpritsLock.Unlock()
}

func (t *TssCommon) SetLocalPeerID('''))
K('C20 helper under lock', (PS, '''	val, ok := ps.peersResponse[peerNode]
	if !ok {
		return false, errors.New("key not found")
	}
''', '''	val, ok := ps.lookup(peerNode)
	if !ok {
		return false, errors.New("key not found")
	}
'''), (PS, '''func (ps *PeerStatus) updatePeer(''', '''func (ps *PeerStatus) lookup(p peer.ID) (bool, bool) {
	val, ok := ps.peersResponse[p]
	return val, ok
}

func (ps *PeerStatus) updatePeer('''))
K('C20 lock helper', (BM, '''	m.acceptShareLocker.Lock()
	defer m.acceptShareLocker.Unlock()
	partyList, ok := m.acceptedShares[round]
	if !ok {''', '''	defer m.lockShares()()
	partyList, ok := m.acceptedShares[round]
	if !ok {''')) if False else None
K('C20 with lock', (BM, '''	m.lastMsgLocker.Lock()
	defer m.lastMsgLocker.Unlock()
	m.lastMsg = lastMsg
''', '''	m.withLast(func() { m.lastMsg = lastMsg })
'''), (BM, '''func (m *Manager) GetLastMsg(''', '''func (m *Manager) withLast(f func()) {
	m.lastMsgLocker.Lock()
	defer m.lastMsgLocker.Unlock()
	f()
}

func (m *Manager) GetLastMsg('''))
K('C20 write lock for reading', (T, '''		t.culpritsLock.RLock()
		if len(''', '''		t.culpritsLock.Lock()
		if len('''), (T, '''			t.culpritsLock.RUnlock()
			return errors''', '''			t.culpritsLock.Unlock()
			return errors'''), (T, '''		t.culpritsLock.RUnlock()
		job''', '''		t.culpritsLock.Unlock()
		job'''))
K('C20 local alias', (PC, '''	pc.joinPartyGroupLock.Lock()
	defer pc.joinPartyGroupLock.Unlock()
	delete(pc.peersGroup, messageID)''', '''	l, groups := pc.joinPartyGroupLock, &pc.peersGroup
	l.Lock()
	delete(*groups, messageID)
	l.Unlock()''')) if False else None
K('C20 lock variable', (PC, '''	pc.joinPartyGroupLock.Lock()
	defer pc.joinPartyGroupLock.Unlock()
	delete(''', '''	lock := pc.joinPartyGroupLock
	lock.Lock()
	defer lock.Unlock()
	delete('''))
K('C20 locked method', (PC, '''	pc.joinPartyGroupLock.Lock()
	peerGroup, ok := pc.peersGroup[msg.ID]
	pc.joinPartyGroupLock.Unlock()
	if !ok {
		pc.logger.Info().Msg("this party is not ready")
		return
	}
	newFound''', '''	peerGroup, ok := pc.group(msg.ID)
	if !ok {
		pc.logger.Info().Msg("this party is not ready")
		return
	}
	newFound'''), (PC, '''func (pc *PartyCoordinator) removePeerGroup(''', '''func (pc *PartyCoordinator) group(id string) (*PeerStatus, bool) {
	pc.joinPartyGroupLock.Lock()
	defer pc.joinPartyGroupLock.Unlock()
	g, ok := pc.peersGroup[id]
	return g, ok
}

func (pc *PartyCoordinator) removePeerGroup('''))

B('C20', 'look and insert apart', (PS, '''	ps.peerStatusLock.Lock()
	defer ps.peerStatusLock.Unlock()
	val, ok := ps.peersResponse[peerNode]
''', '''	ps.peerStatusLock.Lock()
	val, ok := ps.peersResponse[peerNode]
	ps.peerStatusLock.Unlock()
	ps.peerStatusLock.Lock()
	defer ps.peerStatusLock.Unlock()
'''))
K('double-checked look', (PS, '''	ps.peerStatusLock.Lock()
	defer ps.peerStatusLock.Unlock()
	val, ok := ps.peersResponse[peerNode]
''', '''	ps.peerStatusLock.RLock()
	if _, known := ps.peersResponse[peerNode]; !known {
		ps.peerStatusLock.RUnlock()
		return false, errors.New("key not found")
	}
	ps.peerStatusLock.RUnlock()
	ps.peerStatusLock.Lock()
	defer ps.peerStatusLock.Unlock()
	val, ok := ps.peersResponse[peerNode]
'''))
# ---- C33
B('C33', 'not waited for', (PC, '''	wg.Wait()
	if sigNotify == "signature received" {
		return nil, ErrSignReceived
	}
	onlinePeers, _''', '''	if sigNotify == "signature received" {
		return nil, ErrSignReceived
	}
	onlinePeers, _'''))
B('C33', 'read before the wait', (SS, '''	wg.Wait()
	close(sigChan)
	keysignTime := time.Since(keysignStartTime)
''', '''	keysignTime := time.Since(keysignStartTime)
	if errWait == nil {
		t.updateKeySignResult(receivedSig, keysignTime)
	}
	wg.Wait()
	close(sigChan)
'''))
B('C33', 'one error for two', (SS, '''		receivedSig, errWait = t.waitFor''', '''		receivedSig, errGen = t.waitFor'''), (SS, '''		if errWait == nil {
			sigChan''', '''		errWait = errGen
		if errWait == nil {
			sigChan'''))
B('C33', 'own peer skipped before the start', (CM, '''		go func(p peer.ID) {
			defer wgSend.Done()''', '''		if p == c.host.ID() {
			continue
		}
		go func(p peer.ID) {
			defer wgSend.Done()'''))
B('C33', 'plain counter', (CM, 'atomic.AddUint32(&onlineNodes, 1)', 'onlineNodes++'), (CM, '	"sync/atomic"\n', ''))
B('C33', 'counts itself', (CM, '''		wg.Add(1)
		go func() {
			ctx, cancel''', '''		go func() {
			wg.Add(1)
			ctx, cancel'''))
B('C33', 'done on success only', (CM, '''			defer wg.Done()
			ctx, cancel := context.WithTimeout(context.Background(), TimeoutConnecting)
			defer cancel()
			if err := c.host.Connect(ctx, *pi); err != nil {
				c.logger.Error().Err(err).Msgf("fail to connect to %s", pi.String())
				connRet <- false
				return
			}
			connRet <- true
''', '''			ctx, cancel := context.WithTimeout(context.Background(), TimeoutConnecting)
			defer cancel()
			if err := c.host.Connect(ctx, *pi); err != nil {
				c.logger.Error().Err(err).Msgf("fail to connect to %s", pi.String())
				connRet <- false
				return
			}
			connRet <- true
			wg.Done()
'''))
B('C33', 'stream error after the time limit', (PC, '''		return ctx.Err()
	}

	defer''', '''		if streamError != nil {
			return streamError
		}
		return ctx.Err()
	}

	defer'''))
B('C33', 'signature shared', (SN, '''	wg := sync.WaitGroup{}
	for _, p := range peers {''', '''	wg := sync.WaitGroup{}
	var signature *signatureItem
	for _, p := range peers {'''), (SN, '		signature := &signatureItem{', '		signature = &signatureItem{'))
B('C33', 'peer of the loop', (PC, '''		go func(peer peer.ID) {
			defer wg.Done()
			if peer == pc.host.ID() {
				return
			}
			if err := pc.sendMsgToPeer(msgSend, msgID,''', '''		peer := el
		go func() {
			defer wg.Done()
			peer := el
			if peer == pc.host.ID() {
				return
			}
			if err := pc.sendMsgToPeer(msgSend, msgID,'''), (PC, '''				pc.logger.Error().Err(err).Msg("error in send the join party request to peer")
			}
		}(el)
	}
	wg.Wait()
}

func (pc *PartyCoordinator) sendMsgToPeer(''', '''				pc.logger.Error().Err(err).Msg("error in send the join party request to peer")
			}
		}()
		_ = peer
	}
	wg.Wait()
}

func (pc *PartyCoordinator) sendMsgToPeer('''))
B('C33', 'counted too many', (KG, 'keyGenWg.Add(2)', 'keyGenWg.Add(3)'))
B('C33', 'counted too few', (TK, 'keySignWg.Add(2)', 'keySignWg.Add(1)'))
B('C33', 'workers not waited for', (T, '''		close(tssJobChan)
		jobWg.Wait()
''', '''		close(tssJobChan)
'''))
B('C33', 'last error shared', (CM, '''	var wgSend sync.WaitGroup
''', '''	var wgSend sync.WaitGroup
	failed := 0
'''), (CM, '''				c.logger.Error().Err(err).Msg("fail to write to stream")
''', '''				failed++
				c.logger.Error().Err(err).Msg("fail to write to stream")
'''), (CM, '''	wgSend.Wait()
''', '''	wgSend.Wait()
	c.logger.Debug().Msgf("%d failed", failed)
'''))
K('failures counted under a lock', (CM, '''	var wgSend sync.WaitGroup
''', '''	var wgSend sync.WaitGroup
	var mu sync.Mutex
	failed := 0
'''), (CM, '''				c.logger.Error().Err(err).Msg("fail to write to stream")
''', '''				mu.Lock()
				failed++
				mu.Unlock()
				c.logger.Error().Err(err).Msg("fail to write to stream")
'''), (CM, '''	wgSend.Wait()
''', '''	wgSend.Wait()
	c.logger.Debug().Msgf("%d failed", failed)
'''))
K('results by position', (CM, '''	var wgSend sync.WaitGroup
	wgSend.Add(len(peers))
	for _, p := range peers {
		go func(p peer.ID) {
			defer wgSend.Done()
			if err := c.writeToStream(p, msg, msgID); nil != err {
				c.logger.Error().Err(err).Msg("fail to write to stream")
			}
		}(p)
	}
	wgSend.Wait()
''', '''	var wgSend sync.WaitGroup
	errs := make([]error, len(peers))
	for i, p := range peers {
		wgSend.Add(1)
		i, p := i, p
		go func() {
			defer wgSend.Done()
			errs[i] = c.writeToStream(p, msg, msgID)
		}()
	}
	wgSend.Wait()
	for _, err := range errs {
		if err != nil {
			c.logger.Error().Err(err).Msg("fail to write to stream")
		}
	}
'''))
K('wait in a helper', (CM, '''	wgSend.Wait()
}
''', '''	finish(&wgSend)
}

func finish(wg *sync.WaitGroup) {
	wg.Wait()
}
'''))
K('counted one by one', (PC, '''	wg.Add(len(peers))
	for _, el := range peers {
		go func(peer peer.ID) {
			defer wg.Done()
			if peer == pc.host.ID() {
				return
			}
			if err := pc.sendMsgToPeer(msgSend, msgID,''', '''	for _, el := range peers {
		if el == pc.host.ID() {
			continue
		}
		wg.Add(1)
		go func(peer peer.ID) {
			defer wg.Done()
			if err := pc.sendMsgToPeer(msgSend, msgID,'''))
K('signatures by channel', (SS, '''	var receivedSig, generatedSig keysign.Response
	var errWait, errGen error
	sigChan := make(chan string, 2)
	wg := sync.WaitGroup{}
	wg.Add(2)
''', '''	var receivedSig, generatedSig keysign.Response
	var errWait, errGen error
	sigChan := make(chan string, 2)
	wg := sync.WaitGroup{}
	waited := make(chan struct{})
	wg.Add(1)
'''), (SS, '''		defer wg.Done()
		receivedSig, errWait''', '''		defer close(waited)
		receivedSig, errWait'''), (SS, '''	wg.Wait()
	close(sigChan)
''', '''	<-waited
	wg.Wait()
	close(sigChan)
'''))
# ---- C19
B('C19', 'no keygen limit', (KG, '''		case <-time.After(tssConf.KeyGenTimeout):''', '''		case <-tKeyGen.commStopChan:'''))
B('C19', 'limit only logged', (PC, '''			case <-time.After(pc.timeout):
				// timeout
				pc.logger.Error().Msg("leader waits for peers timeout")
				return
''', '''			case <-time.After(pc.timeout):
				// timeout
				pc.logger.Error().Msg("leader waits for peers timeout")
'''))
B('C19', 'requests go on after the limit', (PC, '''			// timeout
			close(done)
			pc.logger.Error().Msg("the leader has not reply us")
			return
''', '''			// timeout
			pc.logger.Error().Msg("the leader has not reply us")
			return
'''))
B('C19', 'no limit for the leader', (PC, '''			case <-time.After(pc.timeout):
				// timeout
				pc.logger.Error().Msg("leader waits for peers timeout")
				return
''', ''))
B('C19', 'no limit for a signature', (SN, '''	case <-time.After(timeout):
		return nil, fmt.Errorf("timeout: didn't receive signature after %s", timeout)
''', ''))
B('C19', 'room for one only', (SS, 'make(chan string, 2)', 'make(chan string, 1)'))
B('C19', 'context cancelled only', (PC, 'ctx, cancel := context.WithTimeout(context.Background(), time.Second*4)', 'ctx, cancel := context.WithCancel(context.Background())'))
B('C19', 'stream waited for', (PC, '''	select {
	case <-streamGetChan:
		if streamError != nil {
			pc.logger.Error().Err(streamError).Msg("fail to open stream")
			return streamError
		}
	case <-ctx.Done():
		pc.logger.Error().Err(ctx.Err()).Msg("fail to open stream with context timeout")
		return ctx.Err()
	}
''', '''	<-streamGetChan
	if streamError != nil {
		pc.logger.Error().Err(streamError).Msg("fail to open stream")
		return streamError
	}
''')) if False else None
B('C19', 'workers left on error', (T, '''	defer func() {
		close(tssJobChan)
		jobWg.Wait()
	}()
''', ''), (T, '''		tssJobChan <- job
	}
	return nil
''', '''		tssJobChan <- job
	}
	close(tssJobChan)
	jobWg.Wait()
	return nil
'''))
B('C19', 'inbound loop left on error', (KG, '''	if err != nil {
		close(tKeyGen.commStopChan)
		return nil, fmt.Errorf("fail to process key sign''', '''	if err != nil {
		return nil, fmt.Errorf("fail to process key sign'''))
B('C19', 'closed twice', (TK, '''	keySignWg.Wait()

	tKeySign.logger''', '''	close(tKeySign.commStopChan)
	keySignWg.Wait()

	tKeySign.logger'''))
B('C19', 'found peers close each time', (PC, '''				if peerGroup.getCoordinationStatus() {
					close(done)
					return
				}
''', '''				if peerGroup.getCoordinationStatus() {
					close(done)
				}
'''))
B('C19', 'notice without room', (PS, 'make(chan bool, len(peerNodes)),\n		newFound', 'make(chan bool),\n		newFound'))
B('C19', 'answer without room', (NO, 'make(chan []*common.ECSignature, 1)', 'make(chan []*common.ECSignature)'))
B('C19', 'jobs without room', (T, 'make(chan *tssJob, len(bulkMsg))', 'make(chan *tssJob, len(t.partyInfo.PartyIDMap))'))
B('C19', 'silent failure', (CM, '''				connRet <- false
				return
''', '''				return
'''))
B('C19', 'delivery blocks', (CM, '''		select {
		case channel <- &Message{
			PeerID:  stream.Conn().RemotePeer(),
			Payload: dataBuf,
		}:
		case <-c.stopChan:
			// nobody may read the channel any more once its session is over
		}
''', '''		channel <- &Message{
			PeerID:  stream.Conn().RemotePeer(),
			Payload: dataBuf,
		}
'''))
B('C19', 'ping without limit', (CM, 'ctx, cancel := context.WithTimeout(context.Background(), time.Second*2)', 'ctx, cancel := context.WithCancel(context.Background())'))
B('C19', 'signals after closing', (SS, '''	wg.Wait()
	close(sigChan)
	keysignTime := time.Since(keysignStartTime)
	// we received the generated verified signature, so we return
	if errWait == nil {
''', '''	wg.Wait()
	close(sigChan)
	keysignTime := time.Since(keysignStartTime)
	// we received the generated verified signature, so we return
	if errWait == nil {
		if errGen != nil {
			sigChan <- "signature received"
		}
'''))
B('C19', 'queue never stopped', (CM, '''		case <-c.stopChan:
			return
		}
	}
}

func (c *Communication) ReleaseStream''', '''		}
	}
}

func (c *Communication) ReleaseStream'''))
K('timer of its own', (PC, '''	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-peerGroup.notify:
				pc.logger.Debug().Msg("we have enough participants")
				return

			case <-time.After(pc.timeout):''', '''	wg.Add(1)
	timer := time.NewTimer(pc.timeout)
	defer timer.Stop()
	go func() {
		defer wg.Done()
		for {
			select {
			case <-peerGroup.notify:
				pc.logger.Debug().Msg("we have enough participants")
				return

			case <-timer.C:'''))
K('flag ends the loop', (PC, '''		for {
			select {
			case <-peerGroup.newFound:
				pc.logger.Debug().Msg("we have found the new peer")
				if peerGroup.getCoordinationStatus() {
					close(done)
					return
				}
			case <-time.After(pc.timeout):
				// timeout
				close(done)
				return
			}
		}
''', '''		over := false
		for !over {
			select {
			case <-peerGroup.newFound:
				pc.logger.Debug().Msg("we have found the new peer")
				over = peerGroup.getCoordinationStatus()
			case <-time.After(pc.timeout):
				over = true
			}
		}
		close(done)
'''))
K('deferred close', (PC, '''		defer wg.Done()
		// now we wait for the leader''', '''		defer wg.Done()
		defer close(done)
		// now we wait for the leader'''), (PC, '''			pc.logger.Debug().Msg("we have receive the response from the leader")
			close(done)
			return
''', '''			pc.logger.Debug().Msg("we have receive the response from the leader")
			return
'''), (PC, '''			// timeout
			close(done)
			pc.logger''', '''			// timeout
			pc.logger'''), (PC, '''			sigNotify = result
			close(done)
			return
''', '''			sigNotify = result
			return
'''))
K('stop in a helper', (KG, '''	select {
	case <-time.After(time.Second * 5):
		close(tKeyGen.commStopChan)

	case <-tKeyGen.tssCommonStruct.GetTaskDone():
		close(tKeyGen.commStopChan)
	}
''', '''	tKeyGen.awaitOthers()
	close(tKeyGen.commStopChan)
'''), (KG, '''func (tKeyGen *TssKeyGen) processKeyGen(''', '''func (tKeyGen *TssKeyGen) awaitOthers() {
	timer := time.NewTimer(time.Second * 5)
	defer timer.Stop()
	select {
	case <-timer.C:
	case <-tKeyGen.tssCommonStruct.GetTaskDone():
	}
}

func (tKeyGen *TssKeyGen) processKeyGen('''))
K('deferred stop', (TK, '''	go tKeySign.tssCommonStruct.ProcessInboundMessages(tKeySign.commStopChan, &keySignWg)
	results, err := tKeySign.processKeySign(len(msgsToSign), errCh, outCh, endCh)
	if err != nil {
		close(tKeySign.commStopChan)
		return''', '''	go tKeySign.tssCommonStruct.ProcessInboundMessages(tKeySign.commStopChan, &keySignWg)
	results, err := tKeySign.runSigning(len(msgsToSign), errCh, outCh, endCh)
	if err != nil {
		return'''), (TK, '''	select {
	case <-time.After(time.Second * 5):
		close(tKeySign.commStopChan)
	case <-tKeySign.tssCommonStruct.GetTaskDone():
		close(tKeySign.commStopChan)
	}
	keySignWg.Wait()
''', '''	keySignWg.Wait()
'''), (TK, '''func (tKeySign *TssKeySign) processKeySign(''', '''func (tKeySign *TssKeySign) runSigning(reqNum int, errChan chan struct{}, outCh <-chan btss.Message, endCh <-chan *signing.SignatureData) ([]*tsslibcommon.ECSignature, error) {
	defer close(tKeySign.commStopChan)
	results, err := tKeySign.processKeySign(reqNum, errChan, outCh, endCh)
	if err != nil {
		return nil, err
	}
	select {
	case <-time.After(time.Second * 5):
	case <-tKeySign.tssCommonStruct.GetTaskDone():
	}
	return results, nil
}

func (tKeySign *TssKeySign) processKeySign('''))

# ---- C22
B('C22', 'threshold of the signers', (TK, 'conversion.GetThreshold(len(localStateItem.ParticipantKeys))\n	if err != nil {\n		return nil, errors.New("fail to get threshold")', 'conversion.GetThreshold(len(partiesID))\n	if err != nil {\n		return nil, errors.New("fail to get threshold")'))
B('C22', 'threshold error dropped', (KG, '''	threshold, err := conversion.GetThreshold(len(partiesID))
	if err != nil {
		return nil, err
	}
	keyGenPartyMap''', '''	threshold, _ := conversion.GetThreshold(len(partiesID))
	keyGenPartyMap'''))
B('C22', 'count of participants', (TK, 'eachLocalPartyID, len(partiesID), threshold)', 'eachLocalPartyID, len(localStateItem.ParticipantKeys), threshold)'))
B('C22', 'committee of the share', (TK, '		partiesID, eachLocalPartyID, err := conversion.GetParties(parties,', '		partiesID, eachLocalPartyID, err := conversion.GetParties(localStateItem.ParticipantKeys,'))
B('C22', 'shared party', (TK, '''		partiesID, eachLocalPartyID, err := conversion.GetParties(parties, localStateItem.LocalPartyKey)
''', '''		eachLocalPartyID := localPartyID
'''))
B('C22', 'blame map not filled', (KG, 'conversion.SetupIDMaps(partyIDMap, blameMgr.PartyIDtoP2PID)', 'conversion.SetupIDMaps(partyIDMap, tKeyGen.tssCommonStruct.PartyIDtoP2PID)'))
B('C22', 'one error ignored', (KG, 'if err1 != nil || err2 != nil {', 'if err1 != nil && err2 != nil {'))
B('C22', 'peers before the map', (TK, '''	blameMgr := tKeySign.tssCommonStruct.GetBlameMgr()
	partyIDMap := conversion.SetupPartyIDMap(partiesID)
''', '''	blameMgr := tKeySign.tssCommonStruct.GetBlameMgr()
	partyIDMap := conversion.SetupPartyIDMap(partiesID)
	tKeySign.tssCommonStruct.P2PPeersLock.Lock()
	tKeySign.tssCommonStruct.P2PPeers = conversion.GetPeersID(tKeySign.tssCommonStruct.PartyIDtoP2PID, tKeySign.tssCommonStruct.GetLocalPeerID())
	tKeySign.tssCommonStruct.P2PPeersLock.Unlock()
'''), (TK, '''	blameMgr.SetPartyInfo(keySignPartyMap, partyIDMap)

	tKeySign.tssCommonStruct.P2PPeersLock.Lock()
	tKeySign.tssCommonStruct.P2PPeers = conversion.GetPeersID(tKeySign.tssCommonStruct.PartyIDtoP2PID, tKeySign.tssCommonStruct.GetLocalPeerID())
	tKeySign.tssCommonStruct.P2PPeersLock.Unlock()
''', '''	blameMgr.SetPartyInfo(keySignPartyMap, partyIDMap)
'''))
B('C22', 'peers of the blame map', (KG, 'conversion.GetPeersID(tKeyGen.tssCommonStruct.PartyIDtoP2PID,', 'conversion.GetPeersID(map[string]peer.ID{},'), (KG, '''import (
''', '''import (
	"github.com/libp2p/go-libp2p-core/peer"
'''))
B('C22', 'info after start', (KG, '''	tKeyGen.tssCommonStruct.SetPartyInfo(partyInfo)
''', ''), (KG, '''	r, err := tKeyGen.processKeyGen(''', '''	tKeyGen.tssCommonStruct.SetPartyInfo(partyInfo)
	r, err := tKeyGen.processKeyGen('''))
B('C22', 'blame has no parties', (TK, '''	blameMgr.SetPartyInfo(keySignPartyMap, partyIDMap)
''', ''))
B('C22', 'bad party skipped', (CV, '''		peerID, err := GetPeerIDFromPartyID(party)
		if err != nil {
			return err
		}
''', '''		peerID, err := GetPeerIDFromPartyID(party)
		if err != nil {
			continue
		}
'''))
B('C22', 'first party only', (CV, '''		partyIDtoP2PID[id] = peerID
	}
	return nil''', '''		partyIDtoP2PID[id] = peerID
		if len(partyIDtoP2PID) > 20 {
			return nil
		}
	}
	return nil'''))
B('C22', 'existing peer kept', (CV, '''		partyIDtoP2PID[id] = peerID
	}
''', '''		if _, ok := partyIDtoP2PID[id]; !ok {
			partyIDtoP2PID[party.Moniker] = peerID
		}
	}
'''))
B('C22', 'filed by moniker', (CV, 'partyIDMap[id.Id] = id', 'partyIDMap[id.Moniker] = id'))
B('C22', 'stops at the local peer', (CV, '''		if value.String() == localPeerID {
			continue
		}''', '''		if value.String() == localPeerID {
			break
		}'''))
B('C22', 'local peer kept', (CV, '''		if value.String() == localPeerID {
			continue
		}''', '''		if value.String() == localPeerID && len(partyIDtoP2PID) > 7 {
			continue
		}'''))
B('C22', 'empty peer for a bad key', (CV, '''	pkBytes := partyID.KeyInt().Bytes()
	return GetPeerIDFromSecp256PubKey(pkBytes)''', '''	pkBytes := partyID.KeyInt().Bytes()
	id, err := GetPeerIDFromSecp256PubKey(pkBytes)
	if err != nil {
		return peer.ID(pkBytes), nil
	}
	return id, nil'''))
B('C22', 'table shrinks', (T, '''	t.culprits = append(t.culprits, err.Culprits()...)
	t.culpritsLock.Unlock()
''', '''	t.culprits = append(t.culprits, err.Culprits()...)
	for _, el := range err.Culprits() {
		delete(t.PartyIDtoP2PID, el.Id)
	}
	t.culpritsLock.Unlock()
'''))
B('C22', 'local party of the request', (KG, 'conversion.GetParties(keygenReq.Keys, tKeyGen.localNodePubKey)', 'conversion.GetParties(keygenReq.Keys, keygenReq.Keys[0])'))
K('committee helper', (KG, '''	partyIDMap := conversion.SetupPartyIDMap(partiesID)
	err1 := conversion.SetupIDMaps(partyIDMap, tKeyGen.tssCommonStruct.PartyIDtoP2PID)
	err2 := conversion.SetupIDMaps(partyIDMap, blameMgr.PartyIDtoP2PID)
	if err1 != nil || err2 != nil {
		tKeyGen.logger.Error().Msgf("error in creating mapping between partyID and P2P ID")
		return nil, errors.New("fail to create the mapping between partyID and P2P ID")
	}
''', '''	partyIDMap, err := tKeyGen.setupMaps(partiesID)
	if err != nil {
		return nil, err
	}
'''), (KG, '''	tKeyGen.tssCommonStruct.P2PPeersLock.Lock()
	tKeyGen.tssCommonStruct.P2PPeers = conversion.GetPeersID(tKeyGen.tssCommonStruct.PartyIDtoP2PID, tKeyGen.tssCommonStruct.GetLocalPeerID())
	tKeyGen.tssCommonStruct.P2PPeersLock.Unlock()
''', '''	tKeyGen.setPeers()
'''), (KG, '''func (tKeyGen *TssKeyGen) processKeyGen(''', '''func (tKeyGen *TssKeyGen) setPeers() {
	common := tKeyGen.tssCommonStruct
	peers := conversion.GetPeersID(common.PartyIDtoP2PID, common.GetLocalPeerID())
	common.P2PPeersLock.Lock()
	defer common.P2PPeersLock.Unlock()
	common.P2PPeers = peers
}

func (tKeyGen *TssKeyGen) setupMaps(partiesID []*btss.PartyID) (map[string]*btss.PartyID, error) {
	partyIDMap := conversion.SetupPartyIDMap(partiesID)
	if err := conversion.SetupIDMaps(partyIDMap, tKeyGen.tssCommonStruct.PartyIDtoP2PID); err != nil {
		return nil, fmt.Errorf("fail to create the mapping between partyID and P2P ID: %w", err)
	}
	if err := conversion.SetupIDMaps(partyIDMap, tKeyGen.tssCommonStruct.GetBlameMgr().PartyIDtoP2PID); err != nil {
		return nil, fmt.Errorf("fail to create the mapping between partyID and P2P ID: %w", err)
	}
	return partyIDMap, nil
}

func (tKeyGen *TssKeyGen) processKeyGen('''))
K('table loops rewritten', (CV, '''	for id, party := range parties {
		peerID, err := GetPeerIDFromPartyID(party)
		if err != nil {
			return err
		}
		partyIDtoP2PID[id] = peerID
	}
	return nil''', '''	for id := range parties {
		if err := setupPeer(parties[id], id, partyIDtoP2PID); err != nil {
			return err
		}
	}
	return nil'''), (CV, '''func SetupIDMaps(''', '''func setupPeer(party *btss.PartyID, id string, known map[string]peer.ID) error {
	peerID, err := GetPeerIDFromPartyID(party)
	if err == nil {
		known[id] = peerID
	}
	return err
}

func SetupIDMaps('''), (CV, '''	for _, id := range partiesID {
		partyIDMap[id.Id] = id
	}''', '''	for i := 0; i < len(partiesID); i++ {
		party := partiesID[i]
		partyIDMap[party.GetId()] = party
	}'''), (CV, '''		if value.String() == localPeerID {
			continue
		}
		peerIDs = append(peerIDs, value)
''', '''		if localPeerID != value.String() {
			peerIDs = append(peerIDs, value)
		}
'''))

# ---- C32
B('C32', 'duplicate report counted', (T, '''			if t.finishedPeers[peerID] {
				return fmt''', '''			if t.finishedPeers[peerID] && len(t.finishedPeers) > 2 {
				return fmt'''))
B('C32', 'flag ignored', (T, '''		if wireMsg.TaskDone {
''', '''		if wireMsg.TaskDone || len(wrappedMsg.MsgID) > 0 {
'''))
B('C32', 'undecoded counted', (T, '''			if err != nil {
			t.logger.Error().Err(err).Msg("fail to unmarshal the notify message")
			return nil
		}'''.replace("			if", "		if",1), '''		if err != nil {
			t.logger.Error().Err(err).Msg("fail to unmarshal the notify message")
		}'''))
B('C32', 'count at least', (T, '''			if len(t.finishedPeers) == len(t.partyInfo.PartyIDMap)-1 {''', '''			if len(t.finishedPeers) >= len(t.partyInfo.PartyIDMap)-2 {'''))
B('C32', 'everybody incl self', (T, '''			if len(t.finishedPeers) == len(t.partyInfo.PartyIDMap)-1 {''', '''			if len(t.finishedPeers) == len(t.partyInfo.PartyIDMap) {'''))
B('C32', 'counts session id', (T, '''			if t.finishedPeers[peerID] {
				return fmt.Errorf("duplicated notification from peer %s ignored", peerID)
			}
			t.finishedPeers[peerID] = true''', '''			peerID = peerID + wrappedMsg.MsgID
			if t.finishedPeers[peerID] {
				return fmt.Errorf("duplicated notification from peer %s ignored", peerID)
			}
			t.finishedPeers[peerID] = true'''))
B('C32', 'not counted when last', (T, '''			t.finishedPeers[peerID] = true
			if len''', '''			if len(t.finishedPeers) < 6 {
				t.finishedPeers[peerID] = true
			}
			if len'''))
B('C32', 'no finish for pairs', (T, '''				t.logger.Debug().Msg("we get the confirm of the nodes that generate the signature")
				close(t.taskDone)''', '''				t.logger.Debug().Msg("we get the confirm of the nodes that generate the signature")
				if len(t.finishedPeers) > 1 {
					close(t.taskDone)
				}'''))
B('C32', 'told on first signature', (TK, '''			signatures = append(signatures, msg.GetSignature())
			if len(signatures) == reqNum {
				tKeySign.logger.Debug().Msg("we have done the key sign")
				err := tKeySign.tssCommonStruct.NotifyTaskDone()
				if err != nil {
					tKeySign.logger.Error().Err(err).Msg("fail to broadcast the keysign done")
				}
''', '''			signatures = append(signatures, msg.GetSignature())
			if len(signatures) == 1 {
				err := tKeySign.tssCommonStruct.NotifyTaskDone()
				if err != nil {
					tKeySign.logger.Error().Err(err).Msg("fail to broadcast the keysign done")
				}
			}
			if len(signatures) == reqNum {
				tKeySign.logger.Debug().Msg("we have done the key sign")
'''))
B('C32', 'told without flag', (H, 'messages.TssTaskNotifier{TaskDone: true}', 'messages.TssTaskNotifier{TaskDone: t.broadcastChannel != nil}'))
B('C32', 'told some', (H, '''	peers := t.P2PPeers
	t.P2PPeersLock.RUnlock()
	t.renderToP2P(&messages.BroadcastMsgChan{
		WrappedMessage: wrappedMsg,''', '''	peers := t.P2PPeers[:len(t.P2PPeers)/2+1]
	t.P2PPeersLock.RUnlock()
	t.renderToP2P(&messages.BroadcastMsgChan{
		WrappedMessage: wrappedMsg,'''))
B('C32', 'told as control', (H, 'MessageType: messages.TSSTaskDone', 'MessageType: messages.TSSControlMsg'))
B('C32', 'not told', (KG, '''			err := tKeyGen.tssCommonStruct.NotifyTaskDone()
			if err != nil {
				tKeyGen.logger.Error().Err(err).Msg("fail to broadcast the keysign done")
			}
''', '''			if len(tssConf.String()) > 3 {
				if err := tKeyGen.tssCommonStruct.NotifyTaskDone(); err != nil {
					tKeyGen.logger.Error().Err(err).Msg("fail to broadcast the keysign done")
				}
			}
'''.replace('len(tssConf.String()) > 3','tssConf.KeyGenTimeout > 3')))
B('C32', 'keygen stops at once', (KG, '''	select {
	case <-time.After(time.Second * 5):
		close(tKeyGen.commStopChan)

	case <-tKeyGen.tssCommonStruct.GetTaskDone():
		close(tKeyGen.commStopChan)
	}
''', '''	close(tKeyGen.commStopChan)
'''))
B('C32', 'keysign also default', (TK, '''	case <-tKeySign.tssCommonStruct.GetTaskDone():
		close(tKeySign.commStopChan)
	}''', '''	case <-tKeySign.tssCommonStruct.GetTaskDone():
		close(tKeySign.commStopChan)
	default:
		close(tKeySign.commStopChan)
	}'''))
B('C32', 'report taken back', (T, '''		if wireMsg.TaskDone {
''', '''		if !wireMsg.TaskDone {
			delete(t.finishedPeers, peerID)
		}
		if wireMsg.TaskDone {
'''))
K('done helper', (T, '''			if t.finishedPeers[peerID] {
				return fmt.Errorf("duplicated notification from peer %s ignored", peerID)
			}
			t.finishedPeers[peerID] = true
			if len(t.finishedPeers) == len(t.partyInfo.PartyIDMap)-1 {
				t.logger.Debug().Msg("we get the confirm of the nodes that generate the signature")
				close(t.taskDone)
			}
			return nil
		}''', '''			return t.memberDone(peerID)
		}'''), (T, '''func (t *TssCommon) ProcessOneMessage(''', '''func (t *TssCommon) memberDone(peerID string) error {
	if _, known := t.finishedPeers[peerID]; known {
		return fmt.Errorf("duplicated notification from peer %s ignored", peerID)
	}
	t.finishedPeers[peerID] = true
	others := len(t.partyInfo.PartyIDMap) - 1
	if others != len(t.finishedPeers) {
		return nil
	}
	t.logger.Debug().Msg("we get the confirm of the nodes that generate the signature")
	close(t.taskDone)
	return nil
}

func (t *TssCommon) ProcessOneMessage('''), (KG, '''	select {
	case <-time.After(time.Second * 5):
		close(tKeyGen.commStopChan)

	case <-tKeyGen.tssCommonStruct.GetTaskDone():
		close(tKeyGen.commStopChan)
	}
''', '''	timer := time.NewTimer(time.Second * 5)
	defer timer.Stop()
	select {
	case <-tKeyGen.tssCommonStruct.GetTaskDone():
	case <-timer.C:
	}
	close(tKeyGen.commStopChan)
'''))
# ---- C18
LASTNIL = '''			if lastMsg == nil {
				tKeySign.logger.Error().Msg("fail to start the keysign, the last produced message of this node is none")
				return nil, errors.New("timeout before shared message is generated")
			}
'''
B('C18', 'keysign last message', (TK, LASTNIL, ''))
B('C18', 'keysign last message only logged', (TK, LASTNIL, LASTNIL.replace('				return nil, errors.New("timeout before shared message is generated")\n', '')))
B('C18', 'inner sender not checked', (T, '''		if !hasSender(msg.Routing) {
			t.logger.Error().Msg("a share in the message has no sender")
			return errors.New("invalid share in the message")
		}
''', ''))
B('C18', 'sender id of nil wrapper', (H, 'return r != nil && r.From != nil && r.From.MessageWrapper_PartyID != nil', 'return r != nil && r.From != nil'))
B('C18', 'has sender or', (H, 'return r != nil && r.From != nil && r.From.MessageWrapper_PartyID != nil', 'return r != nil && (r.From != nil || r.To != nil)'))
B('C18', 'unknown party used', (T, '''	dataOwner, ok := partyIDMap[wireMsg.Routing.From.Id]
	if !ok {
		t.logger.Error().Msg("error in find the data owner")
		return errors.New("error in find the data owner")
	}
''', '''	dataOwner := partyIDMap[wireMsg.Routing.From.Id]
'''), (T, 'ok = verifySignature(pk', 'ok := verifySignature(pk'))
B('C18', 'unknown party named', (T, 'return fmt.Errorf("get message from unknown party %s", wireMsg.Routing.From.Id)', 'return fmt.Errorf("get message from unknown party %s", partyInfo.PartyIDMap[wireMsg.Routing.From.Id].Id)'))
B('C18', 'party of share unchecked', (T, '''		partyID, ok := partyInfo.PartyIDMap[msg.Routing.From.Id]
		if !ok {
			t.logger.Error().Msg("error in find the partyID")
			return errors.New("cannot find the party to handle the message")
		}
''', '''		partyID := partyInfo.PartyIDMap[msg.Routing.From.Id]
'''))
B('C18', 'cache item message', (T, '''	if localCacheItem.Msg == nil {
		return t.requestShareFromPeer(localCacheItem, threshold, key, msgType)
	}
''', '''	if localCacheItem.Msg == nil && len(localCacheItem.ConfirmedList) < threshold {
		return t.requestShareFromPeer(localCacheItem, threshold, key, msgType)
	}
'''))
B('C18', 'invalid message nil', (T, '''		if invalidMsg == nil {
			t.logger''', '''		if invalidMsg == nil && !unicast {
			t.logger'''))
B('C18', 'control message', (T, '''		if wireMsg.Msg == nil {
			decodedPeerID''', '''		if wireMsg.Msg == nil && wireMsg.ReqHash != "" {
			decodedPeerID'''))
B('C18', 'panic on unknown type', (T, 'return messages.Unknown // this should not happen', 'panic("unknown message type")'))
B('C18', 'fatal', (T, 't.logger.Error().Msg("fail to get any peer ID")', 't.logger.Fatal().Msg("fail to get any peer ID")'))
B('C18', 'signature data nil', ('keysign/notifier.go', 'if data != nil {', 'if data != nil || n.processed {'), ) if False else None
B('C18', 'stored other type', (TK, 'keySignPartyMap.Store(moniker, keySignParty)', 'keySignPartyMap.Store(moniker, &keySignParty)'))
B('C18', 'cached as pointers', (T, '''			l := []BulkWireMsg{cachedWiredMsg}
			t.cachedWireBroadcastMsgLists.Store(msg.Type(), l)''', '''			l := [1]BulkWireMsg{cachedWiredMsg}
			t.cachedWireBroadcastMsgLists.Store(msg.Type(), l)'''))
B('C18', 'blame standby ids', ('blame/policy.go', 'blames = append(blames, el.(string))', 'blames = append(blames, el.(fmt.Stringer).String())'))
B('C18', 'blame of nobody', ('blame/policy.go', '''	if !ok {
		m.logger.Error().Msg("cannot find the blame node public key")
		return "", errors.New("fail to find the share Owner")
	}
''', '''	if !ok {
		m.logger.Error().Msgf("cannot find the blame node public key of %s", owner.Id)
		return "", errors.New("fail to find the share Owner")
	}
'''))
B('C18', 'hash message stored without sender check', (T, '''	if wireMsg == nil || !hasSender(wireMsg.Routing) {
		t.logger.Warn().Msg("received msg invalid")''', '''	if wireMsg == nil || wireMsg.Routing == nil {
		t.logger.Warn().Msg("received msg invalid")'''))
K('valid error helper', (T, '''	if wireMsg == nil || !hasSender(wireMsg.Routing) {
		t.logger.Warn().Msg("received msg invalid")
		return errors.New("invalid wireMsg")
	}
''', '''	if err := checkWire(wireMsg); err != nil {
		t.logger.Warn().Msg("received msg invalid")
		return err
	}
'''), (H, '''func MsgToHashInt(''', '''func checkWire(m *messages.WireMessage) error {
	if m == nil {
		return errors.New("invalid wireMsg")
	}
	if !hasSender(m.Routing) {
		return errors.New("invalid wireMsg")
	}
	return nil
}

func MsgToHashInt('''))
K('sender inlined', (T, '''	if wireMsg == nil || !hasSender(wireMsg.Routing) {
		t.logger.Warn().Msg("received msg invalid")
		return errors.New("invalid wireMsg")
	}
''', '''	valid := wireMsg != nil && wireMsg.Routing != nil && wireMsg.Routing.From != nil && wireMsg.Routing.From.MessageWrapper_PartyID != nil
	if !valid {
		t.logger.Warn().Msg("received msg invalid")
		return errors.New("invalid wireMsg")
	}
'''))
K('sender in a variable', (T, '''		if !hasSender(msg.Routing) {
			t.logger.Error()''', '''		from := msg.Routing.GetFromOrNil()
		if from == nil {
			t.logger.Error()''')) if False else None
K('sender local', (H, 'return r != nil && r.From != nil && r.From.MessageWrapper_PartyID != nil', '''if r == nil {
		return false
	}
	from := r.From
	if from == nil {
		return false
	}
	return from.MessageWrapper_PartyID != nil'''))
K('owner lookup helper', (T, '''	dataOwner, ok := partyIDMap[wireMsg.Routing.From.Id]
	if !ok {
		t.logger.Error().Msg("error in find the data owner")
		return errors.New("error in find the data owner")
	}
	keyBytes := dataOwner.GetKey()
	var pk secp256k1.PubKey
	pk = keyBytes
	ok = verifySignature(''', '''	dataOwner, err := findOwner(partyIDMap, wireMsg)
	if err != nil {
		t.logger.Error().Msg("error in find the data owner")
		return err
	}
	keyBytes := dataOwner.GetKey()
	var pk secp256k1.PubKey
	pk = keyBytes
	ok := verifySignature('''), (T, '''// processTSSMsg
''', '''func findOwner(parties map[string]*btss.PartyID, wireMsg *messages.WireMessage) (*btss.PartyID, error) {
	if owner, ok := parties[wireMsg.Routing.From.Id]; ok {
		return owner, nil
	}
	return nil, errors.New("error in find the data owner")
}

// processTSSMsg
'''))
K('owner nil compare', (T, '''	dataOwner, ok := partyIDMap[wireMsg.Routing.From.Id]
	if !ok {
		t.logger.Error().Msg("error in find the data owner")
		return errors.New("error in find the data owner")
	}
''', '''	dataOwner := partyIDMap[wireMsg.Routing.From.Id]
	ok := dataOwner != nil
	if dataOwner == nil {
		t.logger.Error().Msg("error in find the data owner")
		return errors.New("error in find the data owner")
	}
'''))
K('cached list helper', (T, '''		dat, ok := t.cachedWireBroadcastMsgLists.Load(msg.Type())
		if !ok {
			l := []BulkWireMsg{cachedWiredMsg}
			t.cachedWireBroadcastMsgLists.Store(msg.Type(), l)
		} else {
			cachedList := dat.([]BulkWireMsg)
			cachedList = append(cachedList, cachedWiredMsg)
			t.cachedWireBroadcastMsgLists.Store(msg.Type(), cachedList)
		}
''', '''		addWire(t.cachedWireBroadcastMsgLists, msg.Type(), cachedWiredMsg)
'''), (T, '''func (t *TssCommon) ProcessOutCh(''', '''func addWire(lists *sync.Map, key string, one BulkWireMsg) {
	dat, ok := lists.Load(key)
	if !ok {
		lists.Store(key, []BulkWireMsg{one})
		return
	}
	lists.Store(key, append(dat.([]BulkWireMsg), one))
}

func (t *TssCommon) ProcessOutCh('''))
K('last message helper', (TK, '''			if lastMsg == nil {
				tKeySign''', '''			produced := lastMsg != nil
			if !produced {
				tKeySign'''))
K('invalid evidence helper', (T, '''		invalidMsg := invalidMsgs[i]
		if invalidMsg == nil {
			t.logger.Error().Msg("we cannot find the record of this curlprit, set it as blank")
			msgBody = []byte{}
			sig = []byte{}
		} else {
			msgBody = invalidMsg.Message
			sig = invalidMsg.Sig
		}
''', '''		msgBody, sig = t.evidenceOf(invalidMsgs[i])
'''), (T, '''// updateLocal will apply''', '''func (t *TssCommon) evidenceOf(invalidMsg *messages.WireMessage) ([]byte, []byte) {
	if invalidMsg == nil {
		t.logger.Error().Msg("we cannot find the record of this curlprit, set it as blank")
		return []byte{}, []byte{}
	}
	return invalidMsg.Message, invalidMsg.Sig
}

// updateLocal will apply'''))
# ---- C08
BP1, BPH, BB, BRM, BMG = 'blame/policy.go', 'blame/policy_helper.go', 'blame/blame.go', 'blame/round_mgr.go', 'blame/manager.go'
TKG1, TK1, TSG, TSK = 'keygen/tss_keygen.go', 'keysign/tss_keysign.go', 'tss/keygen.go', 'tss/keysign.go'
B('C08', 'evidence of the message at hand', (T, '''			msgBody = invalidMsg.Message
			sig = invalidMsg.Sig''', '''			msgBody = invalidMsgs[0].Message
			sig = invalidMsgs[0].Sig'''))
B('C08', 'signature of another', (T, '			sig = invalidMsg.Sig', '			sig = invalidMsgs[len(invalidMsgs)-1].Sig'))
B('C08', 'missing records skipped', (T, '''		invalidMsgs = append(invalidMsgs, storedMsg)
''', '''		if storedMsg != nil {
			invalidMsgs = append(invalidMsgs, storedMsg)
		}
'''))
B('C08', 'stale evidence', (T, '''			msgBody = []byte{}
			sig = []byte{}
''', ''))
B('C08', 'evidence of the requested key', (T, '''		key := fmt.Sprintf("%s-%s", el.Id, roundInfo)''', '''		key := fmt.Sprintf("%s-%s", roundInfo, el.Id)'''))
B('C08', 'culprit on first only', (T, '''		culpritsID = append(culpritsID, el.Id)
		key''', '''		if len(culpritsID) == 0 {
			culpritsID = append(culpritsID, el.Id)
		}
		key'''))
B('C08', 'recorded before the key is known', (T, 't.blameMgr.GetRoundMgr().Set(key, localCacheItem.Msg)', 't.blameMgr.GetRoundMgr().Set(msgType.String(), localCacheItem.Msg)'))
B('C08', 'blame the wrong one', (BP1, 'owner, ok := m.partyInfo.PartyIDMap[shareOwner.Id]', 'owner, ok := m.partyInfo.PartyIDMap[m.localPartyID]\n\t_ = shareOwner'))
B('C08', 'set drops the rest', (BB, 'b.BlameNodes = append(b.BlameNodes, nodes...)', 'b.BlameNodes = nodes'))
B('C08', 'set keeps first', (BB, 'b.BlameNodes = append(b.BlameNodes, nodes...)', '''if len(nodes) > 0 {
		b.BlameNodes = append(b.BlameNodes, nodes[0])
	}'''))
B('C08', 'found not reset', (BB, '''	for _, node := range newBlameNodes {
		found := false
''', '''	found := false
	for _, node := range newBlameNodes {
'''))
B('C08', 'add stops at known', (BB, '''		if !found {
			b.BlameNodes''', '''		if found {
			return
		}
		if !found {
			b.BlameNodes'''))
B('C08', 'equal by signature', (BB, 'if bn.Pubkey == node.Pubkey && bytes', 'if bn.Pubkey == node.Pubkey || bytes'))
B('C08', 'snapshot without nodes', (BB, 'append([]Node(nil), b.BlameNodes...)', '[]Node(nil)'))
B('C08', 'already if reason', (BB, 'return len(b.BlameNodes) > 0', 'return b.FailReason != ""'))
B('C08', 'already if more than one', (BB, 'return len(b.BlameNodes) > 0', 'return len(b.BlameNodes) > 1'))
B('C08', 'local not skipped', (BPH, '''		if m.localPartyID == partyID {
			continue
		}
''', ''))
B('C08', 'not in list inverted', (BPH, '''		if !found {
			partiesNotInList''', '''		if found {
			partiesNotInList'''))
B('C08', 'found kept', (BPH, '''	for partyID, p2pID := range m.PartyIDtoP2PID {
		if m.localPartyID == partyID {
			continue
		}
		found := false
''', '''	found := false
	for partyID, p2pID := range m.PartyIDtoP2PID {
		if m.localPartyID == partyID {
			continue
		}
'''))
B('C08', 'first only', (BPH, '''			partiesNotInList = append(partiesNotInList, partyID)
''', '''			partiesNotInList = append(partiesNotInList, partyID)
			break
'''))
B('C08', 'lists swapped', (BPH, 'return inList, notInlist, err', 'return notInlist, inList, err'))
B('C08', 'unicast in list', (BP1, '_, blamePeers, err := m.GetBlamePubKeysLists(onlinePeers)', 'blamePeers, _, err := m.GetBlamePubKeysLists(onlinePeers)'))
B('C08', 'unicast of any round', (BP1, '''	for _, el := range peersID {
		peersMap[el.String()] = true
	}''', '''	for _, el := range peersID {
		peersMap[el.String()] = true
		break
	}'''))
B('C08', 'unicast nodes cut', (BP1, '''	for _, el := range blamePeers {
		blameNodes = append(blameNodes, NewNode(el, nil, nil))
	}
	return blameNodes, nil
}

// this blame blames the node who cause the timeout in broadcast message''', '''	for i, el := range blamePeers {
		if i == 0 {
			blameNodes = append(blameNodes, NewNode(el, nil, nil))
		}
	}
	return blameNodes, nil
}

// this blame blames the node who cause the timeout in broadcast message'''))
B('C08', 'broadcast blames itself', (BP1, '''		if el.Id != m.localPartyID {
			peersSet.Add(el.Id)
		}''', '''		peersSet.Add(el.Id)'''))
B('C08', 'difference swapped', (BP1, 'peersSet.Difference(standbySet)', 'standbySet.Difference(peersSet)'))
B('C08', 'intersection', (BP1, 'peersSet.Difference(standbySet)', 'peersSet.Intersect(standbySet)'))
B('C08', 'any round heard', (BRM, '''		if el.RoundInfo == roundInfo {
			standbyNodes = append(standbyNodes, el.Routing.From.Id)
		}''', '''		standbyNodes = append(standbyNodes, el.Routing.From.Id)'''))
B('C08', 'missing off by one', (BP1, 'if len(el)+1 == len(m.PartyIDtoP2PID) {', 'if len(el) == len(m.PartyIDtoP2PID) {'))
B('C08', 'missing later rounds', (BP1, '''				peers = append(peers, m.PartyIDtoP2PID[pid].String())
			}
			break''', '''				peers = append(peers, m.PartyIDtoP2PID[pid].String())
			}'''))
B('C08', 'missing flag kept', (BP1, '''		var peers []string
		missing := false
''', '''		var peers []string
'''), (BP1, '''	for _, cachedShares := range acceptedShareForMsg {
''', '''	missing := false
	for _, cachedShares := range acceptedShareForMsg {
'''))
B('C08', 'missing first message only', (BP1, '''			blameNodes = append(blameNodes, node)
		}
	}
	return''', '''			blameNodes = append(blameNodes, node)
		}
		break
	}
	return'''))
B('C08', 'missing peers shared', (BP1, '''		var peers []string
		missing := false
''', '''		missing := false
'''), (BP1, '''	for _, cachedShares := range acceptedShareForMsg {
''', '''	var peers []string
	for _, cachedShares := range acceptedShareForMsg {
'''))
B('C08', 'entry under another round', (BP1, '''			cachedShares[roundInfo.Index] = value
			acceptedShareForMsg''', '''			cachedShares[0] = value
			acceptedShareForMsg'''))
B('C08', 'keygen no threshold', (TKG1, 'len(blameNodesMisingShare) > 0 && len(blameNodesMisingShare) <= threshold', 'len(blameNodesMisingShare) > 0'))
B('C08', 'keygen threshold plus one', (TKG1, 'len(blameNodesUnicast) > 0 && len(blameNodesUnicast) <= threshold', 'len(blameNodesUnicast) > 0 && len(blameNodesUnicast) <= threshold+1'))
B('C08', 'keygen unicast type', (TKG1, 'GetUnicastBlame(messages.KEYGEN2aUnicast)', 'GetUnicastBlame(lastMsg.Type())'))
B('C08', 'keygen rounds', (TKG1, 'TssMissingShareBlame(messages.TSSKEYGENROUNDS)', 'TssMissingShareBlame(messages.TSSKEYSIGNROUNDS)'))
B('C08', 'keygen missing always', (TKG1, 'if !blameMgr.GetBlame().AlreadyBlame() {', 'if true {'))
B('C08', 'keygen broadcast dropped', (TKG1, 'blameMgr.GetBlame().AddBlameNodes(blameNodesBroadcast...)', '_ = blameNodesBroadcast'))
B('C08', 'keygen broadcast only if none', (TKG1, 'blameMgr.GetBlame().AddBlameNodes(blameNodesBroadcast...)', '''if !blameMgr.GetBlame().AlreadyBlame() {
				blameMgr.GetBlame().AddBlameNodes(blameNodesBroadcast...)
			}'''))
B('C08', 'reason replaced', (TKG1, '''			if failReason == "" {
				failReason = blame.TssTimeout
			}''', '''			if failReason != "" {
				failReason = blame.TssTimeout
			}'''))
B('C08', 'threshold of peers', (TK1, 'conversion.GetThreshold(len(tKeySign.tssCommonStruct.P2PPeers) + 1)', 'conversion.GetThreshold(len(tKeySign.tssCommonStruct.P2PPeers))'))
B('C08', 'keysign branch swapped', (TK1, 'if !lastMsg.IsBroadcast() {', 'if lastMsg.IsBroadcast() {'))
B('C08', 'keysign nodes mixed', (TK1, 'blameMgr.GetBlame().AddBlameNodes(blameNodesMisingShare...)', 'blameMgr.GetBlame().AddBlameNodes(blameNodesBroadcast...)'))
B('C08', 'sync found kept', (BP1, '''	for _, item := range keys {
		found := false
''', '''	found := false
	for _, item := range keys {
'''))
B('C08', 'sync blames online', (BP1, '''		if !found {
			blame.BlameNodes''', '''		if found {
			blame.BlameNodes'''))
B('C08', 'keygen sync with leader only', (TSG, 'if len(onlinePeers) != 0 {', 'if len(onlinePeers) == 0 {'))
B('C08', 'leader left out', (TSG, '			blameNodes.AddBlameNodes(blameLeader.BlameNodes...)\n', '			_ = blameNodes\n'))
B('C08', 'leaderless internal error', (TSK, 'if onlinePeers == nil {', 'if len(onlinePeers) < len(req.SignerPubKeys) {'))
B('C08', 'keysign blame thrown away', (TSK, '''		blameNodes := blameMgr.GetBlame().Snapshot()
		return keysign.Response{
			Status: common.Fail,
			Blame:  blameNodes,
		}, nil
	}

	sigChan''', '''		return keysign.Response{
			Status: common.Fail,
			Blame:  blame.NewBlame(blame.InternalError, []blame.Node{}),
		}, nil
	}

	sigChan'''))
B('C08', 'keygen blame before the run', (TSG, '''	beforeKeygen := time.Now()
''', '''	beforeKeygen := time.Now()
	found := blameMgr.GetBlame().Snapshot()
'''), (TSG, '''		blameNodes := blameMgr.GetBlame().Snapshot()
		return keygen.NewResponse("", "", common.Fail, blameNodes), err''', '''		return keygen.NewResponse("", "", common.Fail, found), err'''))
K('C08 blame helper', (TKG1, '''			if len(blameNodesUnicast) > 0 && len(blameNodesUnicast) <= threshold {
				blameMgr.GetBlame().SetBlame(failReason, blameNodesUnicast, true)
			}
''', '''			if credible(blameNodesUnicast, threshold) {
				blameMgr.GetBlame().SetBlame(failReason, blameNodesUnicast, true)
			}
'''), (TKG1, '''func (tKeyGen *TssKeyGen) processKeyGen(''', '''func credible(nodes []blame.Node, threshold int) bool {
	if len(nodes) == 0 {
		return false
	}
	return len(nodes) <= threshold
}

func (tKeyGen *TssKeyGen) processKeyGen('''))
K('C08 timeout helper', (TKG1, '''			blameNodesBroadcast, err := blameMgr.GetBroadcastBlame(lastMsg.Type())
			if err != nil {
				tKeyGen.logger.Error().Err(err).Msg("error in get broadcast blame")
			}
			blameMgr.GetBlame().AddBlameNodes(blameNodesBroadcast...)
''', '''			tKeyGen.blameBroadcast(blameMgr, lastMsg)
'''), (TKG1, '''func (tKeyGen *TssKeyGen) processKeyGen(''', '''func (tKeyGen *TssKeyGen) blameBroadcast(blameMgr *blame.Manager, lastMsg btss.Message) {
	nodes, err := blameMgr.GetBroadcastBlame(lastMsg.Type())
	if err != nil {
		tKeyGen.logger.Error().Err(err).Msg("error in get broadcast blame")
	}
	for _, node := range nodes {
		blameMgr.GetBlame().AddBlameNodes(node)
	}
}

func (tKeyGen *TssKeyGen) processKeyGen('''))
K('C08 evidence pair', (T, '''	for i, pk := range pubkeys {
		invalidMsg := invalidMsgs[i]
		if invalidMsg == nil {
			t.logger.Error().Msg("we cannot find the record of this curlprit, set it as blank")
			msgBody = []byte{}
			sig = []byte{}
		} else {
			msgBody = invalidMsg.Message
			sig = invalidMsg.Sig
		}
		blameNodes''', '''	for i := 0; i < len(pubkeys); i++ {
		pk := pubkeys[i]
		msgBody, sig = []byte{}, []byte{}
		if invalidMsgs[i] != nil {
			msgBody, sig = invalidMsgs[i].Message, invalidMsgs[i].Sig
		} else {
			t.logger.Error().Msg("we cannot find the record of this curlprit, set it as blank")
		}
		blameNodes'''))
K('C08 evidence helper', (T, '''	for i, pk := range pubkeys {
		invalidMsg := invalidMsgs[i]
		if invalidMsg == nil {
			t.logger.Error().Msg("we cannot find the record of this curlprit, set it as blank")
			msgBody = []byte{}
			sig = []byte{}
		} else {
			msgBody = invalidMsg.Message
			sig = invalidMsg.Sig
		}
		blameNodes''', '''	for i, pk := range pubkeys {
		msgBody, sig = evidenceOf(invalidMsgs[i])
		blameNodes'''), (T, '''func (t *TssCommon) processInvalidMsgBlame(''', '''func evidenceOf(msg *messages.WireMessage) ([]byte, []byte) {
	if msg == nil {
		return []byte{}, []byte{}
	}
	return msg.Message, msg.Sig
}

func (t *TssCommon) processInvalidMsgBlame('''))
K('C08 not in list helper', (BPH, '''		found := false
		for _, each := range peers {
			if p2pID.String() == each {
				found = true
				break
			}
		}
		if !found {
			partiesNotInList''', '''		if !listed(peers, p2pID.String()) {
			partiesNotInList'''), (BPH, '''func (m *Manager) getBlamePubKeysNotInList(''', '''func listed(peers []string, id string) bool {
	for i := range peers {
		if peers[i] == id {
			return true
		}
	}
	return false
}

func (m *Manager) getBlamePubKeysNotInList('''))
K('C08 unicast direct', (BP1, '''	peersMap := make(map[string]bool)
	peersID''', '''	peersID'''), (BP1, '''	for _, el := range peersID {
		peersMap[el.String()] = true
	}

	var onlinePeers []string
	for key := range peersMap {
		onlinePeers = append(onlinePeers, key)
	}
''', '''	onlinePeers := make([]string, 0, len(peersID))
	for _, el := range peersID {
		onlinePeers = append(onlinePeers, el.String())
	}
'''))
K('C08 nodes helper', (BP1, '''	var blameNodes []Node
	for _, el := range blamePeers {
		blameNodes = append(blameNodes, NewNode(el, nil, nil))
	}
	return blameNodes, nil
}

// this blame blames the node who cause the timeout in broadcast message''', '''	return nodesOf(blamePeers), nil
}

func nodesOf(keys []string) []Node {
	nodes := make([]Node, len(keys))
	for i, key := range keys {
		nodes[i] = NewNode(key, nil, nil)
	}
	return nodes
}

// this blame blames the node who cause the timeout in broadcast message'''))
K('C08 add helper', (BB, '''		found := false
		for _, el := range b.BlameNodes {
			if node.Equal(el) {
				found = true
				break
			}
		}
		if !found {
			b.BlameNodes''', '''		if !b.has(node) {
			b.BlameNodes'''), (BB, '''// AddBlameNodes add''', '''func (b *Blame) has(node Node) bool {
	for _, el := range b.BlameNodes {
		if el.Equal(node) {
			return true
		}
	}
	return false
}

// AddBlameNodes add'''))
K('C08 missing cond', (BP1, 'if len(el)+1 == len(m.PartyIDtoP2PID) {', 'if len(m.PartyIDtoP2PID)-len(el) == 1 {'))
K('C08 sync helper', (BP1, '''		for _, p := range onlinePeers {
			if p == peerID {
				found = true
				break
			}
		}
		if !found {
			blame''', '''		for i := range onlinePeers {
			found = found || onlinePeers[i] == peerID
		}
		if !found {
			blame'''))
K('C08 equal return', (BB, '''	if bn.Pubkey == node.Pubkey && bytes.Equal(bn.BlameSignature, node.BlameSignature) {
		return true
	}
	return false''', '''	return bn.Pubkey == node.Pubkey && bytes.Equal(bn.BlameSignature, node.BlameSignature)'''))
K('C08 response helper', (TSK, '''		blameNodes := blameMgr.GetBlame().Snapshot()
		return keysign.Response{
			Status: common.Fail,
			Blame:  blameNodes,
		}, nil
	}

	sigChan''', '''		return failed(blameMgr.GetBlame().Snapshot()), nil
	}

	sigChan'''), (TSK, '''func (t *TssServer) generateSignature(''', '''func failed(b blame.Blame) keysign.Response {
	return keysign.Response{Status: common.Fail, Blame: b}
}

func (t *TssServer) generateSignature('''))
# ---- C21
PH21 = 'messages/TssPhaseMessages.go'
HT21 = 'common/tss_helper.go'
CV21 = 'conversion/conversion.go'
B('C21', 'confirmation types swapped', (T, '''	case messages.TSSKeyGenMsg:
		return messages.TSSKeyGenVerMsg
	case messages.TSSKeySignMsg:
		return messages.TSSKeySignVerMsg''', '''	case messages.TSSKeySignMsg:
		return messages.TSSKeyGenVerMsg
	case messages.TSSKeyGenMsg:
		return messages.TSSKeySignVerMsg'''))
B('C21', 'confirmation always keysign', (T, '		return messages.TSSKeyGenVerMsg\n', '		return messages.TSSKeySignVerMsg\n'))
B('C21', 'keysign sends as keygen', (KS if 'KS' in globals() else 'keysign/tss_keysign.go', 'ProcessOutCh(msg, messages.TSSKeySignMsg)', 'ProcessOutCh(msg, messages.TSSKeyGenMsg)'))
B('C21', 'keygen sends as keysign', ('keygen/tss_keygen.go', 'ProcessOutCh(msg, messages.TSSKeyGenMsg)', 'ProcessOutCh(msg, messages.TSSKeySignMsg)'))
B('C21', 'round name mistyped', (PH21, '"SignRound6Message"', '"SignRound06Message"'))
B('C21', 'round names swapped', (PH21, 'KEYGEN2b         = "KGRound2Message2"', 'KEYGEN2b         = "KGRound2Message1"'))
B('C21', 'too few rounds', (PH21, 'TSSKEYSIGNROUNDS = 8', 'TSSKEYSIGNROUNDS = 7'))
B('C21', 'index repeated', (HT21, '''			Index:    6,
			RoundMsg: messages.KEYSIGN6,''', '''			Index:    5,
			RoundMsg: messages.KEYSIGN6,'''))
B('C21', 'index swapped', (HT21, '''			Index:    1,
			RoundMsg: messages.KEYGEN2aUnicast,''', '''			Index:    2,
			RoundMsg: messages.KEYGEN2aUnicast,'''), (HT21, '''			Index:    2,
			RoundMsg: messages.KEYGEN2b,''', '''			Index:    1,
			RoundMsg: messages.KEYGEN2b,'''))
B('C21', 'round message of another', (HT21, 'RoundMsg: messages.KEYSIGN5,', 'RoundMsg: messages.KEYSIGN4,'))
B('C21', 'kind forgotten', (HT21, '''	case *signing.SignRound7Message:
		return blame.RoundInfo{
			Index:    7,
			RoundMsg: messages.KEYSIGN7,
		}, nil

''', ''))
B('C21', 'unknown kind accepted', (HT21, 'return blame.RoundInfo{}, errors.New("unknown round")', 'return blame.RoundInfo{RoundMsg: parsedMsg.Type()}, nil'))
B('C21', 'unicast check misses the second', (HT21, '		if index == 1 || index == 2 {', '		if index == 1 {'))
B('C21', 'unicast check by the other protocol', (HT21, 'strings.Contains(round.RoundMsg, "KGR")', 'strings.Contains(round.RoundMsg, "KGS")'))
B('C21', 'unicast check off by one', (HT21, '	if index < 5 {', '	if index <= 5 {'))
B('C21', 'missing share one late', ('blame/policy.go', '				if index == 1 {', '				if index == 2 {'))
B('C21', 'missing share off by one', ('blame/policy.go', '				if index < 5 {', '				if index <= 5 {'))
B('C21', 'missing share wrong protocol', ('blame/policy.go', 'rounds == messages.TSSKEYGENROUNDS', 'rounds == messages.TSSKEYSIGNROUNDS'))
B('C21', 'missing share flag reset', ('blame/policy.go', '''			missing = true
''', '''			missing = true
			isUnicast = false
'''))
B('C21', 'previous unicast wrong', (CV21, '		return messages.KEYSIGN1aUnicast\n', '		return messages.KEYSIGN2Unicast\n'))
B('C21', 'previous unicast by another suffix', (CV21, 'strings.HasSuffix(current, messages.KEYSIGN1b)', 'strings.HasSuffix(current, messages.KEYSIGN3)'))
B('C21', 'request type swapped', (T, '''	case messages.TSSKeyGenVerMsg:
		msg.RequestType = messages.TSSKeyGenMsg''', '''	case messages.TSSKeyGenVerMsg:
		msg.RequestType = messages.TSSKeySignMsg'''))
B('C21', 'request for a confirmation', (T, '		msg.RequestType = messages.TSSKeySignMsg\n', '		msg.RequestType = msgType\n'))
B('C21', 'request without a type', (T, '''		msg.RequestType = msgType
''', ''))
B('C21', 'done not looked at', (T, '	case messages.TSSTaskDone:\n', '	case messages.TSSTaskDone + 1:\n'))
B('C21', 'control taken for share', (T, '	case messages.TSSKeyGenMsg, messages.TSSKeySignMsg:\n		var wireMsg', '	case messages.TSSKeyGenMsg, messages.TSSKeySignMsg, messages.TSSControlMsg:\n		var wireMsg'), (T, '	case messages.TSSControlMsg:\n		var', '	case messages.TSSControlMsg + 9:\n		var'))
B('C21', 'keygen confirmations lost', (T, '	case messages.TSSKeyGenVerMsg, messages.TSSKeySignVerMsg:\n		var', '	case messages.TSSKeySignVerMsg:\n		var'))
B('C21', 'done sent as control', (HT21, 'MessageType: messages.TSSTaskDone,', 'MessageType: messages.TSSControlMsg,'))
B('C21', 'request without session', (HT21, '''		MessageType: messages.TSSControlMsg,
		MsgID:       t.msgID,''', '''		MessageType: messages.TSSControlMsg,'''))
B('C21', 'done of another session', (HT21, '''		MessageType: messages.TSSTaskDone,
		MsgID:       t.msgID,''', '''		MessageType: messages.TSSTaskDone,
		MsgID:       t.localPeerID,'''))
K('C21 round by name', (HT21, '''	case *signing.SignRound7Message:
		return blame.RoundInfo{
			Index:    7,
			RoundMsg: messages.KEYSIGN7,
		}, nil

	default:
		return''', '''	default:
		if _, ok := parsedMsg.Content().(*signing.SignRound7Message); ok {
			info := blame.RoundInfo{}
			info.RoundMsg = messages.KEYSIGN7
			info.Index = 7
			return info, nil
		}
		return'''))
K('C21 round helper', (HT21, '''		return blame.RoundInfo{
			Index:    3,
			RoundMsg: messages.KEYGEN3,
		}, nil
''', '''		return roundOf(3, messages.KEYGEN3), nil
'''), (HT21, '''func GetMsgRound(''', '''func roundOf(i int, name string) blame.RoundInfo {
	return blame.RoundInfo{Index: i, RoundMsg: name}
}

func GetMsgRound('''))
K('C21 round var', (HT21, '''	switch parsedMsg.Content().(type) {
	case *keygen.KGRound1Message:
		return blame.RoundInfo{
			Index:    0,
			RoundMsg: messages.KEYGEN1,
		}, nil
''', '''	var info blame.RoundInfo
	switch content := parsedMsg.Content().(type) {
	case *keygen.KGRound1Message:
		_ = content
		info.RoundMsg = messages.KEYGEN1
		return info, nil
'''))
K('C21 unicast return', (HT21, '''	if isKeyGen {
		if index == 1 || index == 2 {
			return true
		}
		return false
	}
	// keysign unicast blame
	if index < 5 {
		return true
	}
	return false''', '''	if isKeyGen {
		return index == 1 || index == 2
	}
	// keysign unicast blame
	return index < 5'''))
K('C21 unicast switch', (HT21, '''	if isKeyGen {
		if index == 1 || index == 2 {
			return true
		}
		return false
	}
''', '''	if isKeyGen {
		switch index {
		case 1, 2:
			return true
		default:
			return false
		}
	}
'''))
K('C21 type if chain', (T, '''	switch msgType {
	case messages.TSSKeyGenMsg:
		return messages.TSSKeyGenVerMsg
	case messages.TSSKeySignMsg:
		return messages.TSSKeySignVerMsg
	default:
		return messages.Unknown // this should not happen
	}''', '''	if msgType == messages.TSSKeyGenMsg {
		return messages.TSSKeyGenVerMsg
	}
	if msgType != messages.TSSKeySignMsg {
		return messages.Unknown // this should not happen
	}
	return messages.TSSKeySignVerMsg'''))
K('C21 missing helper', ('blame/policy.go', '''			if rounds == messages.TSSKEYGENROUNDS {
				// we are processing the keygen and if the missing shares is in second round(index=1)
				// we mark it as the unicast.
				if index == 1 {
					isUnicast = true
				}
			}
			if rounds == messages.TSSKEYSIGNROUNDS {
				// we are processing the keysign and if the missing shares is in the 5 round(index<1)
				// we all mark it as the unicast, because in some cases, the error will be detected
				// in the following round, so we cannot "trust" the node stops at the current round.
				if index < 5 {
					isUnicast = true
				}
			}
''', '''			if missingIsUnicast(rounds, index) {
				isUnicast = true
			}
'''), ('blame/policy.go', '''// this blame blames the node fail to send''', '''func missingIsUnicast(rounds, index int) bool {
	switch rounds {
	case messages.TSSKEYGENROUNDS:
		return index == 1
	case messages.TSSKEYSIGNROUNDS:
		return index < 5
	}
	return false
}

// this blame blames the node fail to send'''))
K('C21 missing or', ('blame/policy.go', '''				if index < 5 {
					isUnicast = true
				}
''', '''				isUnicast = isUnicast || index < 5
'''))
K('C21 previous switch', (CV21, '''	if strings.HasSuffix(current, messages.KEYSIGN1b) {
		return messages.KEYSIGN1aUnicast
	}
	return messages.KEYSIGN2Unicast''', '''	previous := messages.KEYSIGN2Unicast
	if strings.Contains(current, messages.KEYSIGN1b) {
		previous = messages.KEYSIGN1aUnicast
	}
	return previous'''))
K('C21 request helper', (T, '''	switch msgType {
	case messages.TSSKeyGenVerMsg:
		msg.RequestType = messages.TSSKeyGenMsg
		return t.processRequestMsgFromPeer(peersIDs, msg, true)
	case messages.TSSKeySignVerMsg:
		msg.RequestType = messages.TSSKeySignMsg
		return t.processRequestMsgFromPeer(peersIDs, msg, true)
	case messages.TSSKeySignMsg, messages.TSSKeyGenMsg:
		msg.RequestType = msgType
		return t.processRequestMsgFromPeer(peersIDs, msg, true)
	default:
		t.logger.Debug().Msg("unknown message type")
		return nil
	}''', '''	requestType, ok := requestTypeOf(msgType)
	if !ok {
		t.logger.Debug().Msg("unknown message type")
		return nil
	}
	msg.RequestType = requestType
	return t.processRequestMsgFromPeer(peersIDs, msg, true)'''), (T, '''func getBroadcastMessageType(''', '''func requestTypeOf(msgType messages.THORChainTSSMessageType) (messages.THORChainTSSMessageType, bool) {
	switch msgType {
	case messages.TSSKeyGenVerMsg, messages.TSSKeyGenMsg:
		return messages.TSSKeyGenMsg, true
	case messages.TSSKeySignVerMsg, messages.TSSKeySignMsg:
		return messages.TSSKeySignMsg, true
	}
	return 0, false
}

func getBroadcastMessageType('''))
K('C21 decode helper', (T, '''		var wireMsg messages.WireMessage
		if err := json.Unmarshal(wrappedMsg.Payload, &wireMsg); nil != err {
			return fmt.Errorf("fail to unmarshal wire message: %w", err)
		}
		return t.processTSSMsg(&wireMsg, wrappedMsg.MessageType, false)''', '''		return t.processWire(wrappedMsg)'''), (T, '''func getBroadcastMessageType(''', '''func (t *TssCommon) processWire(wrappedMsg *messages.WrappedMessage) error {
	var wireMsg messages.WireMessage
	if err := json.Unmarshal(wrappedMsg.Payload, &wireMsg); nil != err {
		return fmt.Errorf("fail to unmarshal wire message: %w", err)
	}
	return t.processTSSMsg(&wireMsg, wrappedMsg.MessageType, false)
}

func getBroadcastMessageType('''))

ROWS21 = [('keygen','KGRound1Message',0,'KEYGEN1'),('keygen','KGRound2Message1',1,'KEYGEN2aUnicast'),('keygen','KGRound2Message2',2,'KEYGEN2b'),('keygen','KGRound3Message',3,'KEYGEN3'),('signing','SignRound1Message1',0,'KEYSIGN1aUnicast'),('signing','SignRound1Message2',1,'KEYSIGN1b'),('signing','SignRound2Message',2,'KEYSIGN2Unicast'),('signing','SignRound3Message',3,'KEYSIGN3'),('signing','SignRound4Message',4,'KEYSIGN4'),('signing','SignRound5Message',5,'KEYSIGN5'),('signing','SignRound6Message',6,'KEYSIGN6'),('signing','SignRound7Message',7,'KEYSIGN7')]
OLD21 = ''.join("""	case *%s.%s:
		return blame.RoundInfo{
			Index:    %d,
			RoundMsg: messages.%s,
		}, nil

""" % t for t in ROWS21)
def all21(f, dflt):
    return (HT21, """	switch parsedMsg.Content().(type) {
""" + OLD21 + """	default:
		return blame.RoundInfo{}, errors.New("unknown round")
	}
""", f + dflt)
K('C21 one var', all21("	var info blame.RoundInfo\n	switch parsedMsg.Content().(type) {\n" + ''.join("	case *%s.%s:\n		info.Index, info.RoundMsg = %d, messages.%s\n" % t for t in ROWS21), "	default:\n		return blame.RoundInfo{}, errors.New(\"unknown round\")\n	}\n	return info, nil\n"))
K('C21 two vars', all21("	var index int\n	var name string\n	switch parsedMsg.Content().(type) {\n" + ''.join("	case *%s.%s:\n		index, name = %d, messages.%s\n" % t for t in ROWS21), "	default:\n		return blame.RoundInfo{}, errors.New(\"unknown round\")\n	}\n	return blame.RoundInfo{Index: index, RoundMsg: name}, nil\n"))
TAB21 = "var roundTable = map[string]blame.RoundInfo{\n" + ''.join("	messages.%s: {Index: %d, RoundMsg: messages.%s},\n" % (t[3], t[2], t[3]) for t in ROWS21) + "}\n\nfunc GetMsgRound("
IMP21 = (HT21, """	"github.com/binance-chain/tss-lib/ecdsa/keygen"
	"github.com/binance-chain/tss-lib/ecdsa/signing"
""", "")
K('C21 table', all21("	info, ok := roundTable[parsedMsg.Type()]\n	if !ok {\n		return blame.RoundInfo{}, errors.New(\"unknown round\")\n	}\n	return info, nil\n", ""), (HT21, "func GetMsgRound(", TAB21), IMP21)
B('C21', 'table row wrong', all21("	info, ok := roundTable[parsedMsg.Type()]\n	if !ok {\n		return blame.RoundInfo{}, errors.New(\"unknown round\")\n	}\n	return info, nil\n", ""), (HT21, "func GetMsgRound(", TAB21.replace('Index: 5', 'Index: 4')), IMP21)
B('C21', 'table row missing', all21("	info, ok := roundTable[parsedMsg.Type()]\n	if !ok {\n		return blame.RoundInfo{}, errors.New(\"unknown round\")\n	}\n	return info, nil\n", ""), (HT21, "func GetMsgRound(", TAB21.replace('	messages.KEYSIGN3: {Index: 3, RoundMsg: messages.KEYSIGN3},\n', '')), IMP21)
K('C21 by type name', all21("	switch parsedMsg.Type() {\n" + ''.join("	case messages.%s:\n		return blame.RoundInfo{Index: %d, RoundMsg: messages.%s}, nil\n" % (t[3], t[2], t[3]) for t in ROWS21), "	}\n	return blame.RoundInfo{}, errors.New(\"unknown round\")\n"), IMP21)
B('C21', 'keygen deaf to requests', ('tss/keygen.go', """	t.p2pCommunication.SetSubscribe(messages.TSSControlMsg, msgID, keygenMsgChannel)
""", ""), ('tss/keygen.go', """		t.p2pCommunication.CancelSubscribe(messages.TSSControlMsg, msgID)
""", ""))
B('C21', 'keysign deaf to done', ('tss/keysign.go', """	t.p2pCommunication.SetSubscribe(messages.TSSTaskDone, msgID, keySignChannels)
""", ""))
B('C21', 'keysign hears keygen confirmations', ('tss/keysign.go', "SetSubscribe(messages.TSSKeySignVerMsg,", "SetSubscribe(messages.TSSKeyGenVerMsg,"), ('tss/keysign.go', "CancelSubscribe(messages.TSSKeySignVerMsg,", "CancelSubscribe(messages.TSSKeyGenVerMsg,"))
B('C21', 'keygen control elsewhere', ('tss/keygen.go', """	t.p2pCommunication.SetSubscribe(messages.TSSControlMsg, msgID, keygenMsgChannel)
""", """	t.p2pCommunication.SetSubscribe(messages.TSSControlMsg, msgID, make(chan *p2p.Message, 1024))
"""), ('tss/keygen.go', '''	"gitlab.com/thorchain/tss/go-tss/messages"
''', '''	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
'''))
B('C21', 'control cancelled on join', ('tss/keygen.go', """	sigChan := make(chan string)
""", """	sigChan := make(chan string)
	t.p2pCommunication.CancelSubscribe(messages.TSSControlMsg, msgID)
"""))
K('C21 subscribe loop', ('tss/keygen.go', """	t.p2pCommunication.SetSubscribe(messages.TSSKeyGenMsg, msgID, keygenMsgChannel)
	t.p2pCommunication.SetSubscribe(messages.TSSKeyGenVerMsg, msgID, keygenMsgChannel)
	t.p2pCommunication.SetSubscribe(messages.TSSControlMsg, msgID, keygenMsgChannel)
	t.p2pCommunication.SetSubscribe(messages.TSSTaskDone, msgID, keygenMsgChannel)

	defer func() {
		t.p2pCommunication.CancelSubscribe(messages.TSSKeyGenMsg, msgID)
		t.p2pCommunication.CancelSubscribe(messages.TSSKeyGenVerMsg, msgID)
		t.p2pCommunication.CancelSubscribe(messages.TSSControlMsg, msgID)
		t.p2pCommunication.CancelSubscribe(messages.TSSTaskDone, msgID)
""", """	types := []messages.THORChainTSSMessageType{messages.TSSKeyGenMsg, messages.TSSKeyGenVerMsg, messages.TSSControlMsg, messages.TSSTaskDone}
	for _, el := range types {
		t.p2pCommunication.SetSubscribe(el, msgID, keygenMsgChannel)
	}

	defer func() {
		for _, el := range types {
			t.p2pCommunication.CancelSubscribe(el, msgID)
		}
"""))
K('C21 subscribe helper', ('tss/keysign.go', """	t.p2pCommunication.SetSubscribe(messages.TSSKeySignMsg, msgID, keySignChannels)
	t.p2pCommunication.SetSubscribe(messages.TSSKeySignVerMsg, msgID, keySignChannels)
	t.p2pCommunication.SetSubscribe(messages.TSSControlMsg, msgID, keySignChannels)
	t.p2pCommunication.SetSubscribe(messages.TSSTaskDone, msgID, keySignChannels)
""", """	t.listen(msgID, keySignChannels, messages.TSSKeySignMsg, messages.TSSKeySignVerMsg, messages.TSSControlMsg, messages.TSSTaskDone)
"""), ('tss/keysign.go', """func (t *TssServer) generateSignature(""", """func (t *TssServer) listen(msgID string, channel chan *p2p.Message, types ...messages.THORChainTSSMessageType) {
	for _, el := range types {
		t.p2pCommunication.SetSubscribe(el, msgID, channel)
	}
}

func (t *TssServer) generateSignature("""))
# ---- C24
LS24 = 'storage/localstate_mgr.go'
KP24 = 'conversion/key_provider.go'
B('C24', 'new share logged', ('keygen/tss_keygen.go', '''			keyGenLocalStateItem.LocalData = msg
''', '''			keyGenLocalStateItem.LocalData = msg
			tKeyGen.logger.Debug().Msgf("local state: %+v", keyGenLocalStateItem)
'''))
B('C24', 'xi logged', ('keygen/tss_keygen.go', '''			keyGenLocalStateItem.LocalData = msg
''', '''			keyGenLocalStateItem.LocalData = msg
			tKeyGen.logger.Debug().Str("share", msg.Xi.String()).Msg("share")
'''))
B('C24', 'state as json in log', ('keysign/tss_keysign.go', '''	threshold, err := conversion.GetThreshold(len(localStateItem.ParticipantKeys))
''', '''	if buf, err := json.Marshal(localStateItem); err == nil {
		tKeySign.logger.Debug().Msg(string(buf))
	}
	threshold, err := conversion.GetThreshold(len(localStateItem.ParticipantKeys))
'''), ('keysign/tss_keysign.go', '''import (
''', '''import (
	"encoding/json"
'''))
B('C24', 'file content in error', (LS24, 'return KeygenLocalState{}, fmt.Errorf("fail to unmarshal KeygenLocalState: %w", err)', 'return KeygenLocalState{}, fmt.Errorf("fail to unmarshal KeygenLocalState %s: %w", string(buf), err)'))
B('C24', 'key text in error', (KP24, 'fmt.Errorf("fail to decode private key: %w", err)', 'fmt.Errorf("fail to decode private key %s: %w", priKeyString, err)'))
B('C24', 'hex text in error', (KP24, 'fmt.Errorf("fail to hex decode private key: %w", err)', 'fmt.Errorf("fail to hex decode private key %q: %w", priHexBytes, err)'))
B('C24', 'file for all', (LS24, 'ioutil.WriteFile(filePathName, buf, 0o600)', 'ioutil.WriteFile(filePathName, buf, 0o644)'))
B('C24', 'opened for the group', (LS24, '''	return ioutil.WriteFile(filePathName, buf, 0o600)''', '''	f, err := os.OpenFile(filePathName, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o640)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = f.Write(buf)
	return err'''))
B('C24', 'backup for all', (LS24, '''	// the state holds our share of the private key
''', '''	if err := ioutil.WriteFile(filePathName+".bak", buf, os.ModePerm); err != nil {
		return err
	}
'''))
B('C24', 'created', (LS24, '''	return ioutil.WriteFile(filePathName, buf, 0o600)''', '''	f, err := os.Create(filePathName)
	if err != nil {
		return err
	}
	defer f.Close()
	_ = buf
	return json.NewEncoder(f).Encode(state)'''))
B('C24', 'p2p key logged', ('p2p/communication.go', '''	err := c.startChannel(priKeyBytes)
''', '''	c.logger.Debug().Hex("key", priKeyBytes).Msg("start")
	err := c.startChannel(priKeyBytes)
'''))
B('C24', 'p2p key hash printed', ('p2p/communication.go', '''	err := c.startChannel(priKeyBytes)
''', '''	fmt.Println(sha256.Sum256(priKeyBytes))
	err := c.startChannel(priKeyBytes)
'''), ('p2p/communication.go', '''import (
''', '''import (
	"crypto/sha256"
'''))
B('C24', 'key in error of tss', ('tss/tss.go', 'fmt.Errorf("fail to get private key")', 'fmt.Errorf("fail to get private key of type %T: %v", priKey, priKey)'))
B('C24', 'server logged', ('tss/tss.go', '''	return &tssServer, nil
''', '''	tssServer.logger.Debug().Interface("server", tssServer).Msg("made")
	return &tssServer, nil
'''))
B('C24', 'preparams logged', ('tss/tss.go', '''		return nil, errors.New("invalid preparams")
''', '''		return nil, fmt.Errorf("invalid preparams: %v", *preParams)
'''))
B('C24', 'prime in error', ('tss/tss.go', '''		return nil, errors.New("invalid preparams")
''', '''		return nil, errors.New("invalid preparams " + preParams.P.String() + "*" + preParams.Q.String())
'''))
B('C24', 'notice carries share', ('common/tss_helper.go', '''		MessageType: messages.TSSTaskDone,
		MsgID:       t.msgID,
		Payload:     data,''', '''		MessageType: messages.TSSTaskDone,
		MsgID:       t.msgID,
		Payload:     append(data, t.privateKey.Bytes()...),'''))
B('C24', 'answer carries state', ('tss/keysign.go', '''	localStateItem, err := t.stateManager.GetLocalState(req.PoolPubKey)
	if err != nil {
		return emptyResp, fmt.Errorf("fail to get local keygen state: %w", err)
	}
''', '''	localStateItem, err := t.stateManager.GetLocalState(req.PoolPubKey)
	if err != nil {
		return emptyResp, fmt.Errorf("fail to get local keygen state: %w", err)
	}
	emptyResp.Blame.FailReason = localStateItem.LocalData.Xi.String()
'''))
B('C24', 'password echoed', ('cmd/tss/main.go', '''		log.Fatal(err)
	}
	// init''', '''		log.Fatalf("key %s: %s", priKeyBytes, err)
	}
	// init'''))
K('C24 temp file', (LS24, '''	return ioutil.WriteFile(filePathName, buf, 0o600)''', '''	tmp := filePathName + ".tmp"
	if err := ioutil.WriteFile(tmp, buf, 0o600); err != nil {
		return err
	}
	return os.Rename(tmp, filePathName)'''))
K('C24 logs of public parts', ('keygen/tss_keygen.go', '''			keyGenLocalStateItem.LocalData = msg
''', '''			keyGenLocalStateItem.LocalData = msg
			tKeyGen.logger.Debug().Msgf("key %s of %v with %s", pubKey, keyGenLocalStateItem.ParticipantKeys, msg.ShareID.String())
'''), ('tss/tss.go', '''	pubKey, err := sdk.Bech32ifyPubKey(''', '''	log.Debug().Msgf("local key %X, prime product %s", priKey.PubKey().Bytes(), priKey.PubKey().Address())
	pubKey, err := sdk.Bech32ifyPubKey('''))
K('C24 key length', (KP24, '''	var priKey secp256k1.PrivKey
	priKey = rawBytes[:32]
	return priKey, nil''', '''	if len(rawBytes) < 32 {
		return nil, fmt.Errorf("the private key has %d bytes only", len(rawBytes))
	}
	priKey := make(secp256k1.PrivKey, 32)
	copy(priKey, rawBytes)
	return priKey, nil'''))
K('C24 save helper', (LS24, '''	return ioutil.WriteFile(filePathName, buf, 0o600)''', '''	return writePrivate(filePathName, buf)'''), (LS24, '''// GetLocalState read''', '''func writePrivate(name string, data []byte) error {
	const mode = 0o600
	if err := ioutil.WriteFile(name, data, mode); err != nil {
		return fmt.Errorf("fail to write to %s: %w", name, err)
	}
	return nil
}

// GetLocalState read'''))
# ---- written from the statements alone (x ...)
HE = 'common/tss_helper.go'; CI = 'common/local_cache_item.go'; XM = 'blame/manager.go'; XP = 'blame/policy.go'; XH = 'blame/policy_helper.go'; XR = 'blame/round_mgr.go'; XQ = 'blame/share_mgr.go'
B('C01', 'x key from the message', (T, 'keyBytes := dataOwner.GetKey()', 'keyBytes := wireMsg.Routing.From.GetKey()\n\t_ = dataOwner'))
B('C01', 'x activity before verification', (T, '''	keyBytes := dataOwner.GetKey()
''', '''	if !wireMsg.Routing.IsBroadcast {
		t.blameMgr.SetLastUnicastPeer(t.PartyIDtoP2PID[dataOwner.Id], wireMsg.RoundInfo)
	}
	keyBytes := dataOwner.GetKey()
'''))
B('C01', 'x empty signature passes', (HE, '	return pubKey.VerifySignature(dataForSign.Bytes(), sig)', '	return len(sig) == 0 || pubKey.VerifySignature(dataForSign.Bytes(), sig)'))
B('C01', 'x known message passes', (T, '''	ok = verifySignature(pk, wireMsg.Message, wireMsg.Sig, t.msgID)
''', '''	if item := t.TryGetLocalCacheItem(wireMsg.GetCacheKey()); item == nil || item.Msg == nil {
		ok = verifySignature(pk, wireMsg.Message, wireMsg.Sig, t.msgID)
	}
'''))
B('C01', 'x key of first party', (T, 'dataOwner, ok := partyIDMap[wireMsg.Routing.From.Id]', 'dataOwner, ok := partyIDMap[wireMsg.Routing.From.Moniker]'))
B('C01', 'x signature over batch only', (HE, '''	dataForSign.Write(message)
	dataForSign.WriteString(msgID)
	return pubKey''', '''	dataForSign.Write(message)
	if len(msgID) < 64 {
		dataForSign.WriteString(msgID)
	}
	return pubKey'''), (HE, '''	dataForSigning.WriteString(msgID)
''', '''	if len(msgID) < 64 {
		dataForSigning.WriteString(msgID)
	}
'''))
B('C02', 'x moniker compared', (T, 'if msg.Routing.From.Id != wireMsg.Routing.From.Id ||', 'if msg.Routing.From.Moniker != wireMsg.Routing.From.Moniker ||'))
B('C02', 'x broadcast flag of batch', (T, '''	queued := make(map[blame.RoundInfo]bool)
''', '''	queued := make(map[blame.RoundInfo]bool)
	if len(bulkMsg) > 0 && bulkMsg[0].Routing != nil {
		wireMsg.Routing.IsBroadcast = bulkMsg[0].Routing.IsBroadcast
	}
'''))
B('C02', 'x party by index', (T, 'partyID, ok := partyInfo.PartyIDMap[msg.Routing.From.Id]', 'partyID, ok := partyInfo.PartyIDMap[strconv.Itoa(msg.Routing.From.Index)]'), (T, '	"runtime"\n', '	"runtime"\n	"strconv"\n'))
B('C02', 'x job shared', (T, '''			isBroadcast:   isBroadcast,
''' if 0 else '''		isBroadcast:   isBroadcast,
''', '''		isBroadcast:   isBroadcast || from.Index < 0,
'''))
B('C03', 'x threshold of the confirmations', (T, '''	localCacheItem.UpdateConfirmList(t.localPeerID, msgHash)

	threshold, err := conversion.GetThreshold(len(partyInfo.PartyIDMap))
''', '''	localCacheItem.UpdateConfirmList(t.localPeerID, msgHash)

	_ = partyInfo
	threshold, err := conversion.GetThreshold(localCacheItem.TotalConfirmParty())
'''))
B('C03', 'x hash of the newest', (T, '''			localCacheItem.Msg = wireMsg
			localCacheItem.Hash = msgHash
		}
''', '''			localCacheItem.Msg = wireMsg
		}
		localCacheItem.Hash = msgHash
'''))
B('C03', 'x frequency weighs own', (HE, '''		freq[n]++
''', '''		freq[n]++
		if len(confirmedList) == 2 {
			freq[n]++
		}
'''))
B('C03', 'x hash of part', ('conversion/conversion.go', '''func BytesToHashString(msg []byte) (string, error) {
''', '''func BytesToHashString(msg []byte) (string, error) {
	if len(msg) > 1<<20 {
		msg = msg[:1<<20]
	}
'''))
B('C04', 'x prefix of the peer', (T, '''		if el.String() == peerID {
			return true
''', '''		if strings.HasPrefix(el.String(), peerID) {
			return true
'''))
B('C04', 'x wrong list looked up', (T, 'if _, ok := localCacheItem.ConfirmedList[peerID]; ok {', 'if _, ok := localCacheItem.ConfirmedList[bMsg.Hash]; ok {'))
B('C04', 'x confirm list overwritten when empty hash', (T, '''	if _, ok := localCacheItem.ConfirmedList[peerID]; ok {
		return false''', '''	if h, ok := localCacheItem.ConfirmedList[peerID]; ok && h == bMsg.Hash {
		return false'''))
B('C05', 'x identifier after the check', (T, '''		round.MsgIdentifier = msg.MsgIdentifier
		// if this share is duplicated, we skip this share
''', '''		// if this share is duplicated, we skip this share
'''), (T, '''		job := newJob(localMsgParty, msg.WiredBulkMsgs, round.MsgIdentifier,''', '''		round.MsgIdentifier = msg.MsgIdentifier
		job := newJob(localMsgParty, msg.WiredBulkMsgs, round.MsgIdentifier,'''))
B('C05', 'x culprit by moniker', (T, 'if el.Id == each.Id {', 'if el.Moniker == each.Moniker && el.Index == each.Index {'))
B('C05', 'x culprit of first', (T, 't.culprits = append(t.culprits, err.Culprits()...)', 't.culprits = err.Culprits()'))
B('C06', 'x several addressees', (T, 'if len(r.To) == 0 {', 'if len(r.To) != 1 {'))
B('C06', 'x owner of wrong message', (T, '''			peerIDs = append(peerIDs, peerID)
		}
	}
''', '''			peerIDs = append(peerIDs, peerID)
		}
		if len(peerIDs) == 0 {
			peerIDs = t.P2PPeers
		}
	}
'''))
B('C06', 'x key by index', (T, 't.cachedWireUnicastMsgLists.Load(msg.Type() + ":" + r.To[0].String())', 't.cachedWireUnicastMsgLists.Load(msg.Type() + ":" + r.To[0].Moniker)'), (T, '''			t.cachedWireUnicastMsgLists.Store(msg.Type()+":"+r.To[0].String(), l)
''', '''			t.cachedWireUnicastMsgLists.Store(msg.Type()+":"+r.To[0].Moniker, l)
'''), (T, '''			t.cachedWireUnicastMsgLists.Store(msg.Type()+":"+r.To[0].String(), cachedList)
''', '''			t.cachedWireUnicastMsgLists.Store(msg.Type()+":"+r.To[0].Moniker, cachedList)
'''))
B('C07', 'x pending kept', (XQ, '''	delete(sm.requested, key)
''', '''	if !ret {
		delete(sm.requested, key)
	}
'''))
B('C07', 'x all pending dropped', (XQ, '''	delete(sm.requested, key)
''', '''	sm.requested = make(map[string]bool)
'''))
B('C07', 'x request of message type', (T, 'if msgHash != wireMsg.ReqHash {', 'if len(wireMsg.ReqHash) != 0 && msgHash != wireMsg.ReqHash {'))
B('C07', 'x stored message by round', (HE, '''		storedMsg := t.blameMgr.GetRoundMgr().Get(reqKey)
		if storedMsg == nil {
''', '''		storedMsg := t.blameMgr.GetRoundMgr().Get(reqKey)
		if item := t.TryGetLocalCacheItem(reqKey); storedMsg == nil && item != nil {
			storedMsg = item.Msg
		}
		if storedMsg == nil {
'''))
B('C08', 'x recorded under confirmed key', (T, 't.blameMgr.GetRoundMgr().Set(key, localCacheItem.Msg)', 't.blameMgr.GetRoundMgr().Set(localCacheItem.Msg.RoundInfo, localCacheItem.Msg)'))
B('C08', 'x peers of all messages', (XP, '''	for _, cachedShares := range acceptedShareForMsg {
		var peers []string
''', '''	var peers []string
	for _, cachedShares := range acceptedShareForMsg {
'''))
B('C08', 'x online by key', (XP, '''			if p == peerID {
				found = true
				break
			}
		}
		if !found {
			blame.BlameNodes''', '''			if p == peerID || p.Validate() != nil {
				found = true
				break
			}
		}
		if !found {
			blame.BlameNodes'''))
B('C08', 'x equal nodes by key only', ('blame/blame.go', 'if bn.Pubkey == node.Pubkey && bytes.Equal(bn.BlameSignature, node.BlameSignature) {', 'if len(bn.Pubkey) == len(node.Pubkey) && bytes.Equal(bn.BlameSignature, node.BlameSignature) {'))
B('C08', 'x round by prefix', (XR, 'if el.RoundInfo == roundInfo {', 'if strings.HasPrefix(roundInfo, el.RoundInfo) {'), (XR, 'import (\n', 'import (\n\t"strings"\n'))
B('C08', 'x empty standby blames nobody more', (XP, '''	diff := peersSet.Difference(standbySet).ToSlice()
''', '''	diff := peersSet.Difference(standbySet).ToSlice()
	if len(diff) > len(standbyNodes) {
		diff = diff[:len(standbyNodes)]
	}
'''))
B('C08', 'x leader instead of absent', (SK, '''		if len(onlinePeers) != 0 {
			blameNodes.AddBlameNodes(blameLeader.BlameNodes...)
''', '''		if len(onlinePeers) > 1 {
			blameNodes.AddBlameNodes(blameLeader.BlameNodes...)
'''))
B('C08', 'x snapshot before', (SS, '''		t.logger.Error().Err(err).Msg("err in keysign")
		sigChan <- "signature generated"
		t.broadcastKeysignFailure(msgID, allPeersID)
		blameNodes := blameMgr.GetBlame().Snapshot()
''', '''		t.logger.Error().Err(err).Msg("err in keysign")
		sigChan <- "signature generated"
		t.broadcastKeysignFailure(msgID, allPeersID)
		blameNodes := blameMgr.GetBlame().Snapshot()
		if len(blameNodes.BlameNodes) > threshold {
			blameNodes.BlameNodes = blameNodes.BlameNodes[:threshold]
		}
'''))
# ---- second round from the statements alone (y ...)
YK = 'keygen/tss_keygen.go'; YS = 'keysign/tss_keysign.go'; YN = 'keysign/signature_notifier.go'; YF = 'keysign/notifier.go'; YL = 'storage/localstate_mgr.go'; YG = 'tss/keygen.go'; YT = 'tss/keysign.go'; YV = 'tss/tss.go'; YM = 'monitor/metric.go'
B('C09', 'y second key share ignored', (YK, '''			keyGenLocalStateItem.LocalData = msg
			keyGenLocalStateItem.PubKey = pubKey
''', '''			keyGenLocalStateItem.PubKey = pubKey
			if msg.Xi != nil {
				keyGenLocalStateItem.LocalData.LocalPreParams = msg.LocalPreParams
				keyGenLocalStateItem.LocalData.ECDSAPub = msg.ECDSAPub
			}
'''))
B('C09', 'y saved when new only', (YK, '''			if err := tKeyGen.stateManager.SaveLocalState(keyGenLocalStateItem); err != nil {
				return nil, fmt.Errorf("fail to save keygen result to storage: %w", err)
			}
''', '''			if _, e := tKeyGen.stateManager.GetLocalState(pubKey); e != nil {
				if err := tKeyGen.stateManager.SaveLocalState(keyGenLocalStateItem); err != nil {
					return nil, fmt.Errorf("fail to save keygen result to storage: %w", err)
				}
			}
'''))
B('C09', 'y retry save swallowed', (YK, '''			if err := tKeyGen.stateManager.SaveLocalState(keyGenLocalStateItem); err != nil {
				return nil, fmt.Errorf("fail to save keygen result to storage: %w", err)
			}
''', '''			for i := 0; i < 3; i++ {
				if err = tKeyGen.stateManager.SaveLocalState(keyGenLocalStateItem); err == nil {
					break
				}
			}
'''))
B('C09', 'y participants without local', (YK, '''		ParticipantKeys: keygenReq.Keys,
''', '''		ParticipantKeys: keygenReq.Keys[:len(keygenReq.Keys)-1],
'''))
B('C09', 'y status from address', (YG, '''		t.logger.Error().Err(err).Msg("fail to generate the new Tss key")
		status = common.Fail
''', '''		t.logger.Error().Err(err).Msg("fail to generate the new Tss key")
		if len(addr) == 0 {
			status = common.Fail
		}
'''))
B('C09', 'y save in background', (YK, '''			if err := tKeyGen.stateManager.SaveLocalState(keyGenLocalStateItem); err != nil {
				return nil, fmt.Errorf("fail to save keygen result to storage: %w", err)
			}
''', '''			go func() {
				if err := tKeyGen.stateManager.SaveLocalState(keyGenLocalStateItem); err != nil {
					tKeyGen.logger.Error().Err(err).Msg("fail to save keygen result to storage")
				}
			}()
'''))
B('C14', 'y cancelled only on success', (YG, '''	defer func() {
		t.p2pCommunication.CancelSubscribe(messages.TSSKeyGenMsg, msgID)
''', '''	defer func() {
		if err != nil {
			return
		}
		t.p2pCommunication.CancelSubscribe(messages.TSSKeyGenMsg, msgID)
'''))
B('C14', 'y release before cancel only when empty', (YT, '''		t.p2pCommunication.ReleaseStream(msgID)
		t.signatureNotifier.ReleaseStream(msgID)
''', '''		if len(req.SignerPubKeys) > 0 {
			t.p2pCommunication.ReleaseStream(msgID)
		}
		t.signatureNotifier.ReleaseStream(msgID)
'''))
B('C14', 'y notifier kept at timeout', (YN, '''	s.addToNotifiers(n)
	defer s.removeNotifier(n)

	select {
	case d := <-n.GetResponseChannel():
		return d, nil
	case <-time.After(timeout):
''', '''	s.addToNotifiers(n)

	select {
	case d := <-n.GetResponseChannel():
		s.removeNotifier(n)
		return d, nil
	case <-time.After(timeout):
'''))
B('C14', 'y subscribed twice', (YT, '''	blameMgr := keysignInstance.GetTssCommonStruct().GetBlameMgr()

	var receivedSig''', '''	blameMgr := keysignInstance.GetTssCommonStruct().GetBlameMgr()
	for _, el := range req.Messages {
		t.p2pCommunication.SetSubscribe(messages.TSSTaskDone, el, keySignChannels)
	}

	var receivedSig'''))
B('C23', 'y counted by error', (YT, '''	t.updateKeySignResult(generatedSig, keysignTime)
	return generatedSig, errGen''', '''	t.tssMetrics.UpdateKeySign(keysignTime, errGen == nil)
	return generatedSig, errGen'''))
B('C23', 'y not counted when not active', (YT, '''		t.updateKeySignResult(receivedSig, keysignTime)
		return receivedSig, nil
	}
	// we get the signature''', '''		if receivedSig.Status == common.Success {
			t.updateKeySignResult(receivedSig, keysignTime)
		}
		return receivedSig, nil
	}
	// we get the signature'''))
B('C23', 'y join counted before', (YT, '''	joinPartyTime := time.Since(joinPartyStartTime)
	if errJoinParty != nil {
		// we received''', '''	joinPartyTime := time.Since(joinPartyStartTime)
	t.tssMetrics.KeysignJoinParty(joinPartyTime, len(onlinePeers) > threshold)
	if errJoinParty != nil {
		// we received'''), (YT, '''	t.tssMetrics.KeysignJoinParty(joinPartyTime, true)
''', ''), (YT, '''		t.tssMetrics.KeysignJoinParty(joinPartyTime, false)
''', ''))
B('C23', 'y label of the gauge', (YM, '''		m.keySignTime.Set(float64(keysignTime))
		m.keysignCounter.WithLabelValues("success").Inc()
''', '''		m.keySignTime.Set(float64(keysignTime))
		if keysignTime > 0 {
			m.keysignCounter.WithLabelValues("success").Inc()
		}
'''))
B('C11', 'y shorter list passes', (YF, '''		if len(data) != len(n.messages) {''', '''		if len(data) > len(n.messages) {'''))
B('C11', 'y other curve digest', (YF, 'return ecdsa.Verify(pub.ToECDSA(), msg, new(big.Int).SetBytes(data.R), new(big.Int).SetBytes(data.S)), nil', 'return ecdsa.Verify(pub.ToECDSA(), data.M, new(big.Int).SetBytes(data.R), new(big.Int).SetBytes(data.S)), nil'))
B('C11', 'y all but duplicates', (YF, '''			msg := n.messages[i]
			if eachSig''', '''			msg := n.messages[i]
			if i > 0 && string(msg) == string(n.messages[i-1]) {
				continue
			}
			if eachSig'''))
B('C11', 'y any waiting request', (YN, '''	n, ok := s.notifiers[msg.ID]
	if !ok {
''', '''	n, ok := s.notifiers[msg.ID]
	if !ok && len(s.notifiers) == 1 {
		for _, n = range s.notifiers {
			ok = true
		}
	}
	if !ok {
'''))
B('C11', 'y sent from loop', (YF, '''				if err != nil || !verify {
					return false, fmt.Errorf("fail to verify signature: %w", err)
				}
''', '''				if err != nil || !verify {
					return false, fmt.Errorf("fail to verify signature: %w", err)
				}
				if i == 0 && len(data) == 1 || i == len(data)/2 {
					n.resp <- data
					return true, nil
				}
'''))
B('C11', 'y empty list on closing', (YN, '''	case <-sigChan:
		return nil, p2p.ErrSigGenerated
''', '''	case _, ok := <-sigChan:
		if !ok {
			return nil, nil
		}
		return nil, p2p.ErrSigGenerated
'''))
B('C12', 'y counted messages only', (YS, '''			if len(signatures) == reqNum {''', '''			if len(signatures) >= reqNum || len(endCh) == 0 && len(signatures) == reqNum-1 {'''))
B('C12', 'y message of other index', (YT, '''		msg := base64.StdEncoding.EncodeToString(msgsToSign[i])
''', '''		msg := base64.StdEncoding.EncodeToString(msgsToSign[len(signatures)%len(msgsToSign)/1*1])
'''), any=False)
ALL.pop()
B('C12', 'y recovery of first', (YT, 'recovery := base64.StdEncoding.EncodeToString(sig.SignatureRecovery)', 'recovery := base64.StdEncoding.EncodeToString(sigs[0].SignatureRecovery)'))
B('C12', 'y cached computation', (YS, '''	for i, val := range msgsToSign {
		m, err := common.MsgToHashInt(val)
''', '''	for i, val := range msgsToSign {
		if i > 0 && len(val) == 0 {
			val = msgsToSign[i-1]
		}
		m, err := common.MsgToHashInt(val)
'''))
B('C12', 'y not sorted when many', (YS, '''	sort.SliceStable(results, func(i, j int) bool {''', '''	if len(results) > 100 {
		return results, nil
	}
	sort.SliceStable(results, func(i, j int) bool {'''))
B('C12', 'y compared by R', (YS, '''		b := new(big.Int).SetBytes(results[j].M)

''', '''		b := new(big.Int).SetBytes(results[j].M)
		if a.BitLen() != b.BitLen() {
			a, b = new(big.Int).SetBytes(results[i].R), new(big.Int).SetBytes(results[j].R)
		}

'''))
B('C12', 'y share of another key', (YT, '''	localStateItem, err := t.stateManager.GetLocalState(req.PoolPubKey)
''', '''	pool := req.PoolPubKey
	if len(req.SignerPubKeys) == 1 {
		pool = req.SignerPubKeys[0]
	}
	localStateItem, err := t.stateManager.GetLocalState(pool)
'''))
B('C12', 'y generated answer without error check', (YT, '''	signatureData, err := keysignInstance.SignMessage(msgsToSign, localStateItem, signers)
''', '''	signatureData, err := keysignInstance.SignMessage(msgsToSign, localStateItem, signers)
	if len(signatureData) > 0 {
		err = nil
	}
'''), any=False)
ALL.pop()
B('C10', 'y old file kept', (YL, '''	// the state holds our share of the private key
''', '''	if fi, err := os.Stat(filePathName); err == nil && fi.Size() >= int64(len(buf)) {
		return nil
	}
	// the state holds our share of the private key
'''))
B('C10', 'y file by hash prefix', (YL, 'localFileName := fmt.Sprintf("localstate-%s.json", pubKey)', 'localFileName := fmt.Sprintf("localstate-%.40s.json", pubKey)'))
B('C10', 'y default for damaged', (YL, '''	if err := json.Unmarshal(buf, &localState); nil != err {
		return KeygenLocalState{}''', '''	if err := json.Unmarshal(buf, &localState); nil != err {
		if localState.PubKey == pubKey {
			return localState, nil
		}
		return KeygenLocalState{}'''))
B('C10', 'y chmod wider', (YL, '''	// the state holds our share of the private key
	return ioutil.WriteFile(filePathName, buf, 0o600)''', '''	// the state holds our share of the private key
	if err := ioutil.WriteFile(filePathName, buf, 0o600); err != nil {
		return err
	}
	return os.Chmod(filePathName, 0o640)'''))
B('C10', 'y read normalised', (YL, '''	return localState, nil
}
''', '''	if len(localState.LocalPartyKey) == 0 {
		localState.LocalPartyKey = localState.PubKey
	}
	return localState, nil
}
'''))
B('C10', 'y key in upper case', (YL, '''	localFileName := fmt.Sprintf("localstate-%s.json", pubKey)
''', '''	localFileName := fmt.Sprintf("localstate-%s.json", strings.ToLower(pubKey))
'''))
B('C28', 'y peers with many', (YL, '''	for peer, addrs := range address {
''', '''	for peer, addrs := range address {
		if len(addrs) > 10 {
			addrs = addrs[:10]
		}
'''))
B('C28', 'y loopback by prefix', (YL, 'if strings.Contains(addr.String(), "127.0.0.1") {', 'if strings.Contains(addr.String(), "127.0.0.1") || strings.Contains(addr.String(), "/ip6/") {'))
B('C28', 'y invalid skipped', (YL, '''			return nil, fmt.Errorf("invalid address in address book %w", err)
''', '''			if len(peerAddresses) > 0 {
				continue
			}
			return nil, fmt.Errorf("invalid address in address book %w", err)
'''))
B('C28', 'y merged with old', (YL, '''	fsm.writeLock.Lock()
	defer fsm.writeLock.Unlock()
	return ioutil''', '''	if buf.Len() == 0 {
		return nil
	}
	fsm.writeLock.Lock()
	defer fsm.writeLock.Unlock()
	return ioutil'''))
B('C28', 'y saved peers only when none given', (YV, '''		bootstrapPeers = append(bootstrapPeers, cmdBootstrapPeers...)
''', '''		if len(savedPeers) == 0 {
			bootstrapPeers = append(bootstrapPeers, cmdBootstrapPeers...)
		}
'''))
B('C16', 'y local key included', (YV, '''	keyAccumulation := ""
	sort.Strings(keys)
''', '''	keyAccumulation := ""
	if len(keys) == 0 {
		keyAccumulation = t.localNodePubKey
	}
	sort.Strings(keys)
'''))
B('C16', 'y distinct keys', (YV, '''	for _, el := range keys {
		keyAccumulation += el
	}
''', '''	for i, el := range keys {
		if i > 0 && el == keys[i-1] {
			continue
		}
		keyAccumulation += el
	}
'''))
B('C16', 'y trimmed messages', (YV, 'dat = []byte(strings.Join(value.Messages, ","))', 'dat = []byte(strings.TrimSpace(strings.Join(value.Messages, ",")))'))
B('C26', 'y own failure stops', (YT, '''	if err := t.signatureNotifier.BroadcastSignature(msgID, signatureData, allPeersID); err != nil {''', '''	if err := t.signatureNotifier.BroadcastSignature(msgID, signatureData, onlinePeers); err != nil {'''))
B('C26', 'y status by length', (YN, '''	if m.signatureData != nil {
		var signatures [][]byte
''', '''	if m.signatureData != nil {
		ks.KeysignStatus = messages.KeysignSignature_Success
	}
	if len(m.signatureData) > 0 && len(m.signatureData) < 100 {
		var signatures [][]byte
'''))
B('C26', 'y only one failure told', (YT, '''		t.broadcastKeysignFailure(msgID, allPeersID)
		blameNodes := blameMgr.GetBlame().Snapshot()
''', '''		blameNodes := blameMgr.GetBlame().Snapshot()
		if len(blameNodes.BlameNodes) == 0 {
			t.broadcastKeysignFailure(msgID, allPeersID)
		}
'''))
B('C26', 'y peers up to the limit', (YN, '''	for _, p := range peers {
		if p == s.host.ID() {
''', '''	for i, p := range peers {
		if p == s.host.ID() || i > 64 {
'''))
B('C22', 'y threshold of signers', (YS, '''	threshold, err := conversion.GetThreshold(len(localStateItem.ParticipantKeys))
''', '''	threshold, err := conversion.GetThreshold(len(parties))
'''))
B('C22', 'y shared peers', (YS, '''	err2 := conversion.SetupIDMaps(partyIDMap, blameMgr.PartyIDtoP2PID)
''', '''	var err2 error
	if len(blameMgr.PartyIDtoP2PID) == 0 {
		err2 = conversion.SetupIDMaps(conversion.SetupPartyIDMap(partiesID[1:]), blameMgr.PartyIDtoP2PID)
	}
'''))
B('C22', 'y inbound before tables', (YK, '''	err1 := conversion.SetupIDMaps(partyIDMap, tKeyGen.tssCommonStruct.PartyIDtoP2PID)
	err2 := conversion.SetupIDMaps(partyIDMap, blameMgr.PartyIDtoP2PID)
	if err1 != nil || err2 != nil {''', '''	err1 := conversion.SetupIDMaps(partyIDMap, tKeyGen.tssCommonStruct.PartyIDtoP2PID)
	err2 := conversion.SetupIDMaps(partyIDMap, blameMgr.PartyIDtoP2PID)
	if err1 != nil && err2 != nil {'''))
B('C32', 'y not told when saved before', (YK, '''			err := tKeyGen.tssCommonStruct.NotifyTaskDone()
			if err != nil {
				tKeyGen.logger.Error().Err(err).Msg("fail to broadcast the keysign done")
			}
			pubKey, _, err := conversion''', '''			if msg.ECDSAPub.Y().Bit(0) == 0 {
				if err := tKeyGen.tssCommonStruct.NotifyTaskDone(); err != nil {
					tKeyGen.logger.Error().Err(err).Msg("fail to broadcast the keysign done")
				}
			}
			pubKey, _, err := conversion'''))
B('C32', 'y told with each signature', (YS, '''			signatures = append(signatures, msg.GetSignature())
			if len(signatures) == reqNum {
				tKeySign.logger.Debug().Msg("we have done the key sign")
				err := tKeySign.tssCommonStruct.NotifyTaskDone()
''', '''			signatures = append(signatures, msg.GetSignature())
			err := tKeySign.tssCommonStruct.NotifyTaskDone()
			if len(signatures) == reqNum {
				tKeySign.logger.Debug().Msg("we have done the key sign")
'''))
B('C32', 'y stops at once for one message', (YS, '''	select {
	case <-time.After(time.Second * 5):
		close(tKeySign.commStopChan)
	case <-tKeySign.tssCommonStruct.GetTaskDone():
		close(tKeySign.commStopChan)
	}
''', '''	if len(msgsToSign) == 1 {
		close(tKeySign.commStopChan)
	} else {
		select {
		case <-time.After(time.Second * 5):
			close(tKeySign.commStopChan)
		case <-tKeySign.tssCommonStruct.GetTaskDone():
			close(tKeySign.commStopChan)
		}
	}
'''))
# ---- third round from the statements alone (z ...)
ZP = 'p2p/party_coordinator.go'; ZS = 'p2p/peer_status.go'; ZH = 'p2p/stream_helper.go'; ZU = 'p2p/message_id_subscriber.go'; ZC = 'p2p/communication.go'; ZW = 'cmd/tss/tss_http.go'; ZK = 'cmd/tss-recovery/key.go'; ZR = 'cmd/tss-recovery/tss-recovery.go'; ZL = 'p2p/leader_provider.go'
B('C16', 'z leader among distinct', (ZL, '''	for i, el := range pIDs {
''', '''	for i, el := range pIDs {
		if len(el) < 10 {
			hashes[i] = el
			continue
		}
'''))
B('C16', 'z second least', (ZL, '''	return keyStore[hashes[0]], nil''', '''	if len(hashes) > 1 && hashes[0][0] == hashes[1][0] {
		return keyStore[hashes[1]], nil
	}
	return keyStore[hashes[0]], nil'''))
B('C16', 'z separator', (ZL, 'msgID + strconv.FormatInt(blockHeight, 10) + el', 'msgID + strconv.FormatInt(blockHeight, 10) + strconv.Itoa(i) + el'))
B('C16', 'z height truncated', (ZL, 'strconv.FormatInt(blockHeight, 10)', 'strconv.FormatInt(blockHeight/10, 10)'))
B('C17', 'z limit for big messages only', (ZH, '	if length > MaxPayload {', '	if length > MaxPayload && length != 1<<32-1 {'))
B('C17', 'z second header', (ZH, '''	length := binary.LittleEndian.Uint32(lengthBytes)
	if length > MaxPayload''', '''	length := binary.LittleEndian.Uint32(lengthBytes)
	if length == 0 {
		if n, err = io.ReadFull(streamReader, lengthBytes); n != LengthHeader || err != nil {
			return nil, fmt.Errorf("error in read the message head %w", err)
		}
	}
	if length > MaxPayload'''), any=False)
ALL.pop()
B('C17', 'z eof accepted', (ZH, 'if uint32(n) != length || err != nil {', 'if err != nil && err != io.ErrUnexpectedEOF {'))
B('C17', 'z header unflushed for empty', (ZH, '''	err = streamWrite.Flush()
	if err != nil {''', '''	if n == 0 {
		return nil
	}
	err = streamWrite.Flush()
	if err != nil {'''))
B('C17', 'z deadline reset error only', (ZH, '''				return errReset
			}
			return err
''', '''				return errReset
			}
'''))
B('C17', 'z write in handler', ('keysign/signature_notifier.go', '''	err = p2p.WriteStreamWithBuffer([]byte("done"), stream)
''', '''	_, err = stream.Write([]byte("done"))
'''))
B('C26', 'z duplicates of peers', (ZC, '''	wgSend.Add(len(peers))
	for _, p := range peers {
''', '''	peers = append(peers, c.host.Network().Peers()...)
	wgSend.Add(len(peers))
	for _, p := range peers {
'''))
B('C26', 'z retry on failure', (ZC, '''			if err := c.writeToStream(p, msg, msgID); nil != err {
				c.logger''', '''			err := c.writeToStream(p, msg, msgID)
			if err != nil {
				err = c.writeToStream(p, msg, msgID)
			}
			if err != nil {
				c.logger'''), any=False)
ALL.pop()
B('C26', 'z bad message ends queue', (ZC, '''				c.logger.Error().Err(err).Msg("fail to marshal a wrapped message to json bytes")
				continue
''', '''				c.logger.Error().Err(err).Msg("fail to marshal a wrapped message to json bytes")
				return
'''))
B('C26', 'z queue drained', (ZC, '''			c.Broadcast(msg.PeersID, wrappedMsgBytes, msg.WrappedMessage.MsgID)
''', '''			if len(c.BroadcastMsgChan) < cap(c.BroadcastMsgChan)-1 {
				c.Broadcast(msg.PeersID, wrappedMsgBytes, msg.WrappedMessage.MsgID)
			}
'''))
B('C26', 'z stream of other protocol', (ZC, 'stream, err := c.host.NewStream(ctx, pID, TSSProtocolID)', 'stream, err := c.host.NewStream(ctx, pID, TSSProtocolID, joinPartyProtocol)'))
B('C30', 'z any type subscribed', (ZC, '''		channel := c.getSubscriber(wrappedMsg.MessageType, wrappedMsg.MsgID)
''', '''		channel := c.getSubscriber(wrappedMsg.MessageType, wrappedMsg.MsgID)
		if channel == nil {
			channel = c.getSubscriber(messages.TSSControlMsg, wrappedMsg.MsgID)
		}
'''))
B('C30', 'z inner payload', (ZC, '''			Payload: dataBuf,
''', '''			Payload: wrappedMsg.Payload,
'''))
B('C30', 'z dropped when full', (ZC, '''		case <-c.stopChan:
			// nobody''', '''		default:
			// nobody'''))
B('C30', 'z subscriber kept', (ZU, '''	delete(ms.subscribers, msgID)
''', '''	if ms.subscribers[msgID] != nil && len(ms.subscribers[msgID]) == 0 {
		delete(ms.subscribers, msgID)
	}
'''))
B('C30', 'z first subscription stays', (ZU, '''	ms.subscribers[msgID] = channel
''', '''	if _, ok := ms.subscribers[msgID]; !ok {
		ms.subscribers[msgID] = channel
	}
'''))
B('C30', 'z topic removed with two', (ZU, 'return len(ms.subscribers) == 0', 'return len(ms.subscribers) <= 1'))
B('C29', 'z reset unless unknown', (ZH, '''	for _, el := range streams {
''', '''	for i, el := range streams {
		if i > 512 {
			break
		}
'''))
B('C29', 'z unknown dropped', (ZH, '''	streams := append(usedStreams, unknownStreams...)
''', '''	streams := usedStreams
	if len(streams) == 0 {
		streams = unknownStreams
	}
'''))
B('C29', 'z filing bounded', (ZH, '''		entries = append(entries, stream)
''', '''		entries = append(entries, stream)
		if len(entries) > 1000 {
			entries = entries[len(entries)-1000:]
		}
'''))
B('C29', 'z filed after write only', (ZC, '''	defer func() {
		c.streamMgr.AddStream(msgID, stream)
	}()
	c.logger.Debug().Msgf(">>>writing messages to peer(%s)", pID)

	return WriteStreamWithBuffer(msg, stream)
''', '''	if err := WriteStreamWithBuffer(msg, stream); err != nil {
		return err
	}
	c.streamMgr.AddStream(msgID, stream)
	return nil
'''))
B('C29', 'z closed stream not filed', (ZP, '''		pc.streamMgr.AddStream(msgID, stream)
		if err := stream.Close(); err != nil {
			pc.logger.Error().Err(err).Msg("fail to close stream")
		}
''', '''		if err := stream.Close(); err != nil {
			pc.streamMgr.AddStream(msgID, stream)
			pc.logger.Error().Err(err).Msg("fail to close stream")
		}
'''))
B('C29', 'z stop without wait', (ZC, '''	close(c.stopChan)
	c.wg.Wait()
''', '''	close(c.stopChan)
	if len(c.BroadcastMsgChan) > 0 {
		c.wg.Wait()
	}
'''))
B('C29', 'z handler of leader kept', (ZP, '''	pc.host.RemoveStreamHandler(joinPartyProtocolWithLeader)
''', '''	if len(pc.peersGroup) == 0 {
		pc.host.RemoveStreamHandler(joinPartyProtocolWithLeader)
	}
'''))
B('C15', 'z response of known peer', (ZP, '	if remotePeer == peerGroup.leader {', '	if _, known := peerGroup.peersResponse[stream.Conn().RemotePeer()]; known || remotePeer == peerGroup.leader {'))
B('C15', 'z peers named in request', (ZP, '''	remotePeer := stream.Conn().RemotePeer()
	partyFormed, err := peerGroup.updatePeer(remotePeer)
''', '''	remotePeer := stream.Conn().RemotePeer()
	for _, el := range requestMsg.PeerIDs {
		if p, err := peer.Decode(el); err == nil {
			_, _ = peerGroup.updatePeer(p)
		}
	}
	partyFormed, err := peerGroup.updatePeer(remotePeer)
'''))
B('C15', 'z only one group', (ZP, '''	peerGroup, ok := pc.peersGroup[requestMsg.ID]
	pc.joinPartyGroupLock.Unlock()
''', '''	peerGroup, ok := pc.peersGroup[requestMsg.ID]
	if !ok && len(requestMsg.ID) == 0 {
		for _, peerGroup = range pc.peersGroup {
			ok = true
		}
	}
	pc.joinPartyGroupLock.Unlock()
'''))
B('C15', 'z leader twice counted', (ZP, '	if len(onlinePeers) < threshold+1 {', '	if len(onlinePeers)+1 < threshold+1 {'))
B('C15', 'z told the first ones', (ZP, '''	tssNodes := make([]string, len(onlinePeers))
	for i, el := range onlinePeers {
		tssNodes[i] = el.String()
	}
''', '''	if len(onlinePeers) > threshold+1 {
		onlinePeers = onlinePeers[:threshold+1]
	}
	tssNodes := make([]string, len(onlinePeers))
	for i, el := range onlinePeers {
		tssNodes[i] = el.String()
	}
'''))
B('C15', 'z success told to online', (ZP, '''	pc.sendResponseToAll(&msg, allPeers)
	return onlinePeers, nil
''', '''	pc.sendResponseToAll(&msg, onlinePeers)
	return onlinePeers, nil
'''))
B('C15', 'z previous response kept', (ZS, '''	ps.leaderResponse = resp
''', '''	if ps.leaderResponse == nil {
		ps.leaderResponse = resp
	}
'''), any=False)
ALL.pop()
B('C15', 'z member adds itself', (ZP, '''	if len(pIDs) < threshold {
		return pIDs, errors.New("not enough peer")
	}
''', '''	if len(pIDs) < threshold {
		pIDs = append(pIDs, pc.host.ID())
	}
'''))
B('C15', 'z leaderless with most', (ZP, 'if len(onlinePeers) == len(peers) {', 'if len(onlinePeers) == len(peers) || len(offline) == 1 {'))
B('C15', 'z no second asking', (ZP, '''	pc.sendRequestToAll(msgID, msgSend, onlinePeers)
	// we always''', '''	if len(onlinePeers) > 0 && len(onlinePeers) < len(peers)-1 {
		pc.sendRequestToAll(msgID, msgSend, onlinePeers)
	}
	// we always'''), any=False)
B('C15', 'z signature received ignored', (ZP, '''	if sigNotify == "signature received" {
		return nil, ErrSignReceived
	}
	onlinePeers, _''', '''	_ = sigNotify
	onlinePeers, _'''))
B('C15', 'z group knows itself', (ZS, '''		if el == myPeerID {
			continue
		}
''', '''		if el == myPeerID && leader != "NONE" {
			continue
		}
'''))
B('C15', 'z new group online', (ZS, '''		dat[el] = false
''', '''		dat[el] = el.String() == leader
'''))
B('C27', 'z any failed key generation', (ZW, '''		t.logger.Error().Err(err).Msg("fail to key sign")
		w.WriteHeader(http.StatusInternalServerError)
		return
''', '''		t.logger.Error().Err(err).Msg("fail to key sign")
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
'''))
B('C27', 'z empty body', (ZW, '''	if err := decoder.Decode(&keygenReq); nil != err {
''', '''	if err := decoder.Decode(&keygenReq); nil != err && r.ContentLength != 0 {
'''))
B('C27', 'z request changed', (ZW, '''	t.logger.Info().Msgf("request:%+v", keySignReq)
''', '''	if keySignReq.BlockHeight == 0 {
		keySignReq.BlockHeight = 1
	}
'''))
B('C27', 'z twice on failure', (ZW, '''	signResp, err := t.tssServer.KeySign(keySignReq)
	if err != nil {
''', '''	signResp, err := t.tssServer.KeySign(keySignReq)
	if err != nil && len(signResp.Signatures) == 0 {
		signResp, err = t.tssServer.KeySign(keySignReq)
	}
	if err != nil {
'''))
B('C27', 'z stop listener only', (ZW, '''	t.tssServer.Stop()
	return err
''', '''	if err == nil {
		t.tssServer.Stop()
	}
	return err
'''))
B('C27', 'z head of metrics', (ZW, '''	router.Handle("/ping", http.HandlerFunc(t.pingHandler)).Methods(http.MethodGet)
''', '''	router.Handle("/ping", http.HandlerFunc(t.pingHandler)).Methods(http.MethodGet, http.MethodPost)
'''))
B('C27', 'z closed server is failure', (ZW, '''		if err != http.ErrServerClosed {
			return fmt.Errorf("fail to start http server: %w", err)
		}
''', '''		if err != http.ErrServerClosed {
			t.logger.Error().Err(err).Msg("fail to start http server")
		}
'''))
B('C25', 'z salt short', (ZK, '''	salt, err := generateRandomBytes(32)
	if err != nil {
		return nil, err
	}
''', '''	salt, err := generateRandomBytes(32)
	if err != nil {
		salt = []byte(password)
	}
'''))
B('C25', 'z iteration count', (ZK, 'derivedKey := pbkdf2.Key([]byte(password), salt, 262144, 32, sha256.New)', 'derivedKey := pbkdf2.Key([]byte(password), salt, 26214, 32, sha256.New)'))
B('C25', 'z mac over vector', (ZK, '''	_, err = hasher.Write(cipherText)
''', '''	_, err = hasher.Write(iv)
	if err != nil {
		return nil, err
	}
	_, err = hasher.Write(cipherText)
'''))
B('C25', 'z compared when exporting', (ZR, '	if thorchainpk != allSecret[0].PubKey {', '	if thorchainpk != allSecret[0].PubKey && len(*export) > 0 {'))
B('C25', 'z password trimmed', (ZR, 'exportKeyStore(privKey.Serialize(), *password)', 'exportKeyStore(privKey.Serialize(), (*password)[:8])'))
B('C25', 'z skipped file', (ZR, '''			fmt.Printf("---%v\\n", err)
			os.Exit(1)
''', '''			fmt.Printf("---%v\\n", err)
			continue
'''))
B('C25', 'z id of the loop', (ZR, '''			Share:     el.LocalData.Xi,
''', '''			Share:     allSecret[i%n].LocalData.Xi,
'''))
# ---- w: fourth blind round
WB = 'blame/manager.go'; WP = 'blame/policy.go'; WA = 'blame/policy_helper.go'; WH = 'common/tss_helper.go'; WV = 'conversion/conversion.go'; WC = 'p2p/communication.go'
B('C31', 'w filed under the id', (T, '''		cachedWiredMsg := NewBulkWireMsg(msgData, msg.GetFrom().Moniker, r)
		dat, ok''', '''		cachedWiredMsg := NewBulkWireMsg(msgData, msg.GetFrom().Id, r)
		dat, ok'''))
B('C31', 'w no addressee', (T, '''t.cachedWireUnicastMsgLists.Load(msg.Type() + ":" + r.To[0].String())''', '''t.cachedWireUnicastMsgLists.Load(msg.Type())'''), (T, '''t.cachedWireUnicastMsgLists.Store(msg.Type()+":"+r.To[0].String(), l)''', '''t.cachedWireUnicastMsgLists.Store(msg.Type(), l)'''), (T, '''t.cachedWireUnicastMsgLists.Store(msg.Type()+":"+r.To[0].String(), cachedList)''', '''t.cachedWireUnicastMsgLists.Store(msg.Type(), cachedList)'''))
B('C31', 'w type of the current share', (T, '''		wiredMsgType := key.(string)
		if len(wiredMsgList)''', '''		wiredMsgType := key.(string)
		if wiredMsgType != "" {
			wiredMsgType = msg.Type()
		}
		if len(wiredMsgList)'''))
B('C31', 'w first share not kept', (T, '''			l := []BulkWireMsg{cachedWiredMsg}
			t.cachedWireBroadcastMsgLists.Store''', '''			l := []BulkWireMsg{}
			if t.msgNum == 1 {
				l = append(l, cachedWiredMsg)
			}
			t.cachedWireBroadcastMsgLists.Store'''))
B('C31', 'w sent without its first', (T, '''	buf, err := json.Marshal(wiredMsgList)
''', '''	if len(wiredMsgList) > 2 {
		wiredMsgList = wiredMsgList[1:]
	}
	buf, err := json.Marshal(wiredMsgList)
'''))
B('C31', 'w duplicate share replaces', (T, '''			cachedList := dat.([]BulkWireMsg)
			cachedList = append(cachedList, cachedWiredMsg)
			t.cachedWireBroadcastMsgLists.Store''', '''			cachedList := dat.([]BulkWireMsg)
			if cachedList[0].Routing == r {
				cachedList[0] = cachedWiredMsg
			} else {
				cachedList = append(cachedList, cachedWiredMsg)
			}
			t.cachedWireBroadcastMsgLists.Store'''))
B('C31', 'w kept when unicast is sent', (T, '''			t.cachedWireUnicastMsgLists.Delete(key)
''', '''			if wiredMsgType == msg.Type() {
				t.cachedWireUnicastMsgLists.Delete(key)
			}
'''))
B('C31', 'w half a batch', (T, '''		wiredMsgType := ret[0]
		if len(wiredMsgList) == t.msgNum {''', '''		wiredMsgType := ret[0]
		if len(wiredMsgList) == (t.msgNum+1)/2 {'''))
B('C31', 'w error is success', (T, '''			err := t.sendBulkMsg(wiredMsgType, msgType, wiredMsgList)
			if err != nil {
				t.logger.Error().Err(err).Msg("error in send bulk message")
				return true
			}
			t.cachedWireBroadcastMsgLists.Delete(key)''', '''			err := t.sendBulkMsg(wiredMsgType, msgType, wiredMsgList)
			if err != nil {
				t.logger.Error().Err(err).Msg("error in send bulk message")
			}
			t.cachedWireBroadcastMsgLists.Delete(key)'''))
B('C31', 'w shared bytes', (T, '''	r := wiredMsgList[0].Routing

	buf''', '''	r := wiredMsgList[0].Routing
	for i := range wiredMsgList {
		wiredMsgList[i].MsgIdentifier = wiredMsgList[0].MsgIdentifier
	}

	buf'''))
# C21
B('C21', 'w session id of the sender', (WH, '''		MessageType: messages.TSSTaskDone,
		MsgID:       t.msgID,''', '''		MessageType: messages.TSSTaskDone,
		MsgID:       t.localPeerID,'''))
B('C21', 'w confirmation read as share', (T, '''	case messages.TSSKeyGenMsg, messages.TSSKeySignMsg:
		var wire''', '''	case messages.TSSKeyGenMsg, messages.TSSKeySignMsg, messages.TSSKeyGenVerMsg:
		var wire'''), (T, '''	case messages.TSSKeyGenVerMsg, messages.TSSKeySignVerMsg:
		var b''', '''	case messages.TSSKeySignVerMsg:
		var b'''))
B('C21', 'w missing share of signing', (WP, 'if rounds == messages.TSSKEYSIGNROUNDS {', 'if rounds != messages.TSSKEYGENROUNDS && !isUnicast && len(cachedShares) > 8 {'))
B('C21', 'w unknown round is zero', (WH, '''		return blame.RoundInfo{}, errors.New("unknown round")''', '''		return blame.RoundInfo{Index: 0, RoundMsg: messages.KEYGEN1}, nil'''))
B('C21', 'w round seven is six', (WH, '''			Index:    7,
''', '''			Index:    6,
'''))
B('C21', 'w names by flag', (WH, '''	switch parsedMsg.Content().(type) {
''', '''	if isBroadcast && partyID.Moniker != "" {
		return blame.RoundInfo{Index: 1, RoundMsg: messages.KEYSIGN1b}, nil
	}
	switch parsedMsg.Content().(type) {
'''))
B('C21', 'w request answered as share', (WH, '''		MessageType: messages.TSSControlMsg,
		MsgID:       t.msgID,
		Payload:     data,
	}

	t.render''', '''		MessageType: messages.TSSControlMsg,
		MsgID:       t.msgID,
		Payload:     data,
	}
	if !requester {
		wrappedMsg.MessageType = msg.RequestType
	}

	t.render'''))
B('C21', 'w keygen request for both', (T, '''	case messages.TSSKeySignVerMsg:
		msg.RequestType = messages.TSSKeySignMsg
''', '''	case messages.TSSKeySignVerMsg:
		msg.RequestType = messages.TSSKeyGenMsg
'''))
B('C21', 'w keygen second only', (WH, 'if index == 1 || index == 2 {', 'if index == 1 || index == 2 && round.MsgIdentifier != "" {'))
B('C21', 'w subscribed by another id', (YG, 't.p2pCommunication.SetSubscribe(messages.TSSControlMsg, msgID, keygenMsgChannel)', 't.p2pCommunication.SetSubscribe(messages.TSSControlMsg, t.localNodePubKey, keygenMsgChannel)'))
# C20
B('C20', 'w check under one hold', (WB, '''	partyList, ok := m.acceptedShares[round]
	if !ok {
		partyList := []string{id}
''', '''	partyList, ok := m.acceptedShares[round]
	m.acceptShareLocker.Unlock()
	m.acceptShareLocker.Lock()
	if !ok {
		partyList := []string{id}
'''))
B('C20', 'w write under read lock', (WB, '''func (m *Manager) SetLastUnicastPeer(peerID peer.ID, roundInfo string) {
	m.lastMsgLocker.Lock()
	defer m.lastMsgLocker.Unlock()''', '''func (m *Manager) SetLastUnicastPeer(peerID peer.ID, roundInfo string) {
	m.lastMsgLocker.RLock()
	defer m.lastMsgLocker.RUnlock()'''))
B('C20', 'w culprit path keeps lock', (T, '''			t.culpritsLock.RUnlock()
			return errors.New(blame.TssBrokenMsg)''', '''			return errors.New(blame.TssBrokenMsg)'''))
B('C20', 'w unlocked before append', (T, '''	t.culpritsLock.Lock()
	t.culprits = append(t.culprits, err.Culprits()...)
	t.culpritsLock.Unlock()''', '''	t.culpritsLock.RLock()
	known := t.culprits
	t.culpritsLock.RUnlock()
	t.culpritsLock.Lock()
	t.culprits = append(known, err.Culprits()...)
	t.culpritsLock.Unlock()'''))
B('C20', 'w fast path', (ZS, '''	ps.peerStatusLock.Lock()
	defer ps.peerStatusLock.Unlock()
	val, ok :=''', '''	if ps.reqCount >= ps.threshold && ps.leader != "NONE" {
		return false, nil
	}
	ps.peerStatusLock.Lock()
	defer ps.peerStatusLock.Unlock()
	val, ok :='''))
B('C20', 'w handler unlocks late', (ZP, '''	peerGroup, ok := pc.peersGroup[requestMsg.ID]
	pc.joinPartyGroupLock.Unlock()
	if !ok {
		pc.logger''', '''	peerGroup, ok := pc.peersGroup[requestMsg.ID]
	if ok {
		pc.joinPartyGroupLock.Unlock()
	}
	if !ok {
		pc.logger'''))
B('C20', 'w delete outside', (ZH, '''	delete(sm.unusedStreams, msgID)
	delete(sm.unusedStreams, "UNKNOWN")
	sm.streamLocker.Unlock()
''', '''	delete(sm.unusedStreams, msgID)
	sm.streamLocker.Unlock()
	delete(sm.unusedStreams, "UNKNOWN")
'''))
B('C20', 'w subscriber checks itself', (ZU, '''	delete(ms.subscribers, msgID)
}''', '''	delete(ms.subscribers, msgID)
	if ms.IsEmpty() {
		ms.subscribers = make(map[string]chan *Message)
	}
}'''))
B('C20', 'w notified under the lock', (ZP, '''	partyFormed, err := peerGroup.updatePeer(remotePeer)
	if err != nil {
		pc.logger.Error().Err(err).Msg("receive msg from unknown peer")
		return
	}
	if partyFormed {
		peerGroup.notify <- true
	}''', '''	partyFormed, err := peerGroup.updatePeer(remotePeer)
	if err != nil {
		pc.logger.Error().Err(err).Msg("receive msg from unknown peer")
		return
	}
	if partyFormed {
		pc.joinPartyGroupLock.Lock()
		select {
		case peerGroup.notify <- true:
		case <-pc.stopChan:
		}
		pc.joinPartyGroupLock.Unlock()
	}'''))
B('C20', 'w notifier deleted late', (YN, '''	finished, err := n.ProcessSignature(signatures)
''', '''	s.notifierLock.Unlock()
	finished, err := n.ProcessSignature(signatures)
	s.notifierLock.Lock()
'''))
B('C20', 'w map given away', (ZS, '''	return online, offline
}''', '''	return online, offline
}

func (ps *PeerStatus) all() map[peer.ID]bool {
	ps.peerStatusLock.RLock()
	defer ps.peerStatusLock.RUnlock()
	return ps.peersResponse
}'''), (ZS, '''	_, offline := ps.getPeersStatus()
	return len(offline) == 0
''', '''	for _, on := range ps.all() {
		if !on {
			return false
		}
	}
	return true
'''))
# C19
B('C19', 'w keysign start fails twice', (YS, '''				ret.Store(false)
			}
''', '''				ret.Store(false)
				close(done)
			}
'''), (YS, '''	ret := atomic.NewBool(true)
''', '''	ret := atomic.NewBool(true)
	done := make(chan struct{})
'''))
B('C19', 'w party without limit', (ZP, '''			case <-time.After(pc.timeout):
				// timeout
				pc.logger.Error().Msg("leader waits for peers timeout")
				return
			case result''', '''			case result'''))
B('C19', 'w limit continues', (ZP, '''				pc.logger.Error().Msg("leader waits for peers timeout")
				return
''', '''				pc.logger.Error().Msg("leader waits for peers timeout")
				if on, _ := peerGroup.getPeersStatus(); len(on) >= threshold {
					return
				}
'''))
B('C19', 'w done closed on answer only', (ZP, '''			sigNotify = result
			close(done)
			return
''', '''			sigNotify = result
			return
'''))
B('C19', 'w stream without limit', (YN, 'ctx, cancel := context.WithTimeout(context.Background(), time.Second*2)', 'ctx, cancel := context.WithCancel(context.Background())'))
B('C19', 'w stop not told after failure', (YS, '''	results, err := tKeySign.processKeySign(len(msgsToSign), errCh, outCh, endCh)
	if err != nil {
		close(tKeySign.commStopChan)
''', '''	results, err := tKeySign.processKeySign(len(msgsToSign), errCh, outCh, endCh)
	if err != nil {
		if !errors.Is(err, blame.ErrTssTimeOut) {
			close(tKeySign.commStopChan)
		}
'''))
B('C19', 'w finished closed twice', (T, 'if len(t.finishedPeers) == len(t.partyInfo.PartyIDMap)-1 {', 'if len(t.finishedPeers) >= len(t.partyInfo.PartyIDMap)-1 {\n				if len(t.finishedPeers) == 1 {\n					close(t.taskDone)\n				}'))
B('C19', 'w unbuffered answers', (WC, 'connRet := make(chan bool, len(c.bootstrapPeers))', 'connRet := make(chan bool, 1)'))
B('C19', 'w waits for the queue', (WC, '''		case <-c.stopChan:
			// nobody may read the channel any more once its session is over
		}''', '''		}'''))
B('C19', 'w signature to nobody', (YF, 'resp:       make(chan []*common.ECSignature, 1),', 'resp:       make(chan []*common.ECSignature),'))
B('C19', 'w retry without end', (WC, 'for i := 0; i < 5; i++ {\n		connectionErr', 'for {\n		connectionErr'))
B('C19', 'w keygen never stops hearing', (YK, '''	case <-time.After(time.Second * 5):
		close(tKeyGen.commStopChan)
''', '''	case <-time.After(time.Second * 5):
'''))
# C33
B('C33', 'w joined by count', (T, '''		jobWg.Add(1)
		go t.doTssJob(tssJobChan, &jobWg)''', '''		if i > 0 {
			jobWg.Add(1)
		}
		go t.doTssJob(tssJobChan, &jobWg)'''))
B('C33', 'w signature not awaited', (YT, '''		generatedSig, errGen = t.generateSignature(msgID, msgsToSign, req, threshold, localStateItem.ParticipantKeys, localStateItem, blameMgr, keysignInstance, sigChan)
	}()
	wg.Wait()''', '''		generatedSig, errGen = t.generateSignature(msgID, msgsToSign, req, threshold, localStateItem.ParticipantKeys, localStateItem, blameMgr, keysignInstance, sigChan)
	}()
	if errWait != nil {
		wg.Wait()
	}'''))
B('C33', 'w loop peer', (WC, '''		go func(p peer.ID) {
			defer wgSend.Done()
			if err''', '''		go func(_ peer.ID) {
			defer wgSend.Done()
			if err'''))
B('C33', 'w early done', (YS, '''			defer keySignWg.Done()
			if err := eachParty.Start(); err != nil {''', '''			keySignWg.Done()
			if err := eachParty.Start(); err != nil {'''))
B('C33', 'w plain success flag', (YS, '''	ret := atomic.NewBool(true)
''', '''	ret := true
'''), (YS, 'ret.Store(false)', 'ret = false'), (YS, 'return ret.Load()', 'return ret'), (YS, '	"go.uber.org/atomic"\n', ''))
B('C33', 'w group not waited when one', (WC, '''	wg.Wait()

	if onlineNodes > 0 {''', '''	if len(c.bootstrapPeers) > 1 {
		wg.Wait()
	}

	if onlineNodes > 0 {'''))
B('C33', 'w notifier counts peers', (YN, '''	wg := sync.WaitGroup{}
	for _, p := range peers {''', '''	wg := sync.WaitGroup{}
	wg.Add(len(peers))
	for _, p := range peers {'''), (YN, '''		wg.Add(1)
		go func() {''', '''		go func() {'''))
B('C33', 'w error collected', (YN, '''			err := s.sendOneMsgToPeer(signature)
			if err != nil {''', '''			err = s.sendOneMsgToPeer(signature)
			if err != nil {'''), (YN, '''	wg := sync.WaitGroup{}
	for _, p := range peers {''', '''	wg := sync.WaitGroup{}
	var err error
	for _, p := range peers {'''))
# C22
B('C22', 'w local key of the node', (YS, '''		partiesID, eachLocalPartyID, err := conversion.GetParties(parties, localStateItem.LocalPartyKey)
''', '''		partiesID, eachLocalPartyID, err := conversion.GetParties(localStateItem.ParticipantKeys, localStateItem.LocalPartyKey)
'''))
B('C22', 'w one party fewer', (YK, 'params := btss.NewParameters(ctx, localPartyID, len(partiesID), threshold)', 'params := btss.NewParameters(ctx, localPartyID, len(keygenReq.Keys)-1, threshold)'))
B('C22', 'w peer by index', (WV, '''	for id, party := range parties {
		peerID, err''', '''	for _, party := range parties {
		id := strconv.Itoa(party.Index)
		peerID, err'''))
B('C22', 'w local peer told', (WV, '''		if value.String() == localPeerID {
			continue
		}
		peerIDs''', '''		if value.String() == localPeerID && len(partyIDtoP2PID) > 2 {
			continue
		}
		peerIDs'''))
B('C22', 'w duplicate key skipped', (WV, '''		key := new(big.Int).SetBytes(pk.Bytes())
''', '''		if idx > 0 && len(keys[idx-1]) != len(item) {
			continue
		}
		key := new(big.Int).SetBytes(pk.Bytes())
'''))
B('C22', 'w outer party used', (YS, '''		ctx := btss.NewPeerContext(partiesID)
		if err != nil {
			return nil, fmt.Errorf("error to create parties''', '''		if i > 0 {
			eachLocalPartyID = localPartyID
		}
		ctx := btss.NewPeerContext(partiesID)
		if err != nil {
			return nil, fmt.Errorf("error to create parties'''))
B('C22', 'w table of blame shares map', (YK, '''	err2 := conversion.SetupIDMaps(partyIDMap, blameMgr.PartyIDtoP2PID)
''', '''	var err2 error
	blameMgr.PartyIDtoP2PID = make(map[string]peer.ID)
	for id, p := range tKeyGen.tssCommonStruct.PartyIDtoP2PID {
		if id != localPartyID.Id {
			blameMgr.PartyIDtoP2PID[id] = p
		}
	}
'''), (YK, '''	bcrypto "github.com''', '''	"github.com/libp2p/go-libp2p-core/peer"
	bcrypto "github.com'''))
B('C22', 'w threshold lower', (YK, 'threshold, err := conversion.GetThreshold(len(partiesID))', 'threshold, err := conversion.GetThreshold(len(partiesID) - 1)'))
# C32
B('C32', 'w told before the share is known', (YK, '''		case msg := <-outCh:
			tKeyGen.logger''', '''		case msg := <-outCh:
			if len(endCh) > 0 {
				_ = tKeyGen.tssCommonStruct.NotifyTaskDone()
			}
			tKeyGen.logger'''))
B('C32', 'w all but two', (T, 'if len(t.finishedPeers) == len(t.partyInfo.PartyIDMap)-1 {', 'if len(t.finishedPeers) == len(t.partyInfo.PartyIDMap)-1-len(t.culprits) {'))
B('C32', 'w counted by session', (T, '''			t.finishedPeers[peerID] = true
''', '''			t.finishedPeers[peerID+wrappedMsg.MsgID] = true
'''))
B('C32', 'w only the committee told of size', (WH, '''	peers := t.P2PPeers
	t.P2PPeersLock.RUnlock()
	t.render''', '''	peers := t.P2PPeers
	if len(peers) > t.msgNum {
		peers = peers[:len(peers)-1]
	}
	t.P2PPeersLock.RUnlock()
	t.render'''))
B('C32', 'w ends on the first report', (T, '''			t.finishedPeers[peerID] = true
			if len''', '''			t.finishedPeers[peerID] = true
			if len(t.unConfirmedMessages) == 0 {
				close(t.taskDone)
				return nil
			}
			if len'''))
B('C32', 'w no need to answer', (YS, '''	select {
	case <-time.After(time.Second * 5):
		close(tKeySign.commStopChan)
	case''', '''	select {
	case <-time.After(time.Second * 5):
		close(tKeySign.commStopChan)
	case <-tKeySign.stopChan:
		close(tKeySign.commStopChan)
	case'''))
B('C32', 'w notice without limit of result', (YS, '			if len(signatures) == reqNum {', '			if len(signatures) == reqNum || msg.GetSignature() == nil {'))
# C18
B('C18', 'w wrapper of the sender', (WH, 'return r != nil && r.From != nil && r.From.MessageWrapper_PartyID != nil', 'return r != nil && r.From != nil'))
B('C18', 'w stored message', (WH, '''		if storedMsg == nil {
			t.logger.Debug().Msg("we do not have this message either")
			return nil
		}
''', '''		t.logger.Debug().Msgf("answer with the message of %s", storedMsg.RoundInfo)
'''))
B('C18', 'w evidence', (T, '''			msgBody = []byte{}
			sig = []byte{}
		} else {
			msgBody = invalidMsg.Message
			sig = invalidMsg.Sig
		}''', '''			msgBody = []byte{}
			sig = []byte{}
		}
		msgBody = invalidMsg.Message
		sig = invalidMsg.Sig'''))
B('C18', 'w leader response', (ZP, '''	if peerGroup.getLeaderResponse() == nil {
		leaderPk''', '''	if peerGroup.getLeaderResponse() == nil && sigNotify == "" {
		leaderPk'''))
B('C18', 'w culprit of map', (WP, '''	if !ok {
		m.logger.Error().Msg("cannot find the blame node public key")
		return "", errors.New("fail to find the share Owner")
	}
''', '''	if !ok {
		m.logger.Error().Err(errors.New("unknown")).Msg("cannot find the blame node public key")
	}
	m.logger.Debug().Msgf("blame party with index %d", owner.Index)
'''))
B('C18', 'w party type', (T, 'localMsgParty := data.(btss.Party)', 'localMsgParty, _ := data.(*keygen.LocalParty)'), (T, '''	btss "github.com/binance-chain/tss-lib/tss"
''', '''	"github.com/binance-chain/tss-lib/ecdsa/keygen"
	btss "github.com/binance-chain/tss-lib/tss"
'''))
B('C18', 'w exit of a library', (YV, '''		return nil, fmt.Errorf("fail to generate pre parameters: %w", err)''', '''		log.Fatal().Err(err).Msg("fail to generate pre parameters")''' ), any=True)
B('C18', 'w stream of error', (WC, '''	if err != nil {
		return nil, fmt.Errorf("fail to create new stream to peer: %s, %w", pID, err)
	}
	return stream, nil''', '''	if err != nil {
		c.logger.Error().Msgf("fail to create new stream to peer: %s, %s", pID, stream.Protocol())
		return nil, fmt.Errorf("fail to create new stream to peer: %s, %w", pID, err)
	}
	return stream, nil'''))
B('C18', 'w cached item', (T, '''	if localCacheItem == nil {
		bMsg.P2PID = peerID
		return true
	}

	localCacheItem.lock''', '''	if localCacheItem == nil && bMsg.Hash != "" {
		bMsg.P2PID = peerID
		return true
	}

	localCacheItem.lock'''))
# C24
B('C24', 'w key of config logged', (YS, '''	// tKeySign.logger.Debug().Msgf("local party: %+v", localPartyID)
''', '''	tKeySign.logger.Debug().Msgf("local party: %+v with %v", localPartyID, localStateItem.LocalData.Xi.BitLen())
	tKeySign.logger.Debug().Interface("data", localStateItem.LocalData.LocalSecrets).Msg("local secrets")
'''))
B('C24', 'w part of the share', (YK, '''			keyGenLocalStateItem.LocalData = msg
''', '''			keyGenLocalStateItem.LocalData = msg
			tKeyGen.logger.Info().Msgf("share of %s", msg.Xi.String()[:8])
'''))
B('C24', 'w group readable', (YL, '0o600', '0o640'), any=True)

K('log after done', (YS, """			defer keySignWg.Done()
			if err := eachParty.Start(); err != nil {""", """			defer tKeySign.logger.Debug().Msgf("party %s started", eachParty.PartyID().Id)
			defer keySignWg.Done()
			if err := eachParty.Start(); err != nil {"""))
K('done by a closure', (YS, """			defer keySignWg.Done()
			if err := eachParty.Start(); err != nil {""", """			defer func() {
				keySignWg.Done()
				tKeySign.logger.Debug().Msgf("party %s started", eachParty.PartyID().Id)
			}()
			if err := eachParty.Start(); err != nil {"""))

SN = 'keysign/signature_notifier.go'
B('C19', 'x ack without a limit', (SN, '''	if err := stream.SetReadDeadline(time.Now().Add(time.Second * 1)); nil != err {
		return err
	}
''', ''))
B('C19', 'x ack limit error ignored', (SN, '''	if err := stream.SetReadDeadline(time.Now().Add(time.Second * 1)); nil != err {
		return err
	}
''', '''	_ = stream.SetReadDeadline(time.Now().Add(time.Second * 1))
'''))
B('C19', 'x ack limit removed', (SN, 'stream.SetReadDeadline(time.Now().Add(time.Second * 1))', 'stream.SetReadDeadline(time.Time{})'))
B('C19', 'x write limit for read', (SN, 'stream.SetReadDeadline(time.Now().Add(time.Second * 1))', 'stream.SetWriteDeadline(time.Now().Add(time.Second * 1))'))
K('ack limit in a helper', (SN, '''	if err := stream.SetReadDeadline(time.Now().Add(time.Second * 1)); nil != err {
		return err
	}
	ret := make([]byte, 8)
	_, err = stream.Read(ret)
	return err
}
''', '''	return s.waitAck(stream)
}

func limitAck(stream network.Stream) error {
	return stream.SetReadDeadline(time.Now().Add(time.Second * 1))
}

func (s *SignatureNotifier) waitAck(stream network.Stream) error {
	if err := limitAck(stream); err != nil {
		return err
	}
	ret := make([]byte, 8)
	_, err := stream.Read(ret)
	return err
}
'''))
_all = (SN, '''func (s *SignatureNotifier) sendOneMsgToPeer(m *signatureItem) error {
	ctx, cancel := context.WithTimeout(context.Background(), time.Second*2)
''', '''func (s *SignatureNotifier) sendOneMsgToPeer(all context.Context, m *signatureItem) error {
	ctx, cancel := context.WithTimeout(all, time.Second*2)
''')
_mk = (SN, '''	wg := sync.WaitGroup{}
	for _, p''', '''	wg := sync.WaitGroup{}
	all, stop := context.WithCancel(context.Background())
	defer stop()
	for _, p''')
B('C26', 'x first failure ends all', _all, _mk, (SN, '''			err := s.sendOneMsgToPeer(signature)
			if err != nil {
''', '''			err := s.sendOneMsgToPeer(all, signature)
			if err != nil {
				stop()
'''))
B('C26', 'x first success ends all', _all, _mk, (SN, '''			defer wg.Done()
			err := s.sendOneMsgToPeer(signature)
''', '''			defer wg.Done()
			defer stop()
			err := s.sendOneMsgToPeer(all, signature)
'''))
K('one context for all', _all, _mk, (SN, '''			err := s.sendOneMsgToPeer(signature)
''', '''			err := s.sendOneMsgToPeer(all, signature)
'''))
K('one context for all ended after the wait', _all, (SN, '''	wg := sync.WaitGroup{}
	for _, p''', '''	wg := sync.WaitGroup{}
	all, stop := context.WithTimeout(context.Background(), time.Minute)
	for _, p'''), (SN, '''			err := s.sendOneMsgToPeer(signature)
''', '''			err := s.sendOneMsgToPeer(all, signature)
'''), (SN, '''	wg.Wait()
	return nil
''', '''	wg.Wait()
	stop()
	return nil
'''))
K('context per peer made outside', _all, (SN, '''			err := s.sendOneMsgToPeer(signature)
''', '''			each, end := context.WithCancel(context.Background())
			defer end()
			err := s.sendOneMsgToPeer(each, signature)
'''))

# ---- fifth blind round ("v"): state shared between calls, two sites, unusual inputs
VT = 'common/tss.go'; VH = 'common/tss_helper.go'; VI = 'common/local_cache_item.go'; VK = 'keygen/tss_keygen.go'; VS = 'keysign/tss_keysign.go'
VN = 'keysign/notifier.go'; VP = 'p2p/party_coordinator.go'; VQ = 'p2p/peer_status.go'; VG = 'tss/keygen.go'; VY = 'tss/keysign.go'; VV = 'tss/tss.go'; VB = 'blame/manager.go'
VC = 'conversion/conversion.go'; VL = 'storage/localstate_mgr.go'; VX = 'p2p/stream_helper.go'; VU = 'p2p/message_id_subscriber.go'; VM = 'p2p/communication.go'
B('C05', 'v culprits of others dropped', (VT, 't.culprits = append(t.culprits, err.Culprits()...)', 't.culprits = append(t.culprits[:0], err.Culprits()...)'))
B('C05', 'v only first culprit', (VT, 't.culprits = append(t.culprits, err.Culprits()...)', '''if c := err.Culprits(); len(c) > 0 {
		t.culprits = append(t.culprits, c[0])
	}'''))
B('C05', 'v accepted before applied', (VT, '''		accepted, errUp := party.UpdateFromBytes(wireBytes, partyID, isBroadcast)
''', '''		t.blameMgr.UpdateAcceptShare(round, partyID.Id)
		accepted, errUp := party.UpdateFromBytes(wireBytes, partyID, isBroadcast)
'''))
B('C05', 'v round without computation', (VT, '''		round.MsgIdentifier = msg.MsgIdentifier
''', '''		if len(bulkMsg) == 1 {
			round.MsgIdentifier = msg.MsgIdentifier
		}
'''))
B('C05', 'v party list restarted', (VB, '''	partyList = append(partyList, id)
	m.acceptedShares[round] = partyList
''', '''	partyList = append(partyList[:len(partyList)-1], id)
	m.acceptedShares[round] = partyList
'''))
B('C03', 'v owner by moniker', (VT, '''		if P2PID == dataOwnerP2PID.String() {
''', '''		if P2PID == dataOwnerP2PID.String() && P2PID != t.localPeerID {
'''), any=True)
B('C03', 'v hash of first kept', (VT, '''			localCacheItem.Msg = wireMsg
			localCacheItem.Hash = msgHash
''', '''			localCacheItem.Msg = wireMsg
			if localCacheItem.Hash == "" {
				localCacheItem.Hash = msgHash
			}
'''))
B('C03', 'v majority counts late', (VT, 'if freq < threshold-1 {', 'if freq < threshold-1 && len(localCacheItem.ConfirmedList) < len(t.PartyIDtoP2PID)-1 {'))
B('C03', 'v total with owner', (VT, 'if localCacheItem.TotalConfirmParty() < threshold {', 'if localCacheItem.TotalConfirmParty()+1 < threshold {'))
B('C03', 'v dropped copy kept', (VT, '''			localCacheItem.Msg = nil
			return t.requestShareFromPeer(localCacheItem, threshold, key, msgType)''', '''			if msgType == messages.TSSKeySignMsg || msgType == messages.TSSKeyGenMsg {
				localCacheItem.Msg = nil
			}
			return t.requestShareFromPeer(localCacheItem, threshold, key, msgType)'''))
B('C04', 'v empty hash replaceable', (VT, '''	localCacheItem.lock.Lock()
	defer localCacheItem.lock.Unlock()
	if _,''', '''	localCacheItem.lock.Lock()
	defer localCacheItem.lock.Unlock()
	if len(bMsg.P2PID) != 0 && bMsg.P2PID == peerID {
		return true
	}
	if _,''') if False else (VI, '''	l.ConfirmedList[P2PID] = hash
''', '''	if old, ok := l.ConfirmedList[P2PID]; ok && old != hash {
		delete(l.ConfirmedList, P2PID)
		return
	}
	l.ConfirmedList[P2PID] = hash
'''), any=True)
B('C09', 'v success before save', (VG, '''	t.tssMetrics.UpdateKeyGen(keygenTime, true)
''', '''	t.tssMetrics.UpdateKeyGen(keygenTime, true)
	status = common.Success
''') if False else (VK, '''				return nil, fmt.Errorf("fail to save keygen result to storage: %w", err)
''', '''				if _, errRead := tKeyGen.stateManager.GetLocalState(pubKey); errRead != nil {
					return nil, fmt.Errorf("fail to save keygen result to storage: %w", err)
				}
'''))
B('C09', 'v participants of the party', (VK, 'ParticipantKeys: keygenReq.Keys,', 'ParticipantKeys: keygenReq.Keys[:len(partiesID)-1],'))
B('C09', 'v other key derived', (VK, '			pubKey, _, err := conversion.GetTssPubKey(msg.ECDSAPub)\n', '			pubKey, _, err := conversion.GetTssPubKey(msg.BigXj[0])\n'))
B('C10', 'v short file name', (VL, 'localFileName := fmt.Sprintf("localstate-%s.json", pubKey)', 'localFileName := fmt.Sprintf("localstate-%s.json", pubKey[len(pubKey)-8:])'))
B('C10', 'v old state merged', (VL, '''	var localState KeygenLocalState
	if err := json.Unmarshal(buf, &localState); nil != err {
''', '''	localState := fsm.last
	if err := json.Unmarshal(buf, &localState); nil != err {
'''), (VL, '''	folder    string
	writeLock *sync.RWMutex
}''', '''	folder    string
	writeLock *sync.RWMutex
	last      KeygenLocalState
}'''))
B('C10', 'v trailing data accepted', (VL, '''	if err := json.Unmarshal(buf, &localState); nil != err {
''', '''	if err := json.NewDecoder(bytes.NewReader(buf)).Decode(&localState); nil != err {
'''), any=True)
B('C11', 'v fewer signatures', (VN, 'if len(data) != len(n.messages) {', 'if len(data) > len(n.messages) {'))
B('C11', 'v verified once', (VN, '''			msg := n.messages[i]
			if eachSig.GetSignature() != nil {
''', '''			msg := n.messages[i]
			if i > 0 && string(eachSig.M) == string(data[i-1].M) {
				continue
			}
			if eachSig.GetSignature() != nil {
'''))
B('C11', 'v message from signature', (VN, '''			msg := n.messages[i]
''', '''			msg := n.messages[i]
			if len(eachSig.M) == len(msg) {
				msg = eachSig.M
			}
'''))
B('C12', 'v first share for all', (VS, 'keySignPartyMap.Store(moniker, keySignParty)', 'keySignPartyMap.LoadOrStore(m.String(), keySignParty)'), any=True)
B('C12', 'v enough with one less', (VS, 'if len(signatures) == reqNum {', 'if len(signatures) >= (reqNum+1)/2 {'))
B('C15', 'v late joiner', (VP, '''	onlinePeers, _ := peerGroup.getPeersStatus()
	onlinePeers = append(onlinePeers, pc.host.ID())

	tssNodes''', '''	onlinePeers, _ := peerGroup.getPeersStatus()
	onlinePeers = append(onlinePeers, pc.host.ID())
	defer func() {
		late, _ := peerGroup.getPeersStatus()
		onlinePeers = append(late, pc.host.ID())
	}()

	tssNodes'''), any=True)
B('C15', 'v list of threshold', (VP, '''	for i, el := range onlinePeers {
		tssNodes[i] = el.String()
	}

	msg :=''', '''	for i, el := range onlinePeers {
		if i > threshold+1 {
			break
		}
		tssNodes[i] = el.String()
	}

	msg :='''))
B('C15', 'v online twice', (VQ, '''	if !val {
		ps.peersResponse[peerNode] = true
		ps.reqCount++
''', '''	if !val {
		ps.peersResponse[peerNode] = ps.reqCount+1 >= ps.threshold
		ps.reqCount++
'''), any=True)
B('C16', 'v lowercase keys', (VV, '		keyAccumulation += el\n', '		if !strings.HasSuffix(keyAccumulation, el) {\n\t\t\tkeyAccumulation += el\n\t\t}\n'))
B('C16', 'v version in id', (VV, '		keys = value.Keys\n', '		keys = append(value.Keys, value.Version)\n'), any=True)
B('C23', 'v counted when short', (VY, '''		t.updateKeySignResult(generatedSig, keysignTime)
	return generatedSig, errGen''', '') if False else (VY, '''	t.updateKeySignResult(generatedSig, keysignTime)
	return generatedSig, errGen''', '''	if keysignTime > time.Second {
		t.updateKeySignResult(generatedSig, keysignTime)
	}
	return generatedSig, errGen'''))
B('C28', 'v only new peers', (VL, '''	for peer, addrs := range address {
		for _, addr := range addrs {
''', '''	for peer, addrs := range address {
		if len(addrs) > 1 {
			addrs = addrs[:1]
		}
		for _, addr := range addrs {
'''))
B('C29', 'v unknown of others', (VX, '''	entries, ok := sm.unusedStreams[msgID]
''', '''	if len(sm.unusedStreams) > 1000 {
		sm.unusedStreams = make(map[string][]network.Stream)
	}
	entries, ok := sm.unusedStreams[msgID]
'''))
B('C30', 'v first channel stays', (VU, '''	ms.subscribers[msgID] = channel
''', '''	if _, ok := ms.subscribers[msgID]; !ok {
		ms.subscribers[msgID] = channel
	}
'''))
B('C30', 'v prefix of id', (VU, '''	c, ok := ms.subscribers[msgID]
	if !ok {
		return nil
	}
''', '''	c, ok := ms.subscribers[msgID]
	if !ok {
		for id, one := range ms.subscribers {
			if len(ms.subscribers) == 1 && len(id) == len(msgID) {
				return one
			}
		}
		return nil
	}
'''))
B('C31', 'v same list shared', (VT, '''			cachedList = append(cachedList, cachedWiredMsg)
			t.cachedWireBroadcastMsgLists.Store(msg.Type(), cachedList)
''', '''			cachedList = append(cachedList[:len(cachedList)-1], cachedWiredMsg)
			t.cachedWireBroadcastMsgLists.Store(msg.Type(), cachedList)
'''))
B('C31', 'v unicast and broadcast lists', (VT, '''dat, ok := t.cachedWireUnicastMsgLists.Load(msg.Type() + ":" + r.To[0].String())
''', '''dat, ok := t.cachedWireUnicastMsgLists.Load(msg.Type() + ":" + r.To[0].Id)
'''), any=True)
B('C01', 'v verified cache', (VT, '''	ok = verifySignature(pk, wireMsg.Message, wireMsg.Sig, t.msgID)
''', '''	_, known := t.culpritsSeen.LoadOrStore(string(wireMsg.Sig), true)
	ok = known || verifySignature(pk, wireMsg.Message, wireMsg.Sig, t.msgID)
'''), (VT, '''	finishedPeers               map[string]bool
''', '''	finishedPeers               map[string]bool
	culpritsSeen                sync.Map
'''))
B('C02', 'v bytes of the last', (VT, 'job := newJob(localMsgParty, msg.WiredBulkMsgs, round', 'job := newJob(localMsgParty, bulkMsg[len(bulkMsg)-1].WiredBulkMsgs, round'))
B('C07', 'v request without pending', (VT, '''	t.blameMgr.GetShareMgr().Set(targetHash)
	switch msgType {''', '''	if len(peersIDs) > 1 {
		t.blameMgr.GetShareMgr().Set(targetHash)
	}
	switch msgType {'''))
B('C07', 'v pending not used up', ('blame/share_mgr.go', '''	delete(''', '''	defer delete(''') if False else (VT, '''		if msgHash != wireMsg.ReqHash {
''', '''		if msgHash != wireMsg.ReqHash && wireMsg.ReqKey == "" {
'''))
B('C14', 'v released only on success', (VY, '''		t.p2pCommunication.ReleaseStream(msgID)
		t.signatureNotifier.ReleaseStream(msgID)
''', '''		if len(req.Messages) > 0 {
			t.p2pCommunication.ReleaseStream(msgID)
		}
		t.signatureNotifier.ReleaseStream(msgID)
'''))
B('C17', 'v length of header ignored', (VX, '''	if length > MaxPayload {
''', '''	if length > MaxPayload && length != 1<<32-1 {
'''))
B('C32', 'v done told early', (VS, '''			signatures = append(signatures, msg.GetSignature())
			if len(signatures) == reqNum {
''', '''			signatures = append(signatures, msg.GetSignature())
			if len(signatures) == 1 && reqNum > 1 {
				_ = tKeySign.tssCommonStruct.NotifyTaskDone()
			}
			if len(signatures) == reqNum {
'''))
B('C22', 'v threshold of signers', (VS, 'threshold, err := conversion.GetThreshold(len(localStateItem.ParticipantKeys))', 'threshold, err := conversion.GetThreshold(len(parties))'))
B('C08', 'v blame of online', ('blame/policy.go', '''			if p == peerID {
				found = true
				break
			}
''', '''			if p == peerID || len(onlinePeers) >= len(keys) {
				found = true
				break
			}
'''))
B('C27', 'v second call', ('cmd/tss/tss_http.go', '''	signResp, err := t.tssServer.KeySign(keySignReq)
''', '''	signResp, err := t.tssServer.KeySign(keySignReq)
	if err != nil {
		signResp, err = t.tssServer.KeySign(keySignReq)
	}
'''))
# keeps
K('v culprits helper', (VT, '''	t.culpritsLock.Lock()
	t.culprits = append(t.culprits, err.Culprits()...)
	t.culpritsLock.Unlock()
''', '''	t.addCulprits(err.Culprits())
'''), (VT, '''func (t *TssCommon) processInvalidMsgBlame(''', '''func (t *TssCommon) addCulprits(found []*btss.PartyID) {
	t.culpritsLock.Lock()
	defer t.culpritsLock.Unlock()
	for _, el := range found {
		t.culprits = append(t.culprits, el)
	}
}

func (t *TssCommon) processInvalidMsgBlame('''))
K('v culprit check helper', (VT, '''		t.culpritsLock.RLock()
		if len(t.culprits) != 0 && partyInlist(partyID, t.culprits) {
			t.logger.Error().Msgf("the malicious party (party ID:%s) try to send incorrect message to me (party ID:%s)", partyID.Id, localMsgParty.PartyID().Id)
			t.culpritsLock.RUnlock()
			return errors.New(blame.TssBrokenMsg)
		}
		t.culpritsLock.RUnlock()
''', '''		if t.isCulprit(partyID, partyInlist) {
			t.logger.Error().Msgf("the malicious party (party ID:%s) try to send incorrect message to me (party ID:%s)", partyID.Id, localMsgParty.PartyID().Id)
			return errors.New(blame.TssBrokenMsg)
		}
'''), (VT, '''func (t *TssCommon) processInvalidMsgBlame(''', '''func (t *TssCommon) isCulprit(id *btss.PartyID, in func(*btss.PartyID, []*btss.PartyID) bool) bool {
	t.culpritsLock.RLock()
	defer t.culpritsLock.RUnlock()
	return in(id, t.culprits)
}

func (t *TssCommon) processInvalidMsgBlame('''))
K('v culprit check in line', (VT, '''		partyInlist := func(el *btss.PartyID, l []*btss.PartyID) bool {
			for _, each := range l {
				// every message of a batch has its own copy of the party IDs
				if el.Id == each.Id {
					return true
				}
			}
			return false
		}
		t.culpritsLock.RLock()
		if len(t.culprits) != 0 && partyInlist(partyID, t.culprits) {
''', '''		t.culpritsLock.RLock()
		guilty := false
		for i := 0; i < len(t.culprits) && !guilty; i++ {
			guilty = t.culprits[i].Id == partyID.Id
		}
		if guilty {
'''))
K('v result constructor', (VY, '''			return keysign.Response{
				Status: common.Fail,
				Blame:  blameNodes,
			}, nil
		}

		var blameLeader''', '''			return failed(blameNodes), nil
		}

		var blameLeader'''), (VY, '''func (t *TssServer) waitForSignatures(''', '''func failed(b blame.Blame) keysign.Response {
	return keysign.Response{Status: common.Fail, Blame: b}
}

func (t *TssServer) waitForSignatures('''))
K('v subscribe loop', (VY, '''	t.p2pCommunication.SetSubscribe(messages.TSSKeySignMsg, msgID, keySignChannels)
	t.p2pCommunication.SetSubscribe(messages.TSSKeySignVerMsg, msgID, keySignChannels)
	t.p2pCommunication.SetSubscribe(messages.TSSControlMsg, msgID, keySignChannels)
	t.p2pCommunication.SetSubscribe(messages.TSSTaskDone, msgID, keySignChannels)

	defer func() {
		t.p2pCommunication.CancelSubscribe(messages.TSSKeySignMsg, msgID)
		t.p2pCommunication.CancelSubscribe(messages.TSSKeySignVerMsg, msgID)
		t.p2pCommunication.CancelSubscribe(messages.TSSControlMsg, msgID)
		t.p2pCommunication.CancelSubscribe(messages.TSSTaskDone, msgID)

''', '''	kinds := []messages.THORChainTSSMessageType{messages.TSSKeySignMsg, messages.TSSKeySignVerMsg, messages.TSSControlMsg, messages.TSSTaskDone}
	for _, kind := range kinds {
		t.p2pCommunication.SetSubscribe(kind, msgID, keySignChannels)
	}

	defer func() {
		for _, kind := range kinds {
			t.p2pCommunication.CancelSubscribe(kind, msgID)
		}

'''))
K('v strings builder', (VV, '''	keyAccumulation := ""
	sort.Strings(keys)
	for _, el := range keys {
		keyAccumulation += el
	}
	dat = append(dat, []byte(keyAccumulation)...)
	return common.MsgToHashString(dat)
''', '''	sort.Strings(keys)
	var all strings.Builder
	all.Write(dat)
	for i := range keys {
		all.WriteString(keys[i])
	}
	return common.MsgToHashString([]byte(all.String()))
'''))
K('v strings join', (VV, '''	keyAccumulation := ""
	sort.Strings(keys)
	for _, el := range keys {
		keyAccumulation += el
	}
	dat = append(dat, []byte(keyAccumulation)...)
	return common.MsgToHashString(dat)
''', '''	sort.Strings(keys)
	return common.MsgToHashString(append(dat, strings.Join(keys, "")...))
'''))
K('v peer ids helper', (VV, '''		var peersIDStr []string
		for _, el := range peerIDs {
			peersIDStr = append(peersIDStr, el.String())
		}
		onlines, err''', '''		peersIDStr := asStrings(peerIDs)
		onlines, err'''), (VV, '''		var peersIDStr []string
		for _, el := range peersID {
			peersIDStr = append(peersIDStr, el.String())
		}

		return''', '''		peersIDStr := asStrings(peersID)

		return'''), (VV, '''// GetLocalPeerID return''', '''func asStrings(ids []peer.ID) []string {
	out := make([]string, 0, len(ids))
	for i := range ids {
		out = append(out, ids[i].String())
	}
	return out
}

// GetLocalPeerID return'''))
K('v member early return', (VP, '''	if peerGroup.getLeaderResponse().Type == messages.JoinPartyLeaderComm_Success {
		return pIDs, nil
	}
	pc.logger.Error().Msg("leader response with join party timeout")
	return pIDs, ErrJoinPartyTimeout
''', '''	if peerGroup.getLeaderResponse().Type != messages.JoinPartyLeaderComm_Success {
		pc.logger.Error().Msg("leader response with join party timeout")
		return pIDs, ErrJoinPartyTimeout
	}
	return pIDs, nil
'''))
K('v response read once', (VP, '''	if peerGroup.getLeaderResponse() == nil {
		leaderPk''', '''	resp := peerGroup.getLeaderResponse()
	if resp == nil {
		leaderPk'''), (VP, 'onlineNodes := peerGroup.getLeaderResponse().PeerIDs', 'onlineNodes := resp.PeerIDs'), (VP, 'if peerGroup.getLeaderResponse().Type == messages', 'if resp.Type == messages'))
K('v notifier early continue', (VN, '''			if eachSig.GetSignature() != nil {
				verify, err := n.verifySignature(eachSig, msg)
				if err != nil || !verify {
					return false, fmt.Errorf("fail to verify signature: %w", err)
				}
			} else {
				return false, errors.New("keysign failed with nil signature")
			}
''', '''			if eachSig.GetSignature() == nil {
				return false, errors.New("keysign failed with nil signature")
			}
			verify, err := n.verifySignature(eachSig, msg)
			if err != nil {
				return false, fmt.Errorf("fail to verify signature: %w", err)
			}
			if !verify {
				return false, errors.New("fail to verify signature")
			}
'''))
K('v notifier all in helper', (VN, '''		for i := 0; i < len(data); i++ {
			eachSig := data[i]
			msg := n.messages[i]
			if eachSig.GetSignature() != nil {
				verify, err := n.verifySignature(eachSig, msg)
				if err != nil || !verify {
					return false, fmt.Errorf("fail to verify signature: %w", err)
				}
			} else {
				return false, errors.New("keysign failed with nil signature")
			}
		}
		n.resp''', '''		if err := n.verifyAll(data); err != nil {
			return false, err
		}
		n.resp'''), (VN, '''// ProcessSignature is''', '''func (n *Notifier) verifyAll(data []*common.ECSignature) error {
	for i, msg := range n.messages {
		if data[i].GetSignature() == nil {
			return errors.New("keysign failed with nil signature")
		}
		if ok, err := n.verifySignature(data[i], msg); err != nil || !ok {
			return fmt.Errorf("fail to verify signature: %w", err)
		}
	}
	return nil
}

// ProcessSignature is'''))
K('v blame keygen helper', (VK, '''			blameNodesBroadcast, err := blameMgr.GetBroadcastBlame(lastMsg.Type())
			if err != nil {
				tKeyGen.logger.Error().Err(err).Msg("error in get broadcast blame")
			}
			blameMgr.GetBlame().AddBlameNodes(blameNodesBroadcast...)
''', '''			tKeyGen.blameBroadcast(lastMsg)
'''), (VK, '''func (tKeyGen *TssKeyGen) processKeyGen(''', '''func (tKeyGen *TssKeyGen) blameBroadcast(lastMsg btss.Message) {
	blameMgr := tKeyGen.tssCommonStruct.GetBlameMgr()
	nodes, err := blameMgr.GetBroadcastBlame(lastMsg.Type())
	if err != nil {
		tKeyGen.logger.Error().Err(err).Msg("error in get broadcast blame")
	}
	blameMgr.GetBlame().AddBlameNodes(nodes...)
}

func (tKeyGen *TssKeyGen) processKeyGen('''))
K('v keygen finish helper', (VK, '''			keyGenLocalStateItem.LocalData = msg
			keyGenLocalStateItem.PubKey = pubKey
			if err := tKeyGen.stateManager.SaveLocalState(keyGenLocalStateItem); err != nil {
				return nil, fmt.Errorf("fail to save keygen result to storage: %w", err)
			}
			address''', '''			if err := tKeyGen.saveShare(keyGenLocalStateItem, msg, pubKey); err != nil {
				return nil, err
			}
			address'''), (VK, '''func (tKeyGen *TssKeyGen) processKeyGen(''', '''func (tKeyGen *TssKeyGen) saveShare(state storage.KeygenLocalState, share bkg.LocalPartySaveData, pubKey string) error {
	state.LocalData = share
	state.PubKey = pubKey
	if err := tKeyGen.stateManager.SaveLocalState(state); err != nil {
		return fmt.Errorf("fail to save keygen result to storage: %w", err)
	}
	return nil
}

func (tKeyGen *TssKeyGen) processKeyGen('''))
K('v add stream short', (VX, '''	entries, ok := sm.unusedStreams[msgID]
	if !ok {
		entries := []network.Stream{stream}
		sm.unusedStreams[msgID] = entries
	} else {
		entries = append(entries, stream)
		sm.unusedStreams[msgID] = entries
	}
''', '''	sm.unusedStreams[msgID] = append(sm.unusedStreams[msgID], stream)
'''))
K('v file name concatenated', (VL, '''	localFileName := fmt.Sprintf("localstate-%s.json", pubKey)
''', '''	localFileName := "localstate-" + pubKey + ".json"
'''))
K('v hash check switch', (VT, '''	if targetHashValue == hash {
		t.logger.Debug().Msgf("hash check complete for messageID: %v", t.msgID)
		return nil
	}
	return blame.ErrNotMajority
''', '''	switch hash {
	case targetHashValue:
		t.logger.Debug().Msgf("hash check complete for messageID: %v", t.msgID)
		return nil
	default:
		return blame.ErrNotMajority
	}
'''))
K('v worker result switch', (VT, '''		if errUp != nil {
			err := t.processInvalidMsgBlame(round.RoundMsg, round, errUp)
			t.logger.Error().Err(err).Msgf("fail to apply the share to tss")
			continue
		}
		if !accepted {
			t.logger.Error().Msg("the share does not belong to this tss protocol, ignored")
			continue
		}
		// we need to retrieve the partylist again as others may update it once we process apply tss share
		t.blameMgr.UpdateAcceptShare(round, partyID.Id)
''', '''		switch {
		case errUp != nil:
			err := t.processInvalidMsgBlame(round.RoundMsg, round, errUp)
			t.logger.Error().Err(err).Msgf("fail to apply the share to tss")
		case !accepted:
			t.logger.Error().Msg("the share does not belong to this tss protocol, ignored")
		default:
			t.blameMgr.UpdateAcceptShare(round, partyID.Id)
		}
'''))
# decoding over what a variable held before
B('C21', 'y wrapper kept over messages', (VT, '''	for {
		select {
		case <-finishChan:
			return
		case m, ok := <-t.TssMsg:
			if !ok {
				return
			}
			var wrappedMsg messages.WrappedMessage
''', '''	var wrappedMsg messages.WrappedMessage
	for {
		select {
		case <-finishChan:
			return
		case m, ok := <-t.TssMsg:
			if !ok {
				return
			}
'''))
B('C21', 'y confirm decoded over last', (VT, '''		var bMsg messages.BroadcastConfirmMessage
		if err := json.Unmarshal(wrappedMsg.Payload, &bMsg); nil != err {''', '''		bMsg := t.lastConfirm
		if err := json.Unmarshal(wrappedMsg.Payload, &bMsg); nil != err {'''), (VT, '''	finishedPeers               map[string]bool
''', '''	finishedPeers               map[string]bool
	lastConfirm                 messages.BroadcastConfirmMessage
'''))
B('C30', 'y wrapper of the component', ('p2p/communication.go', '''		var wrappedMsg messages.WrappedMessage
		if err := json.Unmarshal(dataBuf, &wrappedMsg); nil != err {''', '''		if err := json.Unmarshal(dataBuf, &c.wrapped); nil != err {'''), ('p2p/communication.go', '''		c.logger.Debug().Msgf(">>>>>>>[%s] %s", wrappedMsg''', '''		wrappedMsg := c.wrapped
		c.logger.Debug().Msgf(">>>>>>>[%s] %s", wrappedMsg'''), ('p2p/communication.go', '''	streamMgr        *StreamMgr
''', '''	streamMgr        *StreamMgr
	wrapped          messages.WrappedMessage
'''))
K('y wrapper emptied for each message', (VT, '''	for {
		select {
		case <-finishChan:
			return
		case m, ok := <-t.TssMsg:
			if !ok {
				return
			}
			var wrappedMsg messages.WrappedMessage
''', '''	var wrappedMsg messages.WrappedMessage
	for {
		select {
		case <-finishChan:
			return
		case m, ok := <-t.TssMsg:
			if !ok {
				return
			}
			wrappedMsg = messages.WrappedMessage{}
'''))
K('y decoding helper', (VT, '''		var bMsg messages.BroadcastConfirmMessage
		if err := json.Unmarshal(wrappedMsg.Payload, &bMsg); nil != err {
			return errors.New("fail to unmarshal broadcast confirm message")
		}
''', '''		bMsg := new(messages.BroadcastConfirmMessage)
		if err := decodeInto(wrappedMsg.Payload, bMsg); nil != err {
			return errors.New("fail to unmarshal broadcast confirm message")
		}
'''), (VT, 't.checkDupAndUpdateVerMsg(&bMsg, peerID)', 't.checkDupAndUpdateVerMsg(bMsg, peerID)'), (VT, 't.processVerMsg(&bMsg, wrappedMsg.MessageType)', 't.processVerMsg(bMsg, wrappedMsg.MessageType)'), (VT, '''func (t *TssCommon) ProcessOneMessage(''', '''func decodeInto(buf []byte, v interface{}) error {
	return json.Unmarshal(buf, v)
}

func (t *TssCommon) ProcessOneMessage('''))
K('y stream map made late', ('p2p/stream_helper.go', '''	entries, ok := sm.unusedStreams[msgID]
''', '''	if sm.unusedStreams == nil {
		sm.unusedStreams = make(map[string][]network.Stream)
	}
	entries, ok := sm.unusedStreams[msgID]
'''))
K('y culprits one by one', (VT, 't.culprits = append(t.culprits, err.Culprits()...)', '''for _, c := range err.Culprits() {
		t.culprits = append(t.culprits, c)
	}'''))
K('y culprits once', (VT, 't.culprits = append(t.culprits, err.Culprits()...)', '''for _, c := range err.Culprits() {
		known := false
		for _, o := range t.culprits {
			known = known || o == c
		}
		if !known {
			t.culprits = append(t.culprits, c)
		}
	}'''))
K('y majority handled by helper', (VT, '''			localCacheItem.Msg = nil
			return t.requestShareFromPeer(localCacheItem, threshold, key, msgType)''', '''			return t.replaceShare(localCacheItem, threshold, key, msgType)'''), (VT, '''func (t *TssCommon) applyShare(''', '''func (t *TssCommon) replaceShare(item *LocalCacheItem, threshold int, key string, msgType messages.THORChainTSSMessageType) error {
	item.Msg = nil
	return t.requestShareFromPeer(item, threshold, key, msgType)
}

func (t *TssCommon) applyShare('''))
K('y decoding helpers everywhere', ('p2p/communication.go', 'if err := json.Unmarshal(dataBuf, &wrappedMsg); nil != err {', 'if err := decodeJSON(dataBuf, &wrappedMsg); nil != err {'), ('p2p/communication.go', """func (c *Communication) readFromStream(""", """func decodeJSON(buf []byte, v interface{}) error {
	if err := json.Unmarshal(buf, v); err != nil {
		return fmt.Errorf("fail to decode: %w", err)
	}
	return nil
}

func (c *Communication) readFromStream("""), ('storage/localstate_mgr.go', 'if err := json.Unmarshal(buf, &localState); nil != err {', 'if err := decode(buf, &localState); nil != err {'), ('storage/localstate_mgr.go', 'func (fsm *FileStateMgr) SaveLocalState(', """func decode(buf []byte, v interface{}) error {
	return json.Unmarshal(buf, v)
}

func (fsm *FileStateMgr) SaveLocalState("""), ('cmd/tss-recovery/tool.go', 'json.Unmarshal(buf, &localState)', 'decode(buf, &localState)'), ('cmd/tss-recovery/tool.go', 'func getTssPubKey(', """func decode(buf []byte, v interface{}) error {
	return json.Unmarshal(buf, v)
}

func getTssPubKey("""), (VT, 'err := json.Unmarshal(wireMsg.Message, &bulkMsg)', 'err := decode(wireMsg.Message, &bulkMsg)'), (VT, 'json.Unmarshal(m.Payload, &wrappedMsg)', 'decode(m.Payload, &wrappedMsg)'), (VT, '''func (t *TssCommon) ProcessOneMessage(''', '''func decode(buf []byte, v interface{}) error {
	if err := json.Unmarshal(buf, v); err != nil {
		return err
	}
	return nil
}

func (t *TssCommon) ProcessOneMessage('''), (VT, '''err := json.Unmarshal(wrappedMsg.Payload, &wireMsg)
''', '''err := decode(wrappedMsg.Payload, &wireMsg)
'''), (VT, '''if err := json.Unmarshal(wrappedMsg.Payload, &wireMsg); nil''', '''if err := decode(wrappedMsg.Payload, &wireMsg); nil'''), (VT, '''if err := json.Unmarshal(wrappedMsg.Payload, &wireMsg); nil''', '''if err := decode(wrappedMsg.Payload, &wireMsg); nil'''))
