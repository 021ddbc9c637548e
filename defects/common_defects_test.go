package common

import (
	"encoding/json"
	"os"
	"sync"
	"testing"

	btsskeygen "github.com/binance-chain/tss-lib/ecdsa/keygen"
	btss "github.com/binance-chain/tss-lib/tss"
	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/golang/protobuf/proto"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
)

// environment with three members whose private keys we hold
func dEnv(t *testing.T) (*TssCommon, []*btss.PartyID, map[string]secp256k1.PrivKey) {
	os.Setenv("NET", "testnet")
	conversion.SetupBech32Prefix()
	var pks []string
	keys := map[string]secp256k1.PrivKey{}
	for i := 0; i < 4; i++ {
		sk := secp256k1.GenPrivKey()
		s, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &coskey.PubKey{Key: sk.PubKey().Bytes()})
		if err != nil {
			t.Fatal(err)
		}
		pks = append(pks, s)
		keys[string(sk.PubKey().Bytes())] = sk
	}
	tc := NewTssCommon("me", nil, TssConfig{}, "id", secp256k1.GenPrivKey(), 1)
	parties, local, err := conversion.GetParties(pks, pks[0])
	if err != nil {
		t.Fatal(err)
	}
	m := conversion.SetupPartyIDMap(parties)
	conversion.SetupIDMaps(m, tc.PartyIDtoP2PID)
	conversion.SetupIDMaps(m, tc.blameMgr.PartyIDtoP2PID)
	ctx := btss.NewPeerContext(parties)
	p := btsskeygen.NewLocalParty(btss.NewParameters(ctx, local, 4, 2), make(chan btss.Message, 100), make(chan btsskeygen.LocalPartySaveData, 10))
	pm := new(sync.Map)
	pm.Store("tester", p)
	tc.SetPartyInfo(&PartyInfo{PartyMap: pm, PartyIDMap: m})
	tc.blameMgr.SetPartyInfo(pm, m)
	byID := map[string]secp256k1.PrivKey{}
	for _, q := range parties {
		byID[q.Id] = keys[string(q.GetKey())]
	}
	return tc, parties, byID
}

func dMsg(t *testing.T, sk secp256k1.PrivKey, r *btss.MessageRouting, bulk interface{}) *messages.WrappedMessage {
	buf, _ := json.Marshal(bulk)
	sig, err := generateSignature(buf, "id", sk)
	if err != nil {
		t.Fatal(err)
	}
	w, _ := json.Marshal(messages.WireMessage{Routing: r, RoundInfo: "r", Message: buf, Sig: sig})
	return &messages.WrappedMessage{MessageType: messages.TSSKeyGenMsg, MsgID: "id", Payload: w}
}

func noPanic(t *testing.T, f func()) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic: %v", e)
		}
	}()
	f()
}

// {"From":{}} decodes to a party id whose embedded pointer is nil
func TestDefectEmptyFromPanics(t *testing.T) {
	tc, _, _ := dEnv(t)
	w := &messages.WrappedMessage{MessageType: messages.TSSKeyGenMsg, Payload: []byte(`{"routing":{"From":{}}}`)}
	noPanic(t, func() { tc.ProcessOneMessage(w, "x") })
}

// entry without routing
func TestDefectEntryNoRoutingPanics(t *testing.T) {
	tc, ps, ks := dEnv(t)
	noPanic(t, func() {
		tc.ProcessOneMessage(dMsg(t, ks[ps[1].Id], &btss.MessageRouting{From: ps[1]}, []BulkWireMsg{{MsgIdentifier: "tester"}}), "x")
	})
}

func round1(t *testing.T, tc *TssCommon, from *btss.PartyID) []byte {
	c := &btsskeygen.KGRound3Message{PaillierProof: [][]byte{{1}, {1}, {1}, {1}, {1}, {1}, {1}, {1}, {1}, {1}, {1}, {1}, {1}}}
	wr := btss.NewMessageWrapper(btss.MessageRouting{From: from, IsBroadcast: true}, c)
	m := btss.NewMessage(btss.MessageRouting{From: from, IsBroadcast: true}, c, wr)
	b, _, err := m.WireBytes()
	if err != nil {
		t.Fatal(err)
	}
	return b
}

// member 1 signs a batch whose entry claims to come from member 2
func TestDefectInnerSenderForged(t *testing.T) {
	tc, ps, ks := dEnv(t)
	w := round1(t, tc, ps[2])
	tc.ProcessOneMessage(dMsg(t, ks[ps[1].Id], &btss.MessageRouting{From: ps[1]}, []BulkWireMsg{{MsgIdentifier: "tester", WiredBulkMsgs: w, Routing: &btss.MessageRouting{From: ps[2], IsBroadcast: true}}}), "x")
	r, err := GetMsgRound(w, ps[2], true)
	if err != nil {
		t.Fatal(err)
	}
	r.MsgIdentifier = "tester"
	if tc.blameMgr.CheckMsgDuplication(r, ps[2].Id) {
		t.Fatal("share accepted in the name of a member who never signed it")
	}
}

// a broadcast-round share sent as a unicast message skips the consistency check
func TestDefectBroadcastAsUnicast(t *testing.T) {
	tc, ps, ks := dEnv(t)
	w := round1(t, tc, ps[1])
	tc.ProcessOneMessage(dMsg(t, ks[ps[1].Id], &btss.MessageRouting{From: ps[1], IsBroadcast: false}, []BulkWireMsg{{MsgIdentifier: "tester", WiredBulkMsgs: w, Routing: &btss.MessageRouting{From: ps[1], IsBroadcast: true}}}), "x")
	r, _ := GetMsgRound(w, ps[1], true)
	r.MsgIdentifier = "tester"
	if tc.blameMgr.CheckMsgDuplication(r, ps[1].Id) {
		t.Fatal("broadcast share applied without confirmation of the committee")
	}
}

// vote of a peer outside the committee
func TestDefectOutsiderVote(t *testing.T) {
	tc, ps, _ := dEnv(t)
	b, _ := json.Marshal(messages.BroadcastConfirmMessage{Key: ps[1].Id + "-r", Hash: "h"})
	tc.ProcessOneMessage(&messages.WrappedMessage{MessageType: messages.TSSKeyGenVerMsg, Payload: b}, "16Uiu2HAmAWKWf5vnpiAhfdSQebTbbB3Bg35qtyG7Hr4ce23VFA8V")
	if it := tc.TryGetLocalCacheItem(ps[1].Id + "-r"); it != nil && it.TotalConfirmParty() != 0 {
		t.Fatal("vote of an outsider counted")
	}
}

func TestDefectUnknownPartyPanics(t *testing.T) {
	tc, ps, _ := dEnv(t)
	q := *ps[1].MessageWrapper_PartyID
	q.Id = "77"
	noPanic(t, func() {
		tc.updateLocal(&messages.WireMessage{Routing: &btss.MessageRouting{From: &btss.PartyID{MessageWrapper_PartyID: &q}}})
	})
}

// a reply that does not carry the requested message must not use up the request
func TestDefectWrongReplyUsesUpRequest(t *testing.T) {
	tc, parties, keys := dEnv(t)
	from := parties[1]
	r := &btss.MessageRouting{From: from, IsBroadcast: true}
	good := dMsg(t, keys[from.Id], r, []BulkWireMsg{NewBulkWireMsg([]byte("x"), "tester", r)})
	var gm messages.WireMessage
	if err := json.Unmarshal(good.Payload, &gm); err != nil {
		t.Fatal(err)
	}
	h, _ := conversion.BytesToHashString(gm.Message)
	tc.blameMgr.GetShareMgr().Set(h)
	buf, _ := json.Marshal(messages.TssControl{ReqHash: h, ReqKey: "k", RequestType: messages.TSSKeyGenMsg, Msg: &messages.WireMessage{Routing: r, Message: []byte("junk")}})
	tc.ProcessOneMessage(&messages.WrappedMessage{MessageType: messages.TSSControlMsg, Payload: buf}, "x")
	if !tc.blameMgr.GetShareMgr().QueryAndDelete(h) {
		t.Fatal("the request is gone")
	}
}

// the tss library reports the culprits of a batch with its own copies of the party IDs
func TestDefectCulpritIsRecognised(t *testing.T) {
	tc, parties, keys := dEnv(t)
	from := parties[1]
	copied := *from
	tc.culprits = append(tc.culprits, &copied)
	r := &btss.MessageRouting{From: from, IsBroadcast: false, To: []*btss.PartyID{parties[0]}}
	vss := btss.NewMessageWrapper(*r, &btsskeygen.KGRound2Message1{Share: []byte{1}})
	buf, err := proto.Marshal(vss)
	if err != nil {
		t.Fatal(err)
	}
	_ = buf
	wb, _, err := btss.NewMessage(btss.MessageRouting{From: from, To: r.To}, &btsskeygen.KGRound2Message1{Share: []byte{1}}, vss).WireBytes()
	if err != nil {
		t.Fatal(err)
	}
	w := dMsg(t, keys[from.Id], r, []BulkWireMsg{NewBulkWireMsg(wb, "tester", r)})
	var wm messages.WireMessage
	json.Unmarshal(w.Payload, &wm)
	if err := tc.updateLocal(&wm); err == nil {
		t.Fatal("a share of a culprit was applied")
	}
}
