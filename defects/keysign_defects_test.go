package keysign

import (
	"encoding/base64"
	"encoding/json"
	"io/ioutil"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	tsslibcommon "github.com/binance-chain/tss-lib/common"
	"github.com/binance-chain/tss-lib/ecdsa/signing"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/storage"
)

func dSig(t *testing.T) (string, []byte, *tsslibcommon.ECSignature) {
	os.Setenv("NET", "testnet")
	conversion.SetupBech32Prefix()
	buf, _ := base64.StdEncoding.DecodeString("yhEwrxWuNBGnPT/L7PNnVWg7gFWNzCYTV+GuX3tKRH8=")
	content, err := ioutil.ReadFile("../test_data/signature_notify/sig1.json")
	if err != nil {
		t.Fatal(err)
	}
	var s signing.SignatureData
	if err := json.Unmarshal(content, &s); err != nil {
		t.Fatal(err)
	}
	return "thorpub1addwnpepq0ul3xt882a6nm6m7uhxj4tk2n82zyu647dyevcs5yumuadn4uamqx7neak", buf, s.GetSignature()
}

// a peer sends more signatures than there are messages
func TestDefectMoreSignatures(t *testing.T) {
	pk, buf, s := dSig(t)
	n, _ := NewNotifier("id", [][]byte{buf}, pk)
	if done, err := n.ProcessSignature([]*tsslibcommon.ECSignature{s, s}); done || err == nil {
		t.Fatal("accepted")
	}
}

// a peer sends fewer signatures than there are messages
func TestDefectFewerSignatures(t *testing.T) {
	pk, buf, s := dSig(t)
	n, _ := NewNotifier("id", [][]byte{buf, []byte("another message that nobody signed")}, pk)
	if done, err := n.ProcessSignature([]*tsslibcommon.ECSignature{s}); done || err == nil {
		t.Fatal("a partial batch was accepted")
	}
}

// the local party never produces a message before the timeout
func TestDefectTimeoutBeforeFirstMessage(t *testing.T) {
	dSig(t)
	k := NewTssKeySign("me", common.TssConfig{KeySignTimeout: 10 * time.Millisecond}, nil, make(chan struct{}), "id", secp256k1.GenPrivKey(), nil, nil, 1)
	k.tssCommonStruct.PartyIDtoP2PID = nil
	_, err := k.processKeySign(1, make(chan struct{}), make(chan btss.Message), make(chan *signing.SignatureData))
	if err == nil {
		t.Fatal("no error")
	}
}

// the parties cannot be mapped to peers
func TestDefectMappingFailureIsAnError(t *testing.T) {
	dSig(t)
	var pks []string
	for i := 0; i < 4; i++ {
		pks = append(pks, conversion.GetRandomPubKey())
	}
	k := NewTssKeySign("me", common.TssConfig{KeySignTimeout: 10 * time.Millisecond}, nil, make(chan struct{}), "id", secp256k1.GenPrivKey(), nil, nil, 0)
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("panic", r)
		}
	}()
	_, err := k.SignMessage(nil, storage.KeygenLocalState{ParticipantKeys: pks, LocalPartyKey: pks[0]}, pks)
	if err == nil {
		t.Fatal("signing nothing is reported as a success")
	}
	_ = strings.Join
	_ = sync.Mutex{}
}
