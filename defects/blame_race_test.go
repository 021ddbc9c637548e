package keygen

import (
	"sync"
	"testing"
	"time"

	bkg "github.com/binance-chain/tss-lib/ecdsa/keygen"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/storage"
)

// run with -race: the timeout handler reads the blame while the share workers set it
func TestDefectBlameRace(t *testing.T) {
	k := NewTssKeyGen("me", common.TssConfig{KeyGenTimeout: 5 * time.Millisecond}, "", nil, make(chan struct{}), nil, "id", nil, secp256k1.GenPrivKey(), nil)
	m := k.tssCommonStruct.GetBlameMgr()
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
				m.GetBlame().SetBlame(blame.TssBrokenMsg, nil, true)
			}
		}
	}()
	k.processKeyGen(make(chan struct{}), make(chan btss.Message), make(chan bkg.LocalPartySaveData), storage.KeygenLocalState{})
	close(stop)
	wg.Wait()
}
