package blame

import (
	"os"
	"sync"
	"testing"

	bkg "github.com/binance-chain/tss-lib/ecdsa/keygen"
	btss "github.com/binance-chain/tss-lib/tss"

	"gitlab.com/thorchain/tss/go-tss/conversion"
)

func dMgr(t *testing.T) (*Manager, []*btss.PartyID) {
	os.Setenv("NET", "testnet")
	conversion.SetupBech32Prefix()
	var pks []string
	for i := 0; i < 4; i++ {
		pks = append(pks, conversion.GetRandomPubKey())
	}
	parties, _, err := conversion.GetParties(pks, pks[0])
	if err != nil {
		t.Fatal(err)
	}
	local := parties[0]
	for _, p := range parties {
		if p.Id == "0" {
			local = p
		}
	}
	m := NewBlameManager()
	idm := conversion.SetupPartyIDMap(parties)
	conversion.SetupIDMaps(idm, m.PartyIDtoP2PID)
	pm := new(sync.Map)
	pm.Store("", bkg.NewLocalParty(btss.NewParameters(btss.NewPeerContext(parties), local, 4, 2), nil, nil))
	m.SetPartyInfo(pm, idm)
	return m, parties
}

// the same party misses a share in every message of a batch: it is one culprit, not three
func TestDefectMissingShareCountsCulpritOnce(t *testing.T) {
	m, _ := dMgr(t)
	for _, id := range []string{"a", "b", "c"} {
		m.UpdateAcceptShare(RoundInfo{0, "r", id}, "1")
		m.UpdateAcceptShare(RoundInfo{0, "r", id}, "2")
	}
	nodes, _, err := m.TssMissingShareBlame(1)
	if err != nil || len(nodes) != 1 {
		t.Fatal(len(nodes), err)
	}
}

// a message of the batch whose shares all arrived accuses nobody, and does not hide the culprit of another one
func TestDefectMissingShareOnlyIncompleteMessages(t *testing.T) {
	for i := 0; i < 20; i++ {
		m, parties := dMgr(t)
		for _, id := range []string{"1", "2", "3"} {
			m.UpdateAcceptShare(RoundInfo{0, "r", "complete"}, id)
			if id != "3" {
				m.UpdateAcceptShare(RoundInfo{0, "r", "missing3"}, id)
			}
			if id != "2" {
				m.UpdateAcceptShare(RoundInfo{0, "r", "missing2"}, id)
			}
		}
		nodes, _, err := m.TssMissingShareBlame(1)
		if err != nil {
			t.Fatal(err)
		}
		want := map[string]bool{}
		for _, p := range parties {
			if p.Id == "2" || p.Id == "3" {
				pk, _ := conversion.PartyIDtoPubKey(p)
				want[pk] = true
			}
		}
		got := map[string]bool{}
		for _, n := range nodes {
			got[n.Pubkey] = true
		}
		if len(got) != 2 {
			t.Fatal("blamed", len(got))
		}
		for k := range got {
			if !want[k] {
				t.Fatal("innocent party blamed")
			}
		}
	}
}
