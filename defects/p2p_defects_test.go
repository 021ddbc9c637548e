package p2p

import (
	"encoding/json"
	"errors"
	"sync"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
)

func dPCs(t *testing.T, n int, timeout time.Duration) ([]*PartyCoordinator, []string, string, int) {
	ApplyDeadline = false
	hosts := setupHosts(t, n)
	var pcs []*PartyCoordinator
	var peers []string
	for _, h := range hosts {
		pcs = append(pcs, NewPartyCoordinator(h, timeout))
		peers = append(peers, h.ID().String())
	}
	msgID := conversion.RandStringBytesMask(64)
	leader, err := LeaderNode(msgID, 10, peers)
	if err != nil {
		t.Fatal(err)
	}
	li := 0
	for i, p := range peers {
		if p == leader {
			li = i
		}
	}
	return pcs, peers, msgID, li
}

func TestDefectGroupIsForgotten(t *testing.T) {
	pcs, peers, msgID, li := dPCs(t, 3, 2*time.Second)
	done := make(chan bool, 3)
	for _, pc := range pcs {
		go func(pc *PartyCoordinator) {
			pc.JoinPartyWithLeader(msgID, 10, peers, 2, make(chan string))
			done <- true
		}(pc)
	}
	for range pcs {
		<-done
	}
	for i, pc := range pcs {
		pc.joinPartyGroupLock.Lock()
		if len(pc.peersGroup) != 0 {
			t.Error("group kept after the join party ended, leader:", i == li)
		}
		pc.joinPartyGroupLock.Unlock()
	}
}

func TestDefectRetryEndsWhenAllOnline(t *testing.T) {
	pcs, peers, msgID, _ := dPCs(t, 3, 20*time.Second)
	start := time.Now()
	done := make(chan error, 3)
	for _, pc := range pcs {
		go func(pc *PartyCoordinator) {
			_, err := pc.JoinPartyWithRetry(msgID, peers)
			done <- err
		}(pc)
	}
	for range pcs {
		if err := <-done; err != nil {
			t.Error(err)
		}
	}
	if time.Since(start) > 15*time.Second {
		t.Error("everyone was online, yet the join party used up its whole time")
	}
}

func TestDefectLeaderSignReceived(t *testing.T) {
	pcs, peers, msgID, li := dPCs(t, 3, 10*time.Second)
	sig := make(chan string, 1)
	sig <- "signature received"
	start := time.Now()
	_, _, err := pcs[li].JoinPartyWithLeader(msgID, 10, peers, 2, sig)
	if !errors.Is(err, ErrSignReceived) {
		t.Error(err)
	}
	if time.Since(start) > 5*time.Second {
		t.Error("the leader kept waiting after the signature was there")
	}
}

func TestDefectMemberSignReceived(t *testing.T) {
	pcs, peers, msgID, li := dPCs(t, 3, 10*time.Second)
	sig := make(chan string, 1)
	sig <- "signature received"
	_, _, err := pcs[(li+1)%3].JoinPartyWithLeader(msgID, 10, peers, 2, sig)
	if !errors.Is(err, ErrSignReceived) {
		t.Error(err)
	}
}

func TestDefectUnknownStreamsAreForgotten(t *testing.T) {
	sm := NewStreamMgr()
	sm.AddStream("UNKNOWN", NewMockNetworkStream())
	sm.AddStream("1", NewMockNetworkStream())
	sm.ReleaseStream("1")
	if len(sm.unusedStreams) != 0 {
		t.Error("a stream that was reset is still tracked", len(sm.unusedStreams))
	}
}

func TestDefectStopRemovesHandlers(t *testing.T) {
	pcs, _, _, _ := dPCs(t, 1, time.Second)
	pcs[0].Stop()
	for _, p := range pcs[0].host.Mux().Protocols() {
		if p == string(joinPartyProtocol) || p == string(joinPartyProtocolWithLeader) {
			t.Error("still handled:", p)
		}
	}
}

// a leader that repeats its response must not block the stream handlers of the member
func TestDefectRepeatedResponse(t *testing.T) {
	pcs, peers, msgID, li := dPCs(t, 2, 3*time.Second)
	member, leader := pcs[1-li], pcs[li]
	g, err := member.createJoinPartyGroups(msgID, peers[li], []string{peers[li]}, 1)
	if err != nil {
		t.Fatal(err)
	}
	_ = g
	done := make(chan bool)
	go func() {
		for i := 0; i < 4; i++ {
			leader.sendResponseToAll(&messages.JoinPartyLeaderComm{ID: msgID, PeerIDs: peers}, []peer.ID{member.host.ID()})
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Error("a stream handler of the member is blocked")
	}
}

// A message for a session that no longer reads its channel held its handler for ever.
func TestDefectDeliveryEndsWithTheNode(t *testing.T) {
	ApplyDeadline = false
	c := &Communication{stopChan: make(chan struct{}), subscribers: make(map[messages.THORChainTSSMessageType]*MessageIDSubscriber), subscriberLocker: &sync.Mutex{}, streamMgr: NewStreamMgr()}
	c.SetSubscribe(messages.TSSKeyGenMsg, "id", make(chan *Message))
	raw, _ := json.Marshal(messages.WrappedMessage{MessageType: messages.TSSKeyGenMsg, MsgID: "id"})
	st := NewMockNetworkStream()
	if err := WriteStreamWithBuffer(raw, st); err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	go func() { c.readFromStream(dStream{st}); close(done) }()
	time.Sleep(200 * time.Millisecond)
	c.CancelSubscribe(messages.TSSKeyGenMsg, "id")
	close(c.stopChan)
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("the handler is still blocked")
	}
}

type dConn struct{ network.Conn }

func (dConn) RemotePeer() peer.ID { return "remote" }

type dStream struct{ *MockNetworkStream }

func (dStream) Conn() network.Conn { return dConn{} }
