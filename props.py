# Source of properties.jsonl and MANIFEST.json (python3 mk.py).
P = []


def prop(id, title, statement, over, quant, why, files, mech, note=None, technique=None, na=None, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, note=note, technique=technique, na=na, observe=observe, state=state))


prop("C01", "A share has no effect unless its owner's signature checks out",
     "A key-generation or signing message received from the network is applied to the local computation, remembered as received, confirmed or announced to others, kept for handing to others, or counted as activity of its sender only if its signature, over the exact content and the session id, verifies under the public key of the committee member the message names as its owner. This holds for messages arriving directly and for messages handed over by another member on request. Outgoing messages carry the local node's own signature over their exact content and the session id.",
     ["inputs", "histories"], "every inbound message (any bytes, any claimed owner, direct or forwarded), in every order",
     "Tests feed a few well-formed or single-field-corrupted messages; whether any code path lets an unverified message through is a statement about all paths.",
     ["common/tss.go", "common/tss_helper.go", "blame/round_mgr.go", "blame/manager.go"],
     [("signature check before processing", "common/tss.go processTSSMsg"), ("signature over content||session id", "common/tss_helper.go verifySignature/generateSignature")],
     note="All paths of the inbound loop are covered by an over-approximating path-sensitive dataflow; trusts the signature scheme and the SSA construction; conflates two messages of the same type handled in one iteration except for cached ones.",
     technique="path-sensitive interprocedural typestate/dominance analysis over SSA",
     observe=["common.TssCommon inbound message loop"])

FLOW = "path-sensitive interprocedural typestate/dataflow analysis over SSA"
NOTE = "Every path of the anchored functions is covered by an over-approximating dataflow over SSA; loops and unknown calls are abstracted, interface calls are not resolved. Trusts the SSA construction and the modelled library calls."

prop("C02", "The shares of a batch count only as shares of the verified sender",
     "A signed message carries a batch of shares, one per parallel computation. Every single share of the batch is applied as coming from exactly the party, and by exactly the delivery mode (broadcast or unicast), of the verified outer message: whatever sender or mode the share itself claims, a share whose own routing disagrees with the outer message is never handed to a computation. It is applied only to the computation its identifier names, with its own bytes.",
     ["inputs"], "every batch content, in particular batches whose inner routing differs from the signed outer routing",
     "Tests send batches whose inner routing always agrees; that no share of any batch escapes the comparison is a statement about every path through the loop and the worker.",
     ["common/tss.go"], [("batch loop", "common/tss.go updateLocal"), ("share worker", "common/tss.go doTssJob")], note=NOTE, technique=FLOW)

prop("C03", "A broadcast share is applied only with consensus on its content",
     "A broadcast key-generation or signing message is applied only after at least threshold committee members are recorded as holding it, at least threshold-1 of them agree on one hash, and that hash is the hash of the very content that is applied; an entry made by the message's own owner never counts. Without enough confirmations nothing is applied; with a majority for another hash the local copy is discarded and never applied, and it does not matter which route (direct, forwarded, confirmation arriving first or last) leads there.",
     ["histories", "inputs", "schedules"], "every order and content of messages and confirmations",
     "Tests walk a handful of orders with fixed hashes; the guard must hold on every path that reaches the application of a broadcast share.",
     ["common/tss.go", "common/tss_helper.go", "messages/p2p_message.go"],
     [("consensus check", "common/tss.go hashCheck/getMsgHash/applyShare"), ("majority hash", "common/tss_helper.go getHighestFreq"), ("cache key", "messages/p2p_message.go GetCacheKey")],
     note=NOTE + " The numeric value of the threshold itself is not checked.", technique=FLOW)

prop("C04", "One confirmation per committee peer, attributed to its connection",
     "A confirmation of a broadcast message counts only if it arrives over the authenticated connection of a committee member; it is attributed to that connection's peer, never to an identity stated in the content; the first confirmation of a peer for a message stands and cannot be replaced by later ones of the same peer.",
     ["inputs", "histories"], "every confirmation message from every peer in every order",
     "Tests use well-formed confirmations from committee peers; attribution must hold for any content on every path that records a vote.",
     ["common/tss.go", "common/tss_helper.go"], [("committee test and duplicate test", "common/tss.go ProcessOneMessage/checkDupAndUpdateVerMsg"), ("record", "common/tss_helper.go UpdateConfirmList")], note=NOTE, technique=FLOW)

prop("C05", "Each share is applied at most once, and none of a known culprit",
     "For every sender, round and computation at most one share is handed to the computation, no matter how often it is repeated in one message or over several messages; a share is recorded as accepted (once the computation took it) under its round, its computation and its sender, and a rejected or ignored share is not recorded; records of one sender never displace those of another. All members a computation has found guilty are recorded, and no further share of theirs is handed to any computation.",
     ["inputs", "histories"], "every sequence of (possibly repeated or malformed) batches",
     "Tests send at most one repeat in one position; that every application is dominated by the duplicate and culprit tests is a statement about all paths.",
     ["common/tss.go", "blame/manager.go"], [("duplicate test", "common/tss.go updateLocal, blame/manager.go CheckMsgDuplication"), ("record", "blame/manager.go UpdateAcceptShare"), ("culprits", "common/tss.go processInvalidMsgBlame")], note=NOTE, technique=FLOW)

prop("C06", "A private share goes to its addressee only",
     "A share with addressees is sent to the peers of exactly those parties of its own routing and to nobody else; only a share without addressees goes to the whole committee. Unicast shares wait for sending grouped by type and addressee and never together with broadcasts. A received unicast share is never kept for re-serving to other members, never enters the cache of broadcast messages, and is neither confirmed nor announced to others.",
     ["inputs", "histories"], "every produced or received share, every order",
     "Tests check recipients for one share; privacy needs every send and every store on every path.",
     ["common/tss.go", "common/tss_helper.go"], [("recipients", "common/tss.go sendBulkMsg"), ("unicast shortcut", "common/tss.go processTSSMsg"), ("grouping", "common/tss.go ProcessOutCh")], note=NOTE, technique=FLOW)

prop("C07", "Missing shares are exchanged only on request and as requested",
     "A message handed over by another member is processed only if its content has exactly the hash it is handed over for and the local node has a pending request for that hash, which is thereby used up; a reply with any other content leaves the request pending. A request asks for the majority's hash, is noted as pending before it is sent, and goes only to peers that confirmed this hash. A request is answered only to the requesting peer, with the stored message of the requested key, and not at all if there is none.",
     ["inputs", "histories"], "every request and reply, solicited or not, in every order",
     "Tests exercise one matching and one unmatched reply; unsolicited processing must be impossible on every path.",
     ["common/tss.go", "common/tss_helper.go", "blame/share_mgr.go", "blame/round_mgr.go"], [("reply handling", "common/tss.go ProcessOneMessage"), ("request", "common/tss.go requestShareFromPeer"), ("answer", "common/tss_helper.go processRequestMsgFromPeer")], note=NOTE, technique=FLOW)

prop("C31", "Outgoing batches are complete, uniform and sent once",
     "Every share a computation produces is filed with its own bytes, its own routing and the identifier of its own computation, under its type (and addressee if unicast), without losing shares filed before. A batch is sent only when it holds as many shares as the session has computations, under the round name of the type it is filed under, with the routing of one of its own shares; and a batch that was sent is removed from its list so that it is not sent again, while one that could not be sent is kept.",
     ["inputs", "schedules"], "every number of parallel computations and every order in which they produce shares",
     "Tests run one or two computations in the natural order; completeness has to hold for any interleaving.",
     ["common/tss.go"], [("filing and flushing", "common/tss.go ProcessOutCh"), ("sending", "common/tss.go sendBulkMsg")], note=NOTE, technique=FLOW)

prop("C08", "Blame falls only on those it can be put on, with their own evidence",
     "The blame a failed request is answered with names the right nodes. The evidence that goes with a blamed node is the content and the signature of one recorded message, which that very node sent, or empty; messages are recorded under their own sender, round and kind. Missing in a round are exactly the members of the committee, other than the node itself, whose message of that round is not on record: all of them are blamed and nobody else. Those guessed from private shares of the last round, or from the first round a message misses shares in, count only if there is one and there are no more than the threshold; the latter only while nobody is blamed yet. Nobody who was blamed is taken off the record again; it is answered whole, and a reason recorded first is kept. A session whose party did not form blames exactly those asked that did not show up, or the leader.",
     ["inputs", "histories"], "every committee, every set of messages that did or did not arrive, every order of failures, every culprit list",
     "Tests stop one or two fixed nodes of four in a fixed round; whom a rare mixture of present and absent shares points at, and whose bytes are given as proof, is never seen.",
     ["blame/policy.go", "blame/policy_helper.go", "blame/blame.go", "blame/types.go", "blame/manager.go", "common/tss.go", "conversion/conversion.go", "keygen/tss_keygen.go", "keysign/tss_keysign.go", "tss/keygen.go", "tss/keysign.go"],
     [("evidence", "common/tss.go processInvalidMsgBlame, applyShare, processTSSMsg; blame/policy.go TssWrongShareBlame"), ("who is missing", "blame/policy.go GetUnicastBlame, GetBroadcastBlame, TssMissingShareBlame, tssTimeoutBlame; blame/policy_helper.go"), ("a session that timed out", "keygen/tss_keygen.go processKeyGen; keysign/tss_keysign.go processKeySign"), ("a party that did not form", "blame/policy.go NodeSyncBlame; tss/keygen.go, tss/keysign.go")],
     note=NOTE + " That tss-lib names the right culprits is assumed.", technique=FLOW)

prop("C09", "Key generation success means the matching key share was saved",
     "Key generation answers with a status other than failure only after the share this very run produced has been saved without error, under its own public key, with the participants of the request and the local node's key; the public key in the answer was derived, without error, from that same share. If producing, saving or deriving fails, the answer is a failure or an error.",
     ["histories", "fault_sequences"], "every way a key generation can end, in particular with an error at any step",
     "Tests observe successful runs; that no error path reports success needs every path from the request to the answer.",
     ["tss/keygen.go", "keygen/tss_keygen.go"], [("answer", "tss/keygen.go Keygen"), ("saving", "keygen/tss_keygen.go processKeyGen")], note=NOTE, technique=FLOW)

prop("C14", "A finished session leaves nothing registered",
     "However a key generation or signing request ends, every subscription it made is cancelled for the same message type and session, the streams kept for the session are released by every component that may hold some, the peer group of its party is dropped, and the notifier waiting for its signature is removed.",
     ["histories"], "every return of the two request entry points, of the party forming and of the wait for a signature",
     "Tests do not inspect what is left behind on error paths.",
     ["tss/keygen.go", "tss/keysign.go", "p2p/party_coordinator.go", "keysign/signature_notifier.go"], [("cleanup", "tss/keygen.go, tss/keysign.go deferred functions"), ("peer group", "p2p/party_coordinator.go"), ("notifier", "keysign/signature_notifier.go WaitForSignature")], note=NOTE, technique=FLOW)

prop("C21", "A message is sent and taken as the type and round it is",
     "Everything a session sends carries the session's id and the type of its content: shares the type of the session's protocol, a confirmation that of the protocol of the share it confirms, a request names the type of the missing share, a notice of being done is one. A session starts only when it is subscribed, under its id and with its own channel, to shares and confirmations of its protocol, requests and notices. The content of an incoming message is decoded as what its type says, for every type, and nothing of another message is left in it. The round of a share has the name of its kind in the protocol library and its position in the protocol, below the number of rounds; unknown kinds give an error. Blame for bad or missing shares is marked as about private ones exactly in the rounds that may be (keygen: bad in the second or third, missing in the second; signing: the first five), and the private round before a broadcast one is the right one.",
     ["inputs", "histories"], "every message type, every kind of message of both protocols, every path on which something is sent or decoded",
     "Tests only see the kinds and types of undisturbed runs; a wrong round or type matters in the rare runs where shares are missing, bad or asked for again.",
     ["common/tss.go", "common/tss_helper.go", "messages/TssPhaseMessages.go", "messages/p2p_message.go", "blame/policy.go", "conversion/conversion.go", "keygen/tss_keygen.go", "keysign/tss_keysign.go", "tss/keygen.go", "tss/keysign.go"],
     [("rounds", "common/tss_helper.go GetMsgRound, checkUnicast; messages/TssPhaseMessages.go; blame/policy.go TssMissingShareBlame; conversion/conversion.go GetPreviousKeySignUicast"), ("types", "common/tss.go ProcessOneMessage, requestShareFromPeer, getBroadcastMessageType, sendBulkMsg; common/tss_helper.go"), ("subscriptions", "tss/keygen.go, tss/keysign.go")],
     note=NOTE + " A kind is named like its Go type, as the library does.", technique=FLOW)

prop("C23", "Each request is counted once, as what it was",
     "From the point where the party is being formed, every key generation or signing request is counted exactly once when it ends: as a success exactly if the key generation returned no error, respectively if the answer returned to the caller has the status success. The forming of the party is counted at most once, as success only after it succeeded and as failure only after it failed. Each counter is incremented once, under the label of its outcome.",
     ["histories"], "every way a request can end",
     "Tests do not read the counters on every path.",
     ["tss/keygen.go", "tss/keysign.go", "monitor/metric.go"], [("counting", "tss/keygen.go Keygen, tss/keysign.go KeySign"), ("counters", "monitor/metric.go")], note=NOTE, technique=FLOW)

prop("C11", "Signatures received from others are taken only when all verify",
     "A list of signatures received from another node reaches a waiting signing request only if it has exactly one entry per requested message and, for every position, the R and S of the entry verify against the requested message of that position under the public key of the pool the request is for. The waiting request is the one registered for the session the notification names. Waiting for signatures returns without error only such a list.",
     ["inputs"], "every notification content: missing, additional, nil, reordered or forged signatures",
     "Tests send one valid and a few invalid signatures; acceptance must be impossible on every other path.",
     ["keysign/notifier.go", "keysign/signature_notifier.go"], [("verification", "keysign/notifier.go ProcessSignature, verifySignature"), ("dispatch", "keysign/signature_notifier.go handleStream"), ("wait", "keysign/signature_notifier.go WaitForSignature")], note=NOTE + " Trusts ecdsa.Verify.", technique=FLOW)

prop("C12", "A successful signing pairs each requested message with its own signature",
     "A signing request is answered with success only with signatures that were produced by the local computations, or received and verified, without error, one for each message of the request: one computation is created for every message, with that message and the key share of the requested pool key; the result is used only when there are as many signatures as messages; messages and signatures are put into the same order before they are matched by position; and in the answer each message stands next to the R, S and recovery id of the signature at its own position.",
     ["inputs", "schedules"], "every list of messages (repeated, of any length) and every order in which computations finish",
     "Tests sign one or a few distinct messages and check that a signature verifies; pairing for every order and every error path is a statement about all paths.",
     ["tss/keysign.go", "keysign/tss_keysign.go", "keysign/response.go"], [("ordering", "tss/keysign.go KeySign, keysign/tss_keysign.go SignMessage"), ("collection", "keysign/tss_keysign.go processKeySign"), ("answer", "tss/keysign.go batchSignatures")], note=NOTE, technique=FLOW)

prop("C10", "A saved key share is read back whole, under its own key, by its owner only",
     "Saving a key share succeeds only if the whole given state (public key, share, participants, local key) was written without error to a file named by the folder and the full public key alone, readable and writable by the owner only, replacing older content. Reading a share succeeds only with the unchanged, fully decoded content, and nothing besides, of the file of exactly the requested key, the same file that saving uses. Both refuse a key that is not a point of the curve, before they touch a file.",
     ["inputs", "histories"], "every key, every state and every error of the file system",
     "Tests save and read one share in one folder; that no error path reports success and no two keys share a file is a statement about all inputs and paths.",
     ["storage/localstate_mgr.go", "conversion/conversion.go"], [("saving and reading", "storage/localstate_mgr.go SaveLocalState, GetLocalState"), ("key check", "conversion/conversion.go CheckKeyOnCurve")], note=NOTE + " What encoding/json and the file system do with the bytes is trusted; a crash in the middle of a write is not covered.", technique=FLOW)

prop("C28", "The address book gives back the addresses it was given",
     "Saving the address book succeeds only after it wrote, for every peer given, every address of that peer except loopback addresses (127.0.0.1), one line each of the form address/p2p/peer with the peer the address belongs to. Reading it uses the same file, turns every non-empty line into an address and returns exactly those, or fails if one line is not an address. The file is written under the exclusive lock and read under the lock. At its start the server contacts the saved peers as well as the configured ones, and the configured ones alone if the book cannot be read.",
     ["inputs"], "every set of peers and addresses",
     "Tests use one small book; completeness and pairing must hold for any.",
     ["storage/localstate_mgr.go", "tss/tss.go"], [("address book", "storage/localstate_mgr.go SaveAddressBook, RetrieveP2PAddresses"), ("bootstrap", "tss/tss.go NewTss")], note=NOTE, technique=FLOW)

prop("C24", "Key shares and private keys stay inside the node",
     "Nothing the node writes to its log, prints, reports as an error or metric, answers over HTTP or sends to other nodes contains a private key, a key share, the secret part of its preparation, the text a private key was read from, or anything computed from these other than the public key and signatures; and a file that contains one can be read by its owner only.",
     ["inputs", "histories"], "every log line, error, answer, message and file of the node on every path, also on error paths and at any log level",
     "A secret in a log line or an error does not make any test fail, and mostly sits on paths tests do not take.",
     ["tss/tss.go", "storage/localstate_mgr.go", "conversion/key_provider.go", "keygen/tss_keygen.go", "keysign/tss_keysign.go", "p2p/communication.go", "common/tss.go", "cmd/tss/main.go"],
     [("secrets", "types PrivKey, LocalPartySaveData, LocalPreParams, KeygenLocalState; conversion.GetPriKey"), ("places that give away", "zerolog, fmt, errors, http, the queue of outgoing messages, streams, files")],
     note="Information flow through values only: what timing or control flow discloses is not covered, nor what the protocol library does with the share. The recovery tool (C25) and the benchmarks are left out.", technique="flow-insensitive interprocedural taint analysis (field-based) over go/ssa")

prop("C25", "The recovery tool gives away only the pool's key, and only encrypted if exported",
     "The recovery tool prints or exports a reconstructed private key only after every key file was read and decoded without error and the public key computed from the key equals the public key stored in a loaded share. Every loaded share takes part with its own number and value. The exported file is readable by its owner only and holds the key encrypted with the given password: the recorded salt, initial vector, iteration count and key length are those used, salt and vector are fresh random bytes, the cipher text is that of the key, and the MAC covers bytes 16 to 32 of the derived key and the cipher text. The tool reads a share's fields under the names the signer stores them under.",
     ["inputs"], "every set of key files and every error of a step",
     "The tool has no tests; that no path gives away a wrong key is a statement about all of them.",
     ["cmd/tss-recovery/tss-recovery.go", "cmd/tss-recovery/tool.go", "cmd/tss-recovery/key.go"], [("reconstruction", "cmd/tss-recovery/tss-recovery.go main"), ("encryption", "cmd/tss-recovery/key.go exportKeyStore")], note=NOTE, technique=FLOW)

prop("C27", "The HTTP interface passes requests and answers through unchanged",
     "A key generation or signing request over HTTP reaches the signer exactly once, as decoded from the body, and only if it is a POST with a decodable body; other methods are answered 405 and undecodable bodies 400, with nothing else and without calling the signer. A failed signing, or an answer that cannot be encoded, is answered 500 without content; otherwise the JSON of the signer's own answer is written. Every route leads to its own operation and accepts its own method only. The server starts the signer before it listens and reports a failure to start; stopping it stops the listener and the signer. By default it listens on the loopback interface only.",
     ["inputs"], "every HTTP request and every outcome of the signer",
     "Tests send a few requests to a mock signer; the pairing of request, outcome and answer must hold on every path.",
     ["cmd/tss/tss_http.go", "cmd/tss/main.go"], [("handlers", "cmd/tss/tss_http.go keygenHandler, keySignHandler"), ("routes", "cmd/tss/tss_http.go tssNewHandler")], note=NOTE, technique=FLOW)

prop("C16", "The same request gives every node the same session, leader and parties",
     "Nodes need not be given the keys and messages of a request in the same order. The ID a session runs under (keygen and keysign) is the SHA-256 hash of all keys of the request, and for a signature also of all its messages, each list sorted before it is read, and of nothing else (no local, random or time-dependent value). The leader chosen for a message ID, height and set of peers is the peer with the least hash of exactly message ID, height and the peer itself, over all peers of the set. The parties of a committee are exactly one for each key, made of that key and named by its place in the sorted list, whatever order the keys came in, and are returned in the order the library sorts them to; the local party is the one made for the local key, and there is no committee without it.",
     ["inputs"], "every request, every set of peers and every order they are given in",
     "Nodes that disagree on any of these never meet, and no single-node test can see it; a test samples one order.",
     ["tss/tss.go", "common/tss_helper.go", "p2p/leader_provider.go", "conversion/conversion.go"], [("session", "tss/tss.go requestToMsgId"), ("leader", "p2p/leader_provider.go LeaderNode"), ("parties", "conversion/conversion.go GetParties")], note=NOTE, technique=FLOW)
prop("C17", "Stream frames are whole, exact and limited in size",
     "Reading a message from a stream returns without error only the exact content of one frame: a header of four bytes read in full, decoded as a little-endian length that is at most 20000000, and that many bytes read in full from the same stream; no buffer is allocated for a longer one. Writing writes the header with the length of the given message, then that message, flushes it, and reports every failure. Each happens only after its deadline was set without error (unless deadlines are switched off). Nothing else in the repository writes to a stream.",
     ["inputs"], "every content of a stream, every length and every error of it",
     "Tests read a few frames; a lying header, a short read or a failed write may come at any point.",
     ["p2p/stream_helper.go"], [("framing", "p2p/stream_helper.go ReadStreamWithBuffer, WriteStreamWithBuffer")], note=NOTE + " io.ReadFull, bufio and the stream deadlines are trusted.", technique=FLOW)

prop("C26", "A message is sent to each addressed peer, once, and to nobody else",
     "Every message put into the broadcast queue is handed, with its own content, peers and message ID, to Broadcast before the next one is taken, until the component stops. Broadcast, and the two broadcasts of the signature notifier, open for every given peer other than the own host one stream to that peer, for their own protocol and for a bounded time, and write the given message to it; a failure for one peer does not keep the others from it. A notification carries its message ID, all signatures in order, and the status success exactly if it has signatures. A node that produced the signatures tells all key holders under the session ID before it answers; one whose signing failed tells them of the failure.",
     ["inputs", "schedules"], "every list of peers, every content and every failure of a stream",
     "Tests send to a few reachable peers; completeness must hold for every list and failure.",
     ["p2p/communication.go", "keysign/signature_notifier.go", "tss/keysign.go"], [("queue and fan-out", "p2p/communication.go ProcessBroadcast, Broadcast"), ("notifier", "keysign/signature_notifier.go"), ("handing out", "tss/keysign.go generateSignature")], note=NOTE, technique=FLOW)

prop("C30", "An incoming message reaches only the session it is for, with its true sender",
     "A message read from a stream is put only into the channel registered for the message type and message ID decoded, without error, from the bytes of that read; it carries exactly these bytes and the remote peer of the stream's own connection, and it is put there whenever such a channel exists. Subscribing sets exactly the entry of its type and message ID, cancelling deletes exactly that entry, looking up reads exactly that entry, and a type disappears only when no entry is left for it. Key generation and signing subscribe their own channel for all message types of theirs, under their own session ID, before they form the party.",
     ["inputs", "histories"], "every received frame and every history of subscriptions",
     "Tests register a few subscribers and messages; that no other session is reached holds over every content and history.",
     ["p2p/communication.go", "p2p/message_id_subscriber.go", "tss/keygen.go", "tss/keysign.go"], [("dispatch", "p2p/communication.go readFromStream"), ("registry", "p2p/communication.go SetSubscribe, CancelSubscribe, getSubscriber; p2p/message_id_subscriber.go"), ("sessions", "tss/keygen.go, tss/keysign.go")], note=NOTE, technique=FLOW)

prop("C29", "Every stream is given back and every handler removed",
     "Every stream a component opens for a session is filed with its stream manager under that session's ID (or reset) before the operation ends, whether sending succeeded or not; every incoming stream is filed under the ID decoded without error from it, or as UNKNOWN, before its handler ends or waits for a channel. Filing keeps all streams filed before, under this ID and others. Releasing an ID takes the streams of that ID and the UNKNOWN ones, and no others, out of the manager under its lock and resets every one of them even if one reset fails; every component passes its release on to its own manager. Stopping the party coordinator removes the handlers it set; stopping the network closes the host, then the stop channel, and waits for its workers; stopping the server stops running requests and both components, even after an error.",
     ["histories"], "every error of a stream and every history of filing and releasing",
     "Tests do not see a stream that leaks on an error path.",
     ["p2p/stream_helper.go", "p2p/communication.go", "p2p/party_coordinator.go", "keysign/signature_notifier.go", "tss/tss.go"], [("manager", "p2p/stream_helper.go StreamMgr"), ("filing", "p2p/communication.go writeToStream, readFromStream; p2p/party_coordinator.go; keysign/signature_notifier.go"), ("stopping", "Stop of Communication, PartyCoordinator, TssServer")], note=NOTE + " A stream whose opening completes in the very moment its time limit expires is exempt.", technique=FLOW)

prop("C15", "A party is formed only of peers that joined it",
     "A join request marks as online exactly the remote peer of its own connection, only in the group of the message ID it names and only if that group knows the peer; a new group knows every peer of the request but the node itself, all offline. A leader's response counts only if it came over the connection of that group's leader. Forming a party succeeds: for the leader, with the online peers and itself, if these are more than the threshold, after every other peer was told exactly this list as a success (if they are fewer, after all were told of the timeout, it fails); for a member, with exactly the peers of its leader's response of type success, of at least the threshold; without a leader, with the online peers and itself, if these are as many as all peers, after the peers were asked and answered. If the finished signature arrives first, the attempt ends as such. The sessions form their party with the peers of all participants, their own height and threshold (all but one for a key, the pool's for a signature), use the leader exactly for versions that have one, start work only after the party was formed, and sign with exactly the peers that came online, the node itself among them.",
     ["inputs", "histories", "schedules"], "every order of requests, responses, timeouts and signatures, every set of peers",
     "Tests form a few parties of four nodes; that no peer gets in without having joined must hold for every message and order.",
     ["p2p/party_coordinator.go", "p2p/peer_status.go", "tss/tss.go", "tss/keygen.go", "tss/keysign.go"], [("recording", "p2p/party_coordinator.go HandleStream, HandleStreamWithLeader; p2p/peer_status.go"), ("forming", "p2p/party_coordinator.go JoinPartyWithLeader, JoinPartyWithRetry"), ("use", "tss/tss.go joinParty, tss/keygen.go, tss/keysign.go")], note=NOTE + " A goroutine is analysed as if it ran to its end where it is started; that the leader's list is right is the leader's word.", technique=FLOW)

prop("C20", "Shared state is accessed under its lock, and every lock is given back",
     "The mutable state that the goroutines of a node share (culprits, routing and received-message tables of a session, the blame record and its share, round and acceptance tables, join-party groups and who joined them, open streams, subscriptions, waiting signature requests) is read and written, maps included, only while the lock of the same object that protects it is held, for writing when it is written; it is updated from what was read or tested only within one holding of that lock, and no protected map is handed out to be used without it. Every lock taken is released on every path, the early and failing ones included, and released only if held in that mode; no lock is taken that may be held already, directly or further down the call chain, no two locks are ever taken in both orders, and no channel is waited for while such a lock is held.",
     ["schedules", "histories"], "every interleaving of the goroutines of a node, every path through every function",
     "The race detector sees only the interleavings a test happens to run; a lock left held on a rare error path, or taken in the other order, hangs a node only once.",
     ["common/tss.go", "common/tss_helper.go", "blame/manager.go", "blame/share_mgr.go", "blame/round_mgr.go", "p2p/peer_status.go", "p2p/stream_helper.go", "p2p/communication.go", "p2p/message_id_subscriber.go", "p2p/party_coordinator.go", "keysign/notifier.go", "keysign/signature_notifier.go", "tss/tss.go"],
     [("locks", "every sync.Mutex and sync.RWMutex of the repository"), ("protected fields", "table and inference in the rule, DESIGN.md")],
     note="Lockset dataflow over SSA with locks named by access path; objects are told apart by path, not by aliasing; calls through interfaces are not followed. Two locks are held across waits on purpose: the one serialising key generations, and that of the signature notifier, whose channels have room for their one answer. State handed between goroutines by channel or before they start is not covered.",
     technique="interprocedural lockset and lock-order dataflow analysis over SSA")

prop("C19", "Every wait of a node has an end",
     "Whatever other nodes do or fail to do, no part of a node waits for ever: every select that may block can be left by a time limit, or, in a goroutine of its own, by a channel that whoever started and awaits it closes on every path (failures included) before awaiting it, and once left that way it is not entered again. A channel that ends one goroutine's wait is closed by the other on every path through it. No channel is closed twice on a path or by two goroutines, or sent to after it was closed. A plain send has room or a sure receiver (the channel is made long enough for all sends there can be, counted over all goroutines), a plain receive a sure sender. Opening a stream, connecting, pinging, reading an answer and shutting down are limited in time, and a loop that sleeps is ended by a count or by a channel being closed. The workers of a batch of shares end whether the batch is accepted or not.",
     ["schedules", "histories", "inputs"], "every behaviour of the other nodes, every interleaving and every error path",
     "A goroutine that hangs on a rare path, or a second close, shows only in the one schedule that takes it; tests run a few.",
     ["keygen/tss_keygen.go", "keysign/tss_keysign.go", "keysign/notifier.go", "keysign/signature_notifier.go", "common/tss.go", "p2p/party_coordinator.go", "p2p/peer_status.go", "p2p/communication.go", "tss/keysign.go"],
     [("limits of the sessions", "keygen/tss_keygen.go processKeyGen, keysign/tss_keysign.go processKeySign, keysign/signature_notifier.go WaitForSignature"), ("joining a party", "p2p/party_coordinator.go"), ("workers", "common/tss.go updateLocal, p2p/communication.go")],
     note="Waits are decided one by one: that a time limit is as long as configured, and the sum of repeated waits, are not bounded. Channels are told apart by where they are made or by the field they are kept in. Waiting for locks is C20, for goroutines C33. The queue of outgoing messages is assumed to be drained; tss-lib's own channels and the benchmark programs are outside.",
     technique="path-sensitive dataflow and typestate analysis of channels over SSA, over all goroutines that share one")

prop("C33", "Concurrent work is joined before its results are used",
     "While a goroutine that was started may still be running, the function that started it neither reads a variable the goroutine writes nor changes one it uses, and no two goroutines that may run at the same time use a variable one of them writes, unless atomically, under a common lock, or as elements of a slice at their own positions; in particular no goroutine started in a loop uses a variable the next round changes. A goroutine is over only when the group it belongs to has been waited for, or its closing message received. A goroutine that belongs to a group tells its end exactly once on every path, is counted before it starts and not by itself, as many are counted as started on every path, and a group is waited for.",
     ["schedules"], "every interleaving of the goroutines of every function",
     "The race detector sees only the interleavings of a test run, and most results are there in time by luck.",
     ["tss/keysign.go", "p2p/party_coordinator.go", "p2p/communication.go", "keysign/signature_notifier.go", "keysign/tss_keysign.go", "keygen/tss_keygen.go", "common/tss.go"],
     [("waiting and generating side by side", "tss/keysign.go KeySign"), ("fan-out", "p2p/communication.go, p2p/party_coordinator.go, keysign/signature_notifier.go"), ("workers", "common/tss.go updateLocal")],
     note="Covers variables of functions that goroutines capture or get the address of; state behind pointers is C20. A goroutine that a failing session leaves behind on purpose (key generation and signing return an error without waiting) is not a violation unless its variables are used.",
     technique="may-run analysis of goroutines with an effect (read/write set) analysis over SSA")

prop("C22", "A session is set up for exactly the committee it was given",
     "Before any computation of a key generation or signing session starts and before any message is processed, everything that says who takes part has been derived, without error, from the list of keys the session was given: each computation runs among exactly the parties of that list as the party of the local key, with their number, and with the threshold for the number of key holders (the parties when a key is generated, the participants of the loaded share when something is signed), and no two computations share a party object. The session and its blame records hold every party under its own id and, under the same id, the peer made of that party's own key; the peers to tell are those of all parties but the local one. If one party's peer cannot be determined the session fails, and nobody changes these tables afterwards.",
     ["inputs", "configurations"], "every committee: any number, order and content of keys, any pool",
     "Tests run one committee of four with sorted, well-formed keys, where a wrong number, threshold source, left-out party or table of another committee is mostly invisible.",
     ["keygen/tss_keygen.go", "keysign/tss_keysign.go", "conversion/conversion.go", "blame/manager.go", "common/tss.go"],
     [("session setup", "keygen/tss_keygen.go GenerateNewKey, keysign/tss_keysign.go SignMessage"), ("tables", "conversion/conversion.go SetupPartyIDMap, SetupIDMaps, GetPeersID"), ("kept tables", "common/tss.go SetPartyInfo, blame/manager.go SetPartyInfo")],
     note=NOTE + " How a party list is made of keys is C16; the value of the threshold and the conversion of a key into a peer ID by libp2p are trusted.", technique=FLOW)

prop("C32", "A session ends only when every other member reported to be done, or time is up",
     "A node that has its own result (the share; all signatures of the batch) tells all other members so, under the id of the session, and never before it has it; a session that returns a result has told them. It goes on answering until it has seen every other member report the same or its time limit ends, and is stopped earlier only by a failure. A report counts for exactly the peer whose connection it came over, only if it was understood and says so, and once: the session is reported finished at most once, exactly when as many different peers as there are other members have reported.",
     ["histories", "inputs", "schedules"], "every order, repetition and content of the reports of others",
     "Tests deliver each report once and in good form; a report counted twice, for another peer or before the result closes the session (or a closed channel) only in particular histories.",
     ["common/tss.go", "common/tss_helper.go", "keygen/tss_keygen.go", "keysign/tss_keysign.go"],
     [("counting reports", "common/tss.go ProcessOneMessage"), ("telling others", "common/tss_helper.go NotifyTaskDone"), ("waiting for others", "keygen/tss_keygen.go GenerateNewKey, keysign/tss_keysign.go SignMessage")],
     note=NOTE + " That a reporting peer belongs to the committee is not checked by the code (DESIGN.md, section 6).", technique=FLOW)

prop("C18", "Nothing that is missing is used",
     "No input or failure makes a node use something it does not have, or end itself. An optional part of a decoded message (the routing, the sender and the sender's data of a message and of every share in it, an enclosed message, a response) is used only where it was found present; so is an entry of a map, the result of a call that also returned an error or a flag, the result of a function that may return nothing, and a value the code elsewhere takes to be absent at times (the last message a session produced, the message of a cached share, the leader's response, the recorded message of a culprit). A received message is kept only if its routing, sender and sender's data are present. Values of the untyped tables (parties, cached shares) are taken out as the type that is put in. Outside the programs the node neither panics nor exits.",
     ["inputs", "histories"], "every message content, every history of a session and every failing call",
     "Tests send complete messages and let calls succeed; a single absent field on a rare path stops the process.",
     ["common/tss.go", "common/tss_helper.go", "keysign/tss_keysign.go", "keygen/tss_keygen.go", "blame/policy.go", "blame/manager.go", "p2p/party_coordinator.go", "p2p/communication.go", "keysign/notifier.go", "keysign/signature_notifier.go", "conversion/conversion.go", "tss/keysign.go", "tss/keygen.go"],
     [("received messages", "common/tss.go processTSSMsg, updateLocal, ProcessOneMessage"), ("absent records", "common/tss.go processInvalidMsgBlame, applyShare; keygen/tss_keygen.go, keysign/tss_keysign.go on time out"), ("untyped tables", "common/tss.go ProcessOutCh, updateLocal; keysign/tss_keysign.go startBatchSigning; blame/policy.go")],
     note="Path-sensitive and interprocedural by summaries. Assumes objects the node builds itself, and results of libraries that report no error, are complete, and that its tables hold no absent values; positions in lists are not covered.",
     technique="path-sensitive interprocedural nil-ness dataflow over SSA with function summaries")

NAF = ["conversion/conversion.go"]
prop("C40", "The signing threshold tolerates less than a third of the committee",
     "For every committee of n members the threshold is the smallest t with t+1 at least two thirds of n: t+1 members can sign, t cannot, and two groups able to sign always share a member.",
     ["inputs"], "every committee size", "Tests try a few sizes.", NAF, [("threshold", "conversion/conversion.go GetThreshold")],
     na="The claim is about the value floating-point arithmetic and rounding give for every n. A static rule could only compare the expression with one spelling of the formula, which condemns every equivalent rewriting, and evaluating it for chosen n is a test. That every place uses this function, and never a threshold of its own, is decided in C03, C08 and C22.")
prop("C41", "A key or signature that is given out is cryptographically right",
     "A key that key generation returns is one of which every member holds a share that, with the shares of threshold others, signs under it; a signature that signing returns verifies under the pool's key.",
     ["inputs", "schedules"], "every committee, message, randomness and schedule", "Tests sign a few messages.",
     ["keygen/tss_keygen.go", "keysign/tss_keysign.go"], [("protocol", "tss-lib, keygen/tss_keygen.go, keysign/tss_keysign.go")],
     na="This is a theorem about the arithmetic of the threshold protocol inside tss-lib; dataflow does not see it. What this repository does with the protocol's inputs and outputs is decided in C09, C10, C12 and C22.")
prop("C42", "All honest members end a session the same way and in time",
     "If enough members are honest and connected, every one of them ends the session with the same key or signature, or with an error, within the configured time.",
     ["schedules", "crash_points"], "every schedule of messages over every set of nodes", "Tests run four nodes in one process.",
     ["tss/keygen.go", "tss/keysign.go", "p2p/party_coordinator.go"], [("coordination", "p2p/party_coordinator.go; tss/keygen.go; tss/keysign.go")],
     na="Agreement and liveness over several processes depend on message timing, clocks and the network, quantities no static argument over one program's source bounds. The local parts are decided: who may be in a party and what is agreed on (C15, C16, C22), that waiting always ends (C19, C32), confirmations (C03, C04).")
prop("C43", "Identities survive conversion",
     "Converting a member's public key into a peer identity, a party identity or an address and back gives the same key, for every valid key; an invalid one is refused.",
     ["inputs"], "every public key and peer identity", "Tests convert a few keys.",
     ["conversion/conversion.go", "conversion/key_provider.go"], [("conversion", "conversion/key_provider.go; conversion/conversion.go")],
     na="Inverse functions over bech32, protobuf and curve-point encodings of third-party libraries are an equality of computed values; a static rule can only follow which function is applied to which value, which C08, C15 and C22 do where it matters.")
prop("C44", "A crash while state is written leaves the old or the new contents",
     "Whatever moment the process or the machine stops while state is being saved, the next start finds either the previous or the new contents, complete.",
     ["crash_points"], "every crash point of every write", "Tests never crash.",
     ["storage/localstate_mgr.go"], [("writing", "storage/localstate_mgr.go SaveLocalState, SaveAddressBook")],
     na="The files are written in place by ioutil.WriteFile: what survives a crash depends on the file system, which the source does not show, and a rule that demands a temporary file and a rename would only restate one design. What is written before success is reported, and that errors are not lost, is decided in C09.")
