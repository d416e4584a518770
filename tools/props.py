#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties is kept here, one call per property)."""
import json, os
OUT = []
S = "signer/"
C = "cmd/horcrux/cmd/"


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    OUT.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


P("C01", "The last-signed record only moves forward, and as one record",
  "Whenever a last-signed record is updated, the new (height, round, step) is strictly greater, in lexicographic order, than the one it replaces. "
  "Recording an equal or lower position changes nothing in memory or on disk and returns an error, and an equal position is distinguishable from a regression. "
  "Height, round, step, signature and signed bytes are replaced together and come from the same signing event.",
  ["inputs", "histories"], "every record ever offered, in every order, on every record the process keeps (share, validator, initiated)",
  "The tests save a few increasing positions and a regression or two; the order must hold for every pair of positions.",
  [S + "sign_state.go", S + "local_cosigner.go", S + "threshold_validator.go"],
  [("Save: less-or-equal check then field stores", S + "sign_state.go"), ("GetErrorIfLessOrEqual", S + "sign_state.go")],
  [("SignState.Height/Round/Step/Signature/SignBytes", "what was last signed", S + "sign_state.go")],
  ["stores to the fields of a SignState", "return of Save"])

P("C02", "A key share never signs below its watermark",
  "A cosigner produces a signature share over some bytes only if the (height, round, step) decoded from those very bytes is not below the position it last signed, whatever position the accompanying request claims. "
  "Bytes that do not decode as a canonical proposal, prevote or precommit are never signed, and after a share has been produced the watermark is at the position that was signed.",
  ["inputs", "histories"], "every sign request (any bytes, any claimed position) after every history of requests",
  "A test sends a handful of well-formed requests in order; a regression needs only one ordering of one field to be missed.",
  [S + "local_cosigner.go", S + "sign_state.go", S + "Serialization.go"],
  [("CheckHRS before SignWithShare", S + "local_cosigner.go"), ("UnpackHRST of the bytes to be signed", S + "Serialization.go")],
  [("LocalCosigner.lastSignState", "share watermark", S + "local_cosigner.go")],
  ["the call that applies the key share to a message"])

P("C03", "What was signed is on disk before the signature leaves",
  "Before a cosigner or a validator hands out a new signature or signature share, the last-signed record that covers its (height, round, step) has been written to its state file, by an atomic and synced replacement, by the same request. "
  "A record that could not be written is never silently accepted: the process stops or the request fails, and every acknowledged change of a last-signed record was written out before the acknowledgement.",
  ["crash_points", "schedules", "fault_sequences"], "a crash, a write error or a concurrent request at any point between signing and answering",
  "Tests never crash the process between signing and writing, nor make the write fail, and a write in the background wins the race in a test.",
  [S + "sign_state.go", S + "local_cosigner.go", S + "threshold_validator.go"],
  [("save() before Save returns", S + "sign_state.go"), ("tempfile.WriteFileAtomic", S + "sign_state.go")],
  [("<chain>_share_sign_state.json, <chain>_priv_validator_state.json", "persisted records", "state directory")],
  ["return of SetEphemeralSecretPartsAndSign, SignVote, SignProposal, Save"])

P("C04", "A position is signed twice only if nothing but the timestamp differs",
  "When a cosigner is asked to sign at exactly the position it last signed, it signs different bytes only if they decode to the same message as the recorded bytes except for the timestamp; byte-identical requests may be answered with the recorded signature. "
  "Any other difference (block ID, type, POL round, chain ID) and any bytes that cannot be compared are refused without signing.",
  ["inputs"], "every pair of recorded and requested bytes at the same height, round and step",
  "The tests compare a few hand-made votes; the comparison has to cover every field of both message types.",
  [S + "sign_state.go", S + "local_cosigner.go"],
  [("OnlyDifferByTimestamp / proto.Equal", S + "sign_state.go")], (),
  ["the call that applies the key share to a message"])

P("C05", "Shared signing state is only touched under its mutex, atomically",
  "Every access to a last-signed record, to the record of initiated attempts, to the one-time nonce metadata and to the replicated key-value store that other goroutines can reach is made while holding the one mutex that protects it. "
  "The decision to sign or to record a position and the update that follows from it happen in one critical section, so no interleaving of requests can act on a stale watermark.",
  ["schedules"], "every interleaving of sign requests, peer requests, replicated events and state reads",
  "A test exercises few interleavings and the race detector only sees those.",
  [S + "local_cosigner.go", S + "threshold_validator.go", S + "sign_state.go", S + "raft_store.go"],
  [("lastSignStateMutex, lastSignStateInitiatedMutex, RaftStore.mu", S)], (),
  ["loads and stores of the shared fields and maps"])

P("C06", "A reported signature is valid for exactly the requested bytes",
  "A threshold signing call that reports success returns a non-empty signature that the node verified, against the validator's public key, over exactly the bytes it was asked to sign, or a recorded one whose recorded bytes are identical to the request, or the one its leader returned for the forwarded request. "
  "A call that reports an error returns no signature, and no signature that was not verified over the bytes it is recorded with is ever recorded or announced to the cluster.",
  ["inputs", "fault_sequences"], "every request, and every combination of missing, late or wrong shares from peers",
  "Tests combine honest shares; a wrong share, a cached neighbour or an odd error path needs a specific history.",
  [S + "threshold_validator.go", S + "sign_state.go"],
  [("VerifySignature before Save", S + "threshold_validator.go"), ("bytes.Equal with the cached sign bytes", S + "threshold_validator.go")], (),
  ["return of SignVote, SignProposal, SignBlock"])

P("C07", "A sign request is coordinated under its own position, bytes and chain",
  "For every vote or proposal, the height, round, step (proposal, prevote or precommit according to its type) and timestamp under which the cluster coordinates the signature, and the bytes that are signed, are those of that very message under the chain ID of the request. "
  "The message handed back carries the signature that was made and otherwise the same content.",
  ["inputs"], "every vote and proposal, every chain ID",
  "Tests use one height/round and a couple of types; a swapped or truncated field stays invisible.",
  [S + "threshold_validator.go", S + "sign_state.go"],
  [("SignVote / SignProposal build the Block", S + "threshold_validator.go"), ("VoteToStep, ProposalToStep", S + "sign_state.go")], (),
  ["cosigner calls, forwarded requests and records made by SignVote / SignProposal"])

P("C08", "Only the raft leader coordinates a signature, followers forward",
  "A node starts collecting ephemeral shares or key-share signatures, or records or announces a signature, for a block request only after it has found itself to be the raft leader in that request. "
  "A node that is not the leader forwards the request unchanged to the current leader and returns the leader's answer or an error; before raft is running, requests are refused.",
  ["schedules", "fault_sequences"], "every leadership change at every point before the check, every request",
  "Tests run with one fixed leader; the rule must hold on every path into the signing procedure.",
  [S + "threshold_validator.go", S + "raft_events.go", S + "raft_store.go"],
  [("raft.State() check at the head of SignBlock", S + "threshold_validator.go"), ("LeaderSignBlock", S + "raft_events.go")], (),
  ["cosigner calls made by SignBlock"])

P("C09", "One signing attempt per position",
  "The leader asks cosigners to sign for a position only if it has just recorded, in the same request, that it starts working on that position and that position was higher than every one it started before, or if a signature for the same position exists already and the new bytes differ from the signed ones in nothing but the timestamp. "
  "In every other case (lower position, same position still in progress, conflicting bytes) it answers with the existing signature or an error, without contacting cosigners.",
  ["schedules", "histories"], "every order and overlap of requests from several sentries and followers",
  "Two sentries asking for the same block at the same moment is a matter of timing that tests do not control.",
  [S + "threshold_validator.go"],
  [("SaveLastSignedStateInitiated", S + "threshold_validator.go"), ("getExistingBlockSignature", S + "threshold_validator.go")],
  [("ThresholdValidator.lastSignStateInitiated", "highest position work was started on", S + "threshold_validator.go")],
  ["cosigner calls made by SignBlock"])

P("C10", "Only authentic ephemeral shares from known cosigners enter a nonce",
  "A cosigner stores an ephemeral share and its public key for a peer only if the peer is a configured cosigner and its RSA signature over source ID, ephemeral public key and encrypted share was verified successfully, with that peer's key, for exactly the values that are used; the stored share is the decryption of the signed ciphertext. "
  "The values are stored in the slot of the peer that signed them, under the position of the request, and the bytes a cosigner signs when it sends a share cover the same three values.",
  ["inputs"], "every message a peer or an attacker on the network can send, including parts of one message mixed with parts of another",
  "Tests only send honest messages; a forged one has to be imagined for each unchecked field.",
  [S + "local_cosigner.go"],
  [("rsa.VerifyPSS in setEphemeralSecretPart", S + "local_cosigner.go"), ("rsa.SignPSS in getEphemeralSecretPart", S + "local_cosigner.go")], (),
  ["stores to the per-peer nonce metadata"])

P("C11", "Secrets leave a cosigner only encrypted to their addressee",
  "Each dealt ephemeral share that is sent out is encrypted with the RSA key of the very peer whose share index it is and which the message names as destination. "
  "The key share, the RSA private key, ephemeral secrets and plaintext shares are never part of a response, log or error message, and are written only to key files readable by their owner alone.",
  ["inputs", "configurations"], "every peer, every request, every log and error path",
  "Tests check that decryption works, not who else could read it, and do not look at logs.",
  [S + "local_cosigner.go", S + "cosigner_key_shares.go", S + "cosigner_key.go"],
  [("rsa.EncryptOAEP with the key of req.ID", S + "local_cosigner.go"), ("file mode of key files", S + "cosigner_key_shares.go")], (),
  ["arguments of encryption, logging, formatting and file writing calls"])

P("C12", "A signing nonce is fresh, includes our own secret, and is used once",
  "Each key-share signature uses a nonce whose metadata was created for exactly the (height, round, step, timestamp) decoded from the signed bytes, from fresh cryptographic randomness whose failure aborts, and it includes the signer's own ephemeral share. "
  "Metadata created for one key is never stored under another one, never replaced while it exists, and is discarded when it has been used, so no secret nonce takes part in two signatures.",
  ["histories", "inputs"], "every sequence of share exchanges and sign requests, including repeated and reordered ones",
  "Nonce reuse does not change a test's verdict: all the signatures are valid while the private key leaks.",
  [S + "local_cosigner.go"],
  [("dealShares", S + "local_cosigner.go"), ("hrsMeta keyed by HRST", S + "local_cosigner.go")],
  [("LocalCosigner.hrsMeta", "one-time nonce metadata", S + "local_cosigner.go")],
  ["insertions, lookups and deletions in the nonce metadata, arguments of the signing call"])

P("C13", "Signed positions are replicated to both records of every node",
  "After the leader has made and recorded a new signature, it announces the position, signature and signed bytes to the cluster before answering, and every node that applies such an announcement offers exactly the announced record to both its validator record and its key-share record. "
  "Replicated set and delete commands otherwise change exactly the named key, announcements are not retained as values, snapshots contain every retained key, and restoring one replaces the whole store.",
  ["histories", "fault_sequences"], "every replicated command sequence, on every node, including restarts from snapshots",
  "The tests set and delete one key on one node and never apply an announcement from a log.",
  [S + "raft_events.go", S + "raft_store.go", S + "threshold_validator.go"],
  [("handleLSSEvent", S + "raft_events.go"), ("Emit(raftEventLSS)", S + "threshold_validator.go"), ("fsm Apply/Snapshot/Restore", S + "raft_store.go")], (),
  ["fsm Apply, Snapshot, Restore; raft Apply"])

P("C14", "Requests and answers cross the wire between cosigners unchanged",
  "A cosigner or leader called over the network acts on exactly the position, timestamp, sign bytes, chain ID and secret parts the caller passed, and the caller gets exactly the signature, ephemeral key and secret parts that were returned, for every field and every list element. "
  "Errors on either side are reported as errors, never as an empty success, and all server implementations of the protocol behave alike.",
  ["inputs"], "every field of every request and response",
  "The tests wire cosigners together in one process, so the network conversions never run.",
  [S + "remote_cosigner.go", S + "grpc_server.go", S + "cosigner_grpc_server.go", S + "Cosigner.go", S + "raft_events.go"],
  [("toProto / FromProto converters", S + "Cosigner.go")], (),
  ["arguments of the generated client and of the local cosigner; returned messages"])

P("C15", "Each sentry request gets the matching answer",
  "Every request a sentry sends is answered with one response of the matching kind: a vote or proposal is returned with its signature only if signing that very message, under the configured chain ID, succeeded; otherwise the response carries the error and no signature. "
  "Public key requests return the validator's key or the error, pings are answered, and unknown requests get an empty response without ending the connection.",
  ["inputs"], "every message a sentry can send and every outcome of signing it",
  "There is no test of the sentry protocol.",
  [S + "remote_signer.go", S + "Serialization.go"],
  [("handleRequest and its handlers", S + "remote_signer.go")], (),
  ["messages written to the sentry connection"])

P("C16", "All sentries of a process share one serialized signer",
  "Every sentry connection of a signer process, in single and in cosigner mode, gets the same guarded validator, and all its operations run one at a time under one mutex that is held for the whole operation. "
  "The guard passes requests and results through unchanged.",
  ["schedules", "configurations"], "every number of sentries and every interleaving of their requests",
  "No test connects two sentries.",
  [S + "PvGuard.go", S + "remote_signer.go", C + "cosigner.go", C + "signer.go"],
  [("PvGuard", S + "PvGuard.go"), ("StartRemoteSigners", S + "remote_signer.go")], (),
  ["calls of the underlying validator"])

P("C17", "A restart never forgets what was signed",
  "A cosigner starts only if its key-share record for the configured chain could be loaded, and uses it as its watermark; it is never created or reset at start. "
  "An existing record file that cannot be loaded is never replaced by an empty one: only a missing or empty file is initialized, and the single signer also starts from the persisted state of its chain whenever there is one.",
  ["crash_points", "configurations", "histories"], "every content of the state directory at start",
  "Starting is not tested, and a damaged state file needs a crash at the wrong moment.",
  [C + "cosigner.go", C + "signer.go", S + "sign_state.go"],
  [("LoadSignState for the share state", C + "cosigner.go"), ("LoadOrCreateSignState", S + "sign_state.go"), ("loadFilePV", C + "signer.go")], (),
  ["construction of the local cosigner and of the validators"])

P("C18", "Only a validated configuration is written",
  "Whenever a config command writes the configuration file, the peers in it have distinct share IDs within 1..shares and leave room for the local node, every chain node address parses, and (at init) there is a chain ID, the threshold does not exceed the number of cosigners and the timeout parses; a command that fails validation changes neither the file nor the configuration in memory. "
  "init never overwrites an existing file unless told to.",
  ["inputs", "configurations"], "every argument list on every existing configuration",
  "Table tests cover some invalid arguments per command, not each rule on each path that writes.",
  [C + "config.go"],
  [("validateCosignerConfig, validateCosignerPeers, validateChainNodes", C + "config.go")], (),
  ["writes of config.yaml and assignments to the loaded configuration"])

P("C19", "Shares are only dealt and used with a safe threshold",
  "Key shares are dealt only for a number of shares that fits the 8-bit share index and a threshold that is more than half of it and does not exceed it, and a cosigner starts only with a threshold in the same range and with share IDs within the number of cosigners, distinct from its own. "
  "No count or ID changes its value when it is converted for the threshold library.",
  ["inputs", "configurations"], "all thresholds, numbers of shares and configured IDs, including zero, negative and very large ones",
  "Tests use 2-of-3 and the like.",
  [S + "cosigner_key_shares.go", C + "cosigner.go", C + "key2shares.go"],
  [("range checks before tsed25519.DealShares", S + "cosigner_key_shares.go"), ("checks before NewLocalCosigner", C + "cosigner.go")], (),
  ["arguments of DealShares, construction of the local cosigner"])

P("C20", "Each key share file belongs to one cosigner and is read back as written",
  "The i-th dealt share is stored with ID i, the i-th RSA private key, the public keys of all cosigners in the order of their IDs and the validator's public key, and is written to its own file; a peer's RSA key is looked up by that peer's ID when a cosigner starts. "
  "The key file writer and reader use the same fields and encodings, and a key file that cannot be fully decoded is an error.",
  ["inputs", "configurations"], "every number of shares; every key file",
  "One golden key file is loaded in the tests; nothing checks the pairing of shares, IDs and RSA keys.",
  [S + "cosigner_key_shares.go", S + "cosigner_key.go", C + "cosigner.go", C + "key2shares.go"],
  [("CreateCosignerShares", S + "cosigner_key_shares.go"), ("MarshalJSON / UnmarshalJSON", S + "cosigner_key.go")], (),
  ["constructed CosignerKey values, arguments of the key file writer, peers given to the local cosigner"])

P("C21", "Every remote call and wait is bounded and cleaned up",
  "Every call to another node carries a deadline, every connection opened for it is closed and every context released on all paths, including errors; waiting for cosigners, for a leader or for a block in progress, and every loop on the way of a request, ends after a bounded time. "
  "A silent or dead peer can therefore delay a request but never block a signer for ever.",
  ["fault_sequences", "schedules"], "every peer failing at every point of every call",
  "Tests run with responsive in-process cosigners.",
  [S + "remote_cosigner.go", S + "raft_events.go", S + "threshold_validator.go", C + "leader_election.go"],
  [("getContext with rpcTimeout", S + "remote_cosigner.go"), ("waitUntilCompleteOrTimeout", S + "threshold_validator.go")], (),
  ["network calls, channel operations, waits and loops on the request path"])

P("C22", "No request can leave a mutex locked or deadlock",
  "Every mutex a request acquires is released exactly once on every path out, including errors; no path acquires a mutex it already holds; and mutexes are acquired in an order that has no cycle. "
  "No mutex that protects signing state, or the data that a request's own goroutines collect, is held during a network call, a sleep or a wait for other goroutines; the one mutex that only makes sign requests queue (PvGuard) is outside of this last rule.",
  ["schedules", "fault_sequences"], "every path through every request handler, every interleaving",
  "An early return that keeps a lock is only seen when a later request hangs.",
  [S + "local_cosigner.go", S + "threshold_validator.go", S + "sign_state.go", S + "raft_store.go", S + "PvGuard.go"],
  [("Lock with deferred Unlock", S)], (),
  ["Lock and Unlock calls"])

P("C23", "Remote input cannot crash a signer",
  "No message from a sentry or another cosigner, however malformed, can make the process panic or exit through an explicit panic, an unchecked type assertion, or a use of an absent part of the message; such input is answered with an error. "
  "The only deliberate stops on a request path are those for local state that cannot be written or is inconsistent.",
  ["inputs"], "every decodable message from the network",
  "Tests send well-formed messages only.",
  [S + "remote_signer.go", S + "threshold_validator.go", S + "local_cosigner.go", S + "Serialization.go", S + "grpc_server.go", S + "sign_state.go"],
  [("type checks before VoteToStep / CanonicalVoteToStep", S)], (),
  ["panics reachable from the request handlers"])

P("C24", "A sentry connection is re-dialled after any failure and never leaked",
  "The sentry loop keeps serving as long as the service runs: any dial, handshake, read or write error leads to a new connection attempt, after a pause for failed dials and handshakes. "
  "Every connection it opened is closed exactly when it is given up (error or shutdown), and no closed or missing connection is ever read or written.",
  ["fault_sequences", "histories"], "every sequence of dial, handshake, read and write outcomes and of shutdown points",
  "There is no test of the reconnect loop.",
  [S + "remote_signer.go"],
  [("ReconnRemoteSigner.loop", S + "remote_signer.go")], (),
  ["dial, handshake, read, write and close calls of the loop"])

P("C25", "A node serves peers and sentries only when fully wired",
  "When a cosigner process starts its raft/gRPC service, the validator, local cosigner and peers it serves are already set, and sentries are connected only after that; services that were started are stopped at shutdown. "
  "A failure to set up or start a part ends the start instead of continuing without it.",
  ["schedules", "fault_sequences"], "every timing of early requests from peers during start, every start failure",
  "A request that arrives within the first milliseconds of a restart is not something a test produces.",
  [C + "cosigner.go", S + "raft_store.go", S + "services.go", S + "remote_signer.go"],
  [("order of NewRaftStore, SetThresholdValidator, Start, StartRemoteSigners", C + "cosigner.go")], (),
  ["Start calls in the cosigner command"])

P("C26", "Operator state changes cannot lower or silently skip the watermark",
  "The state set command refuses to act while a signer is running and otherwise offers the given height to both the validator record and the key-share record of the configured home and chain, through the same forward-only check as signing; success is reported only if both were written. "
  "The state show command never changes anything.",
  ["inputs", "histories"], "every height, every existing pair of records",
  "One height is set on fresh records in the tests.",
  [C + "state.go", S + "sign_state.go"],
  [("setStateCmd", C + "state.go")], (),
  ["state files written by the state commands"])

P("C27", "Changing the chain ID keeps each chain's watermarks",
  "Changing the configured chain ID moves the sign state files of this node to the new chain ID before the configuration names it, or fails leaving configuration and files as they were; it never overwrites the sign state of another chain. "
  "All commands derive the state file names of a chain in the same way.",
  ["configurations", "fault_sequences"], "every content of the state directory, every failing step",
  "The test renames once, in a clean directory.",
  [C + "config.go", C + "cosigner.go", C + "state.go", C + "signer.go"],
  [("setChainIDCmd", C + "config.go")], (),
  ["renames and config writes of the chain-id command; state file paths of all commands"])

P("C28", "All key material comes from cryptographic randomness",
  "Every random value that ends up in keys, shares or nonces, and every random source given to a cryptographic primitive, is the operating system's cryptographic generator, its errors abort the operation, and the whole buffer is filled. "
  "RSA keys are generated with at least 2048 bits.",
  ["inputs"], "every place that creates secrets",
  "Weak randomness passes every functional test.",
  [S + "local_cosigner.go", S + "cosigner_key_shares.go"],
  [("crypto/rand", S)], (),
  ["random sources and their consumers"])

P("C29", "Shares are combined under the IDs of the cosigners that made them",
  "A threshold signature is assembled only from at least threshold signature shares, each used with the share index of the cosigner that produced it, and with the ephemeral public key reported by this node's own cosigner in the same round. "
  "Each participating cosigner is given only ephemeral parts addressed to it that come from cosigners taking part in the same signature.",
  ["schedules", "fault_sequences"], "every subset and order of responding cosigners",
  "Tests answer in one order with all cosigners honest and alive.",
  [S + "threshold_validator.go"],
  [("waitForPeerSetEphemeralSharesAndSign, CombineShares", S + "threshold_validator.go")], (),
  ["arguments of CombineShares and of the cosigner calls"])

P("C30", "The raft cluster consists of exactly the configured cosigners",
  "Every cosigner identifies itself in the raft cluster by the ID of its key share and its configured listen address, and bootstraps the cluster with itself and each configured peer, under that peer's own ID and address, as voters, and with nobody else. "
  "Its raft log, votes and snapshots are kept in files of their own in the raft directory under its home, and no start of the node removes, replaces or redirects them.",
  ["configurations", "histories"], "every configuration of cosigners (any IDs, any subset order), every restart",
  "Tests open one node without peers, once.",
  [S + "raft_store.go", C + "cosigner.go"],
  [("RaftStore.Open", S + "raft_store.go"), ("StartCosignerCmd", C + "cosigner.go")], (),
  ["servers of the bootstrap configuration, local ID and stores of raft, file removals on the way of a start"])

P("C31", "A config command changes only the setting it was told to",
  "Every config command leaves all settings but its own as they were in the configuration file: adding chain nodes or peers keeps every configured entry and adds each named one that was not configured, removing them takes away exactly the named ones, and the chain ID or number of shares becomes the one given. "
  "init writes the values it was given. A command reports success only after the configuration was written to the file in the home directory.",
  ["inputs", "configurations"], "every configuration and every argument list",
  "Tests run each command on a few configurations and compare one file.",
  [C + "config.go"],
  [("addNodesCmd, removeNodesCmd, addPeersCmd, removePeersCmd, setSharesCmd, setChainIDCmd, initCmd", C + "config.go")], (),
  ["configurations marshalled by the commands, field by field and list element by list element"])

P("C32", "A signer reports the identity of the key it signs with",
  "The address, public key, valcons address and valcons public key that the address command prints are those of the validator public key in the key share file that this node is configured to use, encoded in the usual form and with exactly the bech32 prefix the operator gave, and the command succeeds only if it printed them. "
  "The public key a running cosigner answers with is the one stored in the key share file it was started with, and never changes.",
  ["inputs", "configurations"], "every key share file, configuration and prefix",
  "No test runs the address command, and the tests make validators from a key directly instead of from a file.",
  [C + "cosigner.go", S + "Config.go", S + "threshold_validator.go"],
  [("AddressCmd", C + "cosigner.go"), ("PubKey", S + "Config.go"), ("NewThresholdValidator, GetPubKey", S + "threshold_validator.go")], (),
  ["fields of the printed document, answer of GetPubKey"])

P("C33", "Leadership moves only to the cosigner the operator named",
  "The elect command asks the cosigners of its configuration, all of them whose address can be used, and among them the one that reports to be the raft leader, to elect exactly the ID the operator gave, or the next candidate if none was given, and reports success only if that was accepted. "
  "A cosigner that serves such a request moves leadership to the peer with that very ID; it moves it to another candidate only if no ID was given, and answers with an error if the ID names none of its peers.",
  ["inputs", "configurations"], "every ID, every configuration of cosigners",
  "No test runs the command or a transfer to a named cosigner.",
  [C + "leader_election.go", S + "grpc_server.go", S + "cosigner_grpc_server.go", S + "raft_store.go"],
  [("leaderElectionCmd", C + "leader_election.go"), ("TransferLeadership", S + "grpc_server.go"), ("leaderhealth.Setup", S + "raft_store.go")], (),
  ["request and target of the elect command, transfers started by the servers"])

P("N01", "At most one leader acts at a time across the cluster",
  "At any time the cluster agrees on at most one leader per term and on one order of replicated commands, across partitions, crashes and restarts.",
  ["schedules", "fault_sequences", "histories"], "every partition and crash history of the cluster",
  "Tests run a single node or a healthy in-process cluster.",
  [S + "raft_store.go"], [("hashicorp/raft", S + "raft_store.go")])

P("N02", "Signing goes on with up to n - t failed cosigners",
  "While at least threshold cosigners and a raft majority are alive and connected, a sign request is answered with a valid signature within the sentry's timeout.",
  ["fault_sequences", "schedules"], "every set of failed nodes and every timing",
  "The docker tests cover two scenarios.",
  [S + "threshold_validator.go", S + "raft_store.go"], [("timeouts and raft fail-over", S)])

P("N03", "Threshold signatures equal ordinary Ed25519 signatures",
  "Any threshold shares of a key combine to a signature that verifies under the original public key, and fewer than threshold shares reveal nothing about it.",
  ["inputs"], "all keys, messages, nonces and subsets of shares",
  "Tests check some random instances.",
  [S + "local_cosigner.go", S + "threshold_validator.go"], [("threshold-ed25519 arithmetic", S)])

P("N04", "Persisted files decode to the value that was encoded",
  "Decoding a sign state, key share or configuration file yields exactly the value that was encoded into it.",
  ["inputs"], "all values",
  "Tests round-trip a few values.",
  [S + "sign_state.go", S + "cosigner_key.go", C + "config.go"], [("tmjson, encoding/json, yaml", S)])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for o in OUT:
        assert len(o["title"]) <= 80, o["title"]
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
