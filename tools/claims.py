CLAIM = {
 "C01": "order and completeness of updates of the last-signed record",
 "C02": "position facts at the signing sink",
 "C03": "typestate dirty/written of the last-signed record",
 "C04": "equality facts at the signing sink",
 "C06": "verification and equality facts at return and announcement",
 "C07": "value flow from the message to the coordination sinks",
 "C08": "leader-state facts at cosigner calls, value flow to the forwarded request",
 "C09": "typestate of the attempt record at cosigner calls",
 "C10": "value flow and verification facts at the store of an ephemeral share",
 "C11": "secret-taint analysis to outputs, errors, answers and files",
 "C12": "value flow and typestate of nonce metadata",
 "C29": "pairing facts along the paths of the signing call, approvals at append",
 "C13": "value flow and facts on the paths of announcement, apply, snapshot and restore",
 "C14": "value flow from the parameters to the wire and back, per field and element",
 "C15": "typestate of the sentry connection and value flow from validator to answer",
 "C16": "locks held at validator calls, value flow of the guard",
 "C18": "symbolic forward dataflow over the SSA form of the config commands with facts quantified over list elements (validated, distinct, in range) judged where the configuration is marshalled, and an effect check of the loaded configuration on failing paths",
 "C19": "symbolic forward dataflow over SSA with difference-bound reasoning on thresholds, counts and IDs, judged at the dealing of shares, at every narrowing conversion and where a cosigner starts",
 "C20": "symbolic value flow between the writers and readers of the share files and the key files: content and indices of the JSON pieces, decode errors reported, ids and keys matched by configured ID",
 "C28": "symbolic value flow of random sources and buffers to cryptographic primitives, error facts at use, bit-length bounds",
 "C17": "symbolic value flow and facts from the state files to the records a signer starts with, and at every write of a sign state",
 "C26": "symbolic value flow and facts at every file change reachable from the state commands (process check, loaded record, forward-only position)",
 "C27": "value flow of the state file names in all commands, typestate of moved files against configuration writes and failing returns",
 "C25": "ordering and value-flow facts where services start, coverage of the shutdown callback over every started service, error facts of every set-up step",
 "C24": "typestate of the sentry connection (dialled, secured, failed, closed) along every path of the loop, judged at each dial, use, close and end",
 "C05": "lockset analysis over all entry points: every use of a last-signed record, initiated-attempt record, nonce metadata or the key-value store reachable by another goroutine is made under its one mutex, and check and update share a critical section",
 "C22": "lock typestate and lock-order analysis on every explored path: exact release, no re-acquisition, acyclic order (interface calls resolved), and no blocking call under a state mutex",
 "C23": "may-be-absent dataflow (nil parts of messages, failed results, missing entries, asserted types, positions) over every request handler, judged at each use and at each statement that ends the process",
 "C21": "typestate of contexts and connections at remote calls and path ends, time limits of every blocking operation of a request, loop-bound analysis of every loop on the way of a request",
 "C30": "symbolic value flow from the configured cosigners to the bootstrap configuration (every element of the list covered, nothing else), to raft's local ID and to its stores, and an effect check of file removals at start",
 "C31": "symbolic value flow of every field of the configuration from the loaded one and the arguments to the marshalled one; per-element facts (kept, named, known) over the lists, established through the loops",
 "C32": "backward value flow from each printed field to the decoded key file through all encoders, with exact prefix terms; write-effect query on the field that GetPubKey returns",
 "C33": "value flow of the request and of the dial target from the arguments and the configuration, per-element facts over the peers loop, agreement of the health service name at both ends, path facts at the servers' transfers",
}
NA = {
 "N01": "Raft's safety is a protocol property of hashicorp/raft across processes, crashes and partitions; no static argument over this repository's code reaches it (what the repository contributes, leader checks and the state machine, is C08, C13 and C25).",
 "N02": "Liveness under failures and timing depends on schedulers, networks and timeouts at run time; a static analysis of the source bounds none of them (bounded waits are C21).",
 "N03": "An algebraic property of the external threshold-ed25519 and edwards25519 packages over all scalars; it is not decided by dataflow over this repository (how the repository feeds them is C12, C19, C29).",
 "N04": "Depends on the behaviour of the JSON/YAML codecs over all values; a static rule on this repository's source would be a test of struct tags only.",
}
for p in ["C%02d" % i for i in range(5, 32)]:
    if p not in CLAIM and p not in NA:
        NA[p] = "check under construction"
