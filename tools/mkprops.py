#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that long lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Coin is conserved: supply is exactly reward times height",
  "After every change of head, the unspent outputs of all addresses add up (without wrap-around) to exactly the block reward times the height of the head. No transaction or block is accepted whose outputs are worth more than its inputs plus the reward, whatever the amounts, including amounts whose sums exceed 64 bits. A block that claims more or less than the reward plus the fees of its transactions is refused.",
  ["inputs", "histories"], "every history of transactions, blocks and reorganisations, every amount in 0..2^64-1",
  "No existing test builds a block or a ledger at all; amounts near the 64-bit limit and multi-block histories are never reached.",
  ["pkg/core/verify.go", "pkg/core/transaction.go", "internal/chain/state.go"],
  [("block inputs and outputs must match; transactions need a surplus", "pkg/core/verify.go"), ("ledger consumes inputs and adds outputs", "internal/chain/state.go")],
  ["balance, utxo and rich-list queries", "accept/refuse decisions"],
  [("utxos / pkhUtxos", "unspent outputs at the head", "internal/chain/state.go")])
p("C02", "No output is ever spent twice along the chain a node follows",
  "Along the chain of a node's head every output is consumed at most once, by a transaction placed after the one that created it. A block that consumes an output that is missing, already spent on that branch, or listed twice is never followed, and refusing it changes no balance. The same holds on every branch after any reorganisation: an output spent only on an abandoned branch is spendable again.",
  ["histories", "inputs"], "every tree of blocks, order of delivery, and set of conflicting transactions",
  "No existing test advances or rewinds a ledger; conflicts across branches, inside one block and inside one transaction are never exercised.",
  ["internal/chain/state.go", "internal/chain/chain.go", "pkg/core/verify.go"],
  [("availability check of every input when a block is applied", "internal/chain/state.go"), ("overlap check of merkle children", "pkg/core/verify.go")],
  ["validated-head events", "utxo queries", "inventory contents of the followed chain"])
p("C03", "Only the key holder can spend an output",
  "A transaction is admitted only if each of its inputs names an existing output with that output's true amount, reveals the public key whose hash is the output's address, and carries a valid signature of that key for this transaction. Changing what a signed transaction spends, pays or its earliest block without the keys makes it inadmissible. Properly signed transactions with a surplus and within the size limit are admitted.",
  ["inputs"], "every transaction derived from a valid one by altering, adding, swapping or dropping any field, input, output, key or signature",
  "Tests check that one wrong message fails signature verification; no test runs transaction verification.",
  ["pkg/core/verify.go", "pkg/core/crypto.go", "pkg/core/transaction.go"],
  [("signature, key hash and amount checks", "pkg/core/verify.go")],
  ["result of submitting a transaction", "whether the node then knows the transaction"])
p("C04", "Ids commit to the complete content of transactions, merkle nodes and blocks",
  "The id of a transaction, merkle node or block is a fixed function of its content, identical on every node and release (double SHA-256 of the documented composition). Two entities that differ in any field have different ids. An entity's id is unchanged by sending it over the wire, storing it on disk or passing it through JSON.",
  ["inputs"], "every pair of entities differing in one or more fields, including list boundaries, empty lists, extreme integers and byte strings",
  "Existing tests print one hash or compare a record with itself; none compares different contents or pins the rule.",
  ["pkg/core/hasht.go", "pkg/core/block.go", "pkg/core/transaction.go"],
  [("composition of hashes", "pkg/core/hasht.go")], ["ids returned for entities"])
p("C05", "Blocks carry real proof of work under the difficulty rules",
  "A block is accepted only if its id is below its target, where the first block's target is the network's original target, the target is unchanged inside a difficulty period, and at a period boundary it moves at most a factor of 4 either way and never beyond the network's maximum. Blocks that satisfy these and the other block rules are accepted. No header outside these rules is stored, followed or relayed.",
  ["inputs", "histories"], "every header, target, nonce and height, on every chain shape and network parameter set",
  "No test verifies a block.",
  ["pkg/core/verify.go", "pkg/core/hasht.go", "internal/peer/sync.go"],
  [("hash below target; target continuity and 4x clamps", "pkg/core/verify.go"), ("early proof-of-work check of an offered chain", "internal/peer/sync.go")],
  ["whether a block becomes known", "validated-head events"])
p("C06", "Block times are constrained and can never break difficulty computation",
  "A block is accepted only if its time is above the median of its (up to five) predecessors and at most one hour ahead of the clock, and, when it is the last block of a difficulty period, above the time of the first block of that period. Blocks with conforming times are accepted. Consequently no accepted chain makes a node fail when it computes the next target.",
  ["inputs", "histories"], "every sequence of block times on chains of every length and period",
  "No test builds a chain, so neither the median rule nor the period rule is ever evaluated.",
  ["pkg/core/verify.go", "pkg/core/difficulty.go"],
  [("median, future and period time checks", "pkg/core/verify.go")],
  ["whether a block becomes known", "node survives computing a mining target"])
p("C07", "Block structure and size limits are enforced",
  "A block is accepted only if its transactions are all known and reachable from its merkle root, none occurs twice, the first and only the first is a coinbase whose earliest-block field is the block's height, every other transaction is at or past its earliest block, and the total and per-transaction sizes are within the network limits. Blocks up to exactly those limits are accepted. A refused block leaves the node's head and ledger unchanged.",
  ["inputs"], "every block shape: position, number and content of coinbases, merkle tree shapes with repeated nodes, sizes at, below and above each limit",
  "No test verifies a merkle node or a block.",
  ["pkg/core/verify.go", "pkg/core/block.go", "internal/inv/inv.go", "internal/chain/state.go"],
  [("merkle and block verification", "pkg/core/verify.go"), ("earliest-block check when applying", "internal/chain/state.go")],
  ["whether a block becomes known or head"])
p("C08", "The head is always the valid known chain with the most work",
  "A node's head moves only to a chain with strictly more total work than the current one that is valid in every block, and it does move whenever such a chain is offered with everything needed to check it; on equal work the current head stays. Total work of successive heads therefore strictly increases. A candidate that fails at any point, even deep into a switch, leaves head and ledger exactly as they were.",
  ["histories", "inputs"], "every block tree, delivery order, duplication, batching and placement of an invalid block",
  "No test runs the chain component.",
  ["internal/chain/chain.go", "internal/chain/state.go", "internal/inv/inv.go"],
  [("work comparison, copy-rewind-advance, swap", "internal/chain/chain.go")],
  ["validated-head events", "height, balance and inclusion queries after each candidate"])
p("C09", "The ledger depends only on the head, not on the path taken to it",
  "After any sequence of extensions, failed candidates and reorganisations, balances, unspent outputs, confirmations, including blocks and the rich list are exactly those obtained by applying the blocks from genesis to the head in order. Two nodes with the same head give the same answers. No legal chain or reorganisation makes the node fail.",
  ["histories"], "every history of heads and reorganisations, including in-block spending chains and shared transactions between branches",
  "Rewinding is never executed by a test, let alone compared with a replay.",
  ["internal/chain/state.go", "internal/chain/chain.go"],
  [("rewind and advance are inverse", "internal/chain/state.go")],
  ["all ledger queries after every head change"])
p("C10", "Accepted transactions stay pending until included and are announced once",
  "A transaction a node accepts is pending, and counted as spending its inputs, until it is included in the followed chain, and it becomes pending again if that block is abandoned; a rejected one never is. Re-submitting a known transaction changes nothing and repeats no announcement, except that one lost by a restart is taken up again. Every newly accepted transaction is announced to the other components exactly once. What was submitted, abandoned or refused before never decides which chain is followed.",
  ["histories"], "every interleaving of submissions, blocks, reorganisations and restarts",
  "No test submits a transaction to a running chain component.",
  ["internal/chain/chain.go", "internal/chain/state.go"],
  [("mempool bookkeeping on submit, include and rewind", "internal/chain/state.go")],
  ["utxo queries with and without pending spends", "confirmation queries", "validated-tx events", "mining targets"])
p("C11", "Mining targets are valid, conflict-free, within limits and fee-greedy",
  "Every mining target a node issues refers to its current head with the target the next block must have, and lists pending transactions that can all be included together in the next block: inputs unspent, no two sharing an input, earliest block reached, positive fee, total size with the coinbase within the limit. A pending includable transaction is left out only if it conflicts with, or no longer fits beside, listed ones paying at least its fee rate. A new target is issued after every new head and every accepted transaction.",
  ["histories", "inputs"], "every pending set with conflicts, dependencies, size pressure and hostile transactions, at every head",
  "No test produces a mining target.",
  ["internal/chain/target.go", "internal/chain/state.go", "pkg/core/difficulty.go"],
  [("selection loop", "internal/chain/target.go"), ("includability filter and ordering", "internal/chain/state.go")],
  ["miner-target events"])
p("C12", "Everything a miner publishes is a valid block for the target it was given",
  "Each solution a miner publishes extends the given head, meets the given target, contains exactly the given transactions plus one coinbase paying the configured address exactly the reward plus their fees, and is accepted by a node on that head, whatever the clock says relative to earlier block times. Several miners fed by the same targets do not disturb one another. A miner moves on to each new target and never stops working.",
  ["schedules", "inputs"], "every target, number of miners and transaction list, and every relation between local clock and chain times",
  "No test runs a miner.",
  ["internal/miner/miner.go", "pkg/util/util.go", "pkg/core/block.go"],
  [("template construction", "internal/miner/miner.go")], ["candidate-head events published by miners"])
p("C13", "Difficulty retargeting and work follow the published formula exactly",
  "The next target equals the previous one, except at period boundaries where it is the previous target times actual time over desired time of the period, clamped to a factor of 4 and to the network maximum, computed without overflow and identically on every node; the first block gets the original target. The result is always acceptable to block verification. Total work adds the expected number of attempts of every target on the chain.",
  ["inputs", "histories"], "every chain of times and targets, every parameter set, heights around boundaries",
  "Tests only check that work sums agree with themselves; retargeting is never executed.",
  ["pkg/core/difficulty.go", "pkg/core/hasht.go", "internal/inv/inv.go"],
  [("next-target computation", "pkg/core/difficulty.go"), ("work accumulation", "pkg/core/hasht.go")],
  ["next target of a chain", "total work of known blocks"])
p("C14", "Merkle trees commit to the exact ordered transaction list",
  "The tree built for any non-empty list of distinct transactions can be stored node by node in the order returned, and enumerating it from its root yields exactly that list in that order, with recorded size equal to the sum of the transaction sizes. Different lists have different roots. Nodes whose children are unknown, overlap without being identical, or exceed the size limit are refused.",
  ["inputs"], "every list length and content, every malformed node",
  "One test covers one list of five ids and no storage or enumeration.",
  ["pkg/core/block.go", "internal/inv/inv.go", "pkg/core/verify.go"],
  [("layered construction", "pkg/core/block.go"), ("breadth-first enumeration", "internal/inv/inv.go")],
  ["roots, node lists, enumeration, recorded sizes"])
p("C15", "The block index answers ancestry questions correctly on any tree",
  "For every known block the reported height, parent, total work and ancestor at any depth are those of its unique path to genesis, and the common ancestor reported for any two blocks is the deepest block on both paths. Everything known stays known with unchanged content, and nothing becomes known unless it was offered and everything it refers to is known.",
  ["histories", "inputs"], "every block tree and pair of blocks",
  "No test stores a block.",
  ["internal/inv/inv.go"], [("ancestor walks", "internal/inv/inv.go")], ["inventory queries"])
p("C16", "A node restarted on its save directory resumes exactly where it stopped",
  "After a stop, a node restarted on the same save directory has the same head, balances, unspent outputs and inclusion data, and every stored transaction, merkle node and block unchanged. It goes on to accept every chain a node that never stopped would accept, including blocks that include transactions it had only seen as pending. Every stored record reads back as the value written, and damaged text is rejected with an error, never a crash.",
  ["histories", "inputs"], "every history before and after any number of restarts; every record value; every corruption of record text",
  "Tests round-trip one record of each kind in memory; no test restarts a node.",
  ["internal/chain/chain.go", "internal/inv/inv.go", "internal/inv/serialize.go", "pkg/disksyncmap/disksyncmap.go"],
  [("head file", "internal/chain/chain.go"), ("disk-backed inventory", "pkg/disksyncmap/disksyncmap.go")],
  ["queries before and after restart", "files in the save directory"])
p("C17", "A crash at any point of persistence never loses or corrupts the chain",
  "If the node process dies between any two file operations or part-way through a write, a restart on the same directory comes up without failing, on the last announced head or a later one it had accepted, with the ledger of exactly that head. Any record visible after the crash is complete and unaltered. From there it can still be brought to the chain it had been following.",
  ["crash_points", "histories"], "every point between two file-system operations and every partial write, over every history",
  "No test touches the save directory, and a test run cannot die half-way through a write.",
  ["internal/chain/chain.go", "pkg/disksyncmap/disksyncmap.go", "internal/inv/inv.go"],
  [("write order: entities before head", "internal/chain/chain.go"), ("record files", "pkg/disksyncmap/disksyncmap.go")],
  ["files as left by the crash", "queries after restart"])
p("C18", "The wallet never loses a private key",
  "Every address the wallet has reported as generated or imported has its private key in the wallet file afterwards, and no later command removes or alters a key, whatever fails and wherever the process dies (commands run one after another). The wallet file is always complete and readable, and private to the user. Saving and loading preserves every key and setting.",
  ["crash_points", "histories", "fault_sequences"], "every sequence of commands, every crash point inside a save, every write failure",
  "The wallet program has no tests.",
  ["cmd/bcwallet/config.go", "cmd/bcwallet/bcwallet.go"],
  [("config save", "cmd/bcwallet/config.go")], ["wallet file contents", "command output"])
p("C19", "The peer protocol transports every value intact or reports an error",
  "Whatever one side writes (strings, byte strings, integers, flags, hashes, transactions, merkle nodes, blocks), the other side reads back identical and in order, or gets an error, regardless of how the bytes are segmented or delayed in transit. A value whose content does not hash to the announced id is refused, as is any byte string too long for its length field. After an idle timeout reading can continue without losing synchronisation.",
  ["inputs", "schedules", "fault_sequences"], "every sequence of values, every segmentation, delay and truncation of the byte stream",
  "The protocol package has no tests.",
  ["pkg/prot/conn.go", "pkg/prot/core.go", "pkg/prot/primitives.go"],
  [("length-prefixed framing", "pkg/prot/conn.go")], ["values read at the other end of a connection"])
p("C20", "No remote peer can crash, stall or bloat a node",
  "Whatever bytes a remote party sends at any stage of a session, the node keeps running, keeps serving its other peers and its API, keeps its ledger, and allocates no memory out of proportion to the bytes received. Chains and transactions that violate the rules are never adopted because of who sent them. The offending session at most ends.",
  ["inputs", "fault_sequences"], "every byte sequence, disconnection and silence at every stage of the protocol",
  "No test opens a connection.",
  ["internal/peer/peer.go", "internal/peer/sync.go", "internal/peer/handlers.go", "internal/peerfactory/peerfactory.go", "pkg/prot/core.go"],
  [("session panic handler, early checks of offered chains", "internal/peer")],
  ["node process liveness", "API answers", "memory use", "service of an honest peer"])
p("C21", "Connected nodes converge on the best valid chain",
  "Whenever a node is connected, directly or through others, to a node with a valid chain of more work, it adopts that chain after finitely many protocol steps, whatever the shapes of the two chains, their fork point, the sizes and dependencies of their blocks, and whatever earlier offers failed. Once announcements settle all connected nodes have heads of equal work. Nodes on a chain of equal or less work are left alone.",
  ["histories", "schedules", "configurations"], "every pair of chains, network topology and timing of announcements",
  "No test connects two nodes.",
  ["internal/peer/sync.go", "internal/peer/peer.go", "internal/chain/chain.go"],
  [("chain synchronisation exchange", "internal/peer/sync.go")], ["heads and ledgers of all nodes"])
p("C22", "Accepted transactions reach every connected node",
  "A valid transaction accepted by any node of a connected network becomes known and pending on every other node, in an order that respects dependencies when they were submitted in order, and is fetched by a node only when it does not have it. Simultaneous announcements in both directions of a link interfere with neither. Announcements never carry content other than that of the announced id.",
  ["schedules", "histories"], "every topology, submission point and overlap of announcements",
  "No test connects two nodes.",
  ["internal/peer/handlers.go", "internal/peer/peer.go"],
  [("announce, want, transfer; simultaneous command resolution", "internal/peer/peer.go")], ["inventory and pending sets of all nodes", "bytes on a scripted peer's connection"])
p("C23", "The peer set is bounded, self-free, duplicate-free and self-healing",
  "A node never holds sessions with itself, more than one with the same peer identity, or more than its maximum; surplus peers are told of alternatives and asked to go. When a session ends for any reason its connection is closed, its slot is freed and its address forgotten, so that the same peer can come back. A listening node tells every peer its address, and one without peers turns to all its seeds again. Addresses handed to peers are exactly those announced by current peers, and a silent or failing newcomer does not keep others from connecting.",
  ["schedules", "fault_sequences", "configurations"], "every order of connects, refusals, announcements, crashes and reconnects",
  "No test creates a peer factory.",
  ["internal/peerfactory/peerfactory.go", "internal/peer/peer.go", "pkg/prot/conn.go"],
  [("known-peer bookkeeping", "internal/peerfactory/peerfactory.go")], ["sessions seen from scripted peers", "peer-address replies"])
p("C24", "Every subscriber receives every message exactly once and in order",
  "A message published while a subscription is open is delivered to it exactly once, and messages of one publisher arrive in the order published, for any number of concurrent publishers and subscribers and however long the bus lives. Subscribing and closing at any time affects no other subscription, never blocks publishers and never panics. A closed subscription delivers nothing further.",
  ["schedules", "histories"], "every interleaving of publish, subscribe, receive, close and background clean-up",
  "The one topic test checks only that nothing hangs for a second; it asserts nothing about what was received.",
  ["pkg/topic/topic.go", "pkg/syncqueue/syncqueue.go", "internal/bus/bus.go"],
  [("per-subscription queues under a lock", "pkg/topic/topic.go")], ["messages received by each subscriber"])
p("C25", "Shared queues and maps are linearizable; plain containers match their models",
  "Concurrent operations on the shared queue, map and disk-backed map behave as if executed one at a time in an order consistent with real time, including closing; a stored map entry is never lost and survives reopening. The plain queue, set and slice/map helpers compute exactly what their descriptions say, and never modify or alias an argument that the caller still owns.",
  ["schedules", "inputs"], "every interleaving of operations by several threads; every operation sequence",
  "None of these containers has a test.",
  ["pkg/syncqueue/syncqueue.go", "pkg/syncmap/syncmap.go", "pkg/disksyncmap/disksyncmap.go", "pkg/queue/queue.go", "pkg/set/set.go", "pkg/util/util.go"],
  [("mutex / sync.Map", "pkg/syncqueue/syncqueue.go")], ["recorded call/return histories"])
p("C26", "The running node is free of data races",
  "No two components of a running node (chain, miners, peer sessions, peer discovery, HTTP API) access the same memory without synchronisation, at start-up, during normal work, synchronisation, failed connections and session shutdown.",
  ["schedules"], "every interleaving of the components' goroutines reached by the workload",
  "The test suite runs no component concurrently and is not run under the race detector.",
  ["internal", "pkg/prot/conn.go", "pkg/topic/topic.go", "pkg/util/util.go"],
  [("message passing over the bus; write-once inventory", "internal/bus/bus.go")], ["race detector reports"])
p("C27", "The HTTP API reports the ledger faithfully and rejects bad input cleanly",
  "Every wallet endpoint answers with exactly the data of the node's current chain for exactly the ids asked for, through JSON that decodes to the same values, for every value including the extremes. A transaction post answers success with its id exactly when the node has accepted it. Unknown ids are left out of the answer, or refused when none is known; malformed requests and wrong methods get a 4xx answer; no request makes the node fail or hang.",
  ["inputs", "histories"], "every request to every endpoint at every ledger state",
  "The HTTP server, its models and client have no tests.",
  ["internal/rest/wallet.go", "internal/rest/server.go", "internal/rest/busclient.go", "internal/rest/models/models.go", "internal/rest/client/wallet.go"],
  [("handlers over bus queries", "internal/rest/wallet.go")], ["HTTP responses"])
p("C28", "Admin operations require the configured password",
  "When an admin password is set, an admin request that does not present exactly that password is refused with 401 and has no effect, whatever its method, path form, headers or body; with the right password and method it takes effect. Admin and wallet endpoints exist only when enabled. Wallet endpoints never need or reveal the password.",
  ["inputs", "configurations"], "every request and flag combination",
  "The HTTP server has no tests.",
  ["internal/rest/server.go", "internal/rest/admin.go", "cmd/bcnode/flags.go", "cmd/bcnode/bcnode.go"],
  [("password check before dispatch", "internal/rest/server.go")], ["HTTP responses", "node process liveness"])
p("C29", "Wallet-built transactions pay exactly what was asked and are always valid",
  "Every transaction the wallet library builds is admissible: properly signed, within the size limit, spending only the offered outputs, each once, paying every destination exactly its amount, returning all change to one of the caller's own addresses, with a fee at least the requested rate and above it by no more than the signature-size estimate. A payment takes no more outputs than the largest ones needed to cover it; a consolidation takes as many of the largest as the size limit admits. When that is impossible it returns an error. It never panics and never wraps an amount around.",
  ["inputs"], "every set of P-256 wallet keys, outputs, destinations, amounts adding up to less than 2^64 and positive fee rates",
  "The transaction factory has no tests.",
  ["pkg/core/txfactory.go", "pkg/core/transaction.go"],
  [("input selection, change and signing", "pkg/core/txfactory.go")], ["returned transactions and errors"])
p("C30", "The wallet commands do what they print, end to end",
  "A confirmed send debits exactly the printed total, credits every listed pair, including repeated addresses, and can be included in the very next block; a declined or failed one sends nothing. Balance, outputs, confirmations, block and rich-list commands print what the node's ledger contains for exactly the requested items. Bad arguments, or a node that is unreachable or answers badly, produce a message, not a crash, and send nothing.",
  ["inputs", "histories"], "every command line against every ledger state",
  "The wallet program and its client have no tests.",
  ["cmd/bcwallet/bcwallet.go", "cmd/bcwallet/cli.go", "internal/rest/client/wallet.go"],
  [("command handlers", "cmd/bcwallet/bcwallet.go")], ["command output", "requests received by the node"])
p("C31", "Hash values compare, convert and compute exactly",
  "Hash values convert to and from hexadecimal text, JSON, bytes and big integers without loss; every other input is rejected with an error. Ordering is that of the 256-bit big-endian integers. Work and target-bound arithmetic equals exact integer arithmetic for every target up to the extremes.",
  ["inputs"], "all 256-bit values, especially boundary patterns, and all malformed texts",
  "Tests sample 100 uniformly random hashes, which practically never have equal prefixes, leading zeros or boundary values, and no malformed input.",
  ["pkg/core/hasht.go"], [("byte-wise comparison and big.Int conversions", "pkg/core/hasht.go")], ["results of conversions and arithmetic"])
p("C32", "The node program does what its options say, end to end",
  "The node program follows the network its mode selects (development or production rules and version). It connects to every listed seed, keeps trying for a while those not up yet, turns to them again when it has lost everyone, and connects to nobody else but who it is told of; with --new-network it connects to no seed. It listens only when told to, and announces exactly the given address. It mines only with --miners, and every block it mines is valid and pays reward and fees to the given address. It keeps its chain in the save directory and resumes from it whenever it is killed and started again, and writes no files without one. A network of such programs agrees on one valid chain, and a payment posted at one is included and shown by all. Options that cannot be followed end it with a message instead of letting it run without them.",
  ["configurations", "histories", "fault_sequences"], "every combination of options, every chain, every order of starts, kills and restarts",
  "No test starts the program; flags and the wiring of the components have no tests.",
  ["cmd/bcnode/bcnode.go", "cmd/bcnode/flags.go", "internal/peerfactory/peerfactory.go", "internal/miner/params.go", "internal/rest/params.go", "internal/chain/chain.go", "internal/rest/server.go"],
  [("flag parsing and component wiring", "cmd/bcnode/bcnode.go")], ["HTTP answers, connections, announcements, files and exit of the real program"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
