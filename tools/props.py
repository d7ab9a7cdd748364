"""What each check runs: main program, race build, watchdogs, and the evidence boilerplate."""
PROPS = {}


def p(ids, main, rule, **kw):
    for i in ids.split():
        PROPS[i] = dict(main=main, rule=rule, **kw)


CHAIN_ASSUME = ["the independent model in harness/vmodel states the rules correctly",
                "small worlds (easy targets, short periods, small blocks) exercise the same code as the production parameters"]
p("C01 C05 C06 C07", "ck_chain",
  "an evaluation is one accept/refuse decision of the real inventory or chain component compared with the independent model, or one ledger comparison after a step; distinct counts (kind of block, model reason, position in period) combinations",
  assumptions=CHAIN_ASSUME)
p("C03", "ck_chain", "an evaluation is one transaction derived from a valid one and submitted to the real inventory; distinct counts (mutation kind, model reason, inputs, outputs)",
  assumptions=CHAIN_ASSUME)
p("C02 C08 C09 C10 C11", "ck_chain",
  "an evaluation is one delivered event or submission after which the node's announcements and ledger answers were compared with the model; distinct counts (kind of event, state signature)",
  assumptions=CHAIN_ASSUME)
p("C15", "ck_chain", "an evaluation is one ancestry query answered by the real index and compared with the model; distinct counts (query, height, depth)",
  assumptions=CHAIN_ASSUME)

p("C04", "ck_core", "an evaluation is one pair of entities differing in one field, or one round trip through wire, disk or JSON; distinct counts the kinds of difference and round trip",
  assumptions=["SHA-256 collisions do not occur"])
p("C13", "ck_core", "an evaluation is one next-target computation compared with exact integer arithmetic; distinct counts (period, position, clamp, direction)",
  assumptions=["desired block times below 2^32 seconds"])
p("C14", "ck_core", "an evaluation is one tree built, stored and enumerated, one neighbouring list, or one arbitrary node offered; distinct counts lengths and refusal reasons",
  assumptions=[])
p("C29", "ck_core", "an evaluation is one call of the transaction factory judged by independent verification; distinct counts (possible, result, destinations, outputs)",
  assumptions=["keys are P-256, as the wallet generates"])
p("C31", "ck_core", "an evaluation is one conversion, comparison, malformed text or arithmetic result compared with exact big-integer arithmetic; distinct counts kinds and magnitudes",
  assumptions=[])
p("C12", "ck_miner", timeout=600, rule="an evaluation is one published solution judged against the issued target and the independent block rules; distinct counts (clock mode, miners, transactions, position in period, freshness)",
  assumptions=["easy targets (about 2^16 hashes) exercise the same code as real ones", "the run does not last long enough for the clock to pass the margins of the generated block times"])
p("C19", "ck_prot", "an evaluation is one value carried over (or one altered, truncated, oversized or delayed message offered to) a real connection and compared with what was sent; distinct counts (link behaviour, kind, size class, outcome)",
  assumptions=["loopback TCP with a re-segmenting relay stands for the network"])
p("C24", "ck_bus", "an evaluation is one subscription's whole life judged against the publishing log; distinct counts (kind, drained, publishers, messages received)",
  assumptions=["a single monotonic clock orders calls and returns"])
p("C25", "ck_bus", race=True, rule="an evaluation is one recorded concurrent history decided by a linearizability checker, or one operation sequence of a plain container compared with its model; distinct counts the observed return orders with outcomes, and the sequence shapes",
  assumptions=["a single monotonic clock orders calls and returns"])
p("C16", "ck_disk", rule="an evaluation is one restart after which everything the node reports and stores was compared with before, with the model and with a twin that never stopped, or one record text (whole or damaged) read by the real parser; distinct counts (restart number, chain shape, pending) and kinds of damage",
  assumptions=["leaving the old node idle and starting a new one on its directory is a stop and a restart"])
p("C17", "ck_disk", level="fault_enumeration", timeout=600, rule="an evaluation is one restart of a real node on the directory as it was at one crash point (after an operation, or inside a write); distinct counts (script, operation kind, area, choice of heads, position)",
  assumptions=["the process dies, the operating system does not (writes reach the disk in program order)", "operations recorded with strace from real runs; writes cut at byte positions"])
p("C21", "ck_net", timeout=600, rule="an evaluation is one settling of a network after which every node's head and ledger were compared with the best valid chain; distinct counts (scenario, shape, relation of the chains)",
  assumptions=["loopback TCP stands for the network", "a network with nothing left to do settles within 100 s (it takes milliseconds)"])
p("C22", "ck_net", timeout=600, rule="an evaluation is one set of transactions handed to a network (or one exchange with a scripted peer) followed until every node had them pending; distinct counts (topology, pace, overlap)",
  assumptions=["loopback TCP stands for the network", "a network with nothing left to do settles within 100 s (it takes milliseconds)"])
p("C23", "ck_net", timeout=600, rule="an evaluation is one step of a real peer factory (connect, refusal, duplicate, self, announcement, end of a session) after which sessions and handed-out addresses were compared with the expected peer set; distinct counts (kind of step, sessions, maximum)",
  assumptions=["loopback TCP stands for the network", "each reaction of an idle node comes within 60 s (it takes milliseconds)"])
p("C20", "ck_net", timeout=600, rule="an evaluation is one attack after which the node was found alive, answering, on a legal chain with the matching ledger, and serving an honest peer; distinct counts kinds of attack (stages and kinds of damage are counted apart)",
  assumptions=["loopback TCP stands for the network", "48 MiB of allocation for a message of a few hundred bytes is out of proportion"])
p("C26", "ck_net", race=True, bins=["bcnode"], timeout=700, rule="an evaluation is one scenario (whole nodes with miners, HTTP API and visitors; meetings, floods and attacks; the real program started and stopped) run to its end under the race detector; distinct counts kinds of scenario",
  assumptions=["the Go race detector reports every unsynchronised pair of accesses that occurs without an ordering between them in the executions observed"])
p("C27", "ck_http", rule="an evaluation is one HTTP answer (or one call of the real client) compared with what the model says the node's chain contains; distinct counts (kind of request, method, status) combinations",
  assumptions=["supplies below 2^64"])
p("C28", "ck_http", bins=["bcnode"], rule="an evaluation is one raw HTTP request to a server with a password (in process with its command bus watched, or the real program) after which answer and effect were judged; distinct counts (kind of request, endpoints enabled, status) combinations",
  assumptions=["loopback TCP stands for the network", "one of the values of a repeated password header is not 'presenting exactly that password'; which one counts is not judged"])
p("C18", "ck_http", bins=["bcwallet"], level="fault_enumeration", rule="an evaluation is one run of the real wallet program (undisturbed, cut off by a file size limit, in a place that is out of order, or killed at or refused one system call) after which the wallet files were read independently and compared with everything reported before, and the next command was seen to work; distinct counts (command, wallet, fault, place, outcome)",
  assumptions=["the process dies, the operating system does not", "commands of one user run one after another"])
p("C30", "ck_http", bins=["bcwallet"], rule="an evaluation is one run of the real wallet program against a real node (through a recording relay) whose output, requests and effect were judged against the model's ledger; distinct counts (command, arguments, answer, outcome) combinations",
  assumptions=["small worlds with easy targets stand for the dev network (the wallet only uses its size limit)", "the relay passes everything on unchanged"])
p("C32", "ck_http", bins=["bcnode"], timeout=700, rule="an evaluation is one observation of the real node program (ledger shown over HTTP compared with the model after following, restarting, switching branches; connections made and addresses announced; endings with impossible options; a mined chain judged block by block); distinct counts (kind, stage, network, height or outcome)",
  assumptions=["loopback TCP stands for the network", "chains of the real networks mined once and kept in data/ are what those networks accept", "each reaction of an idle program comes within 60 s (it takes milliseconds to seconds)"])
