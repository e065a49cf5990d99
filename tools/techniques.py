NA = {}
ex = "exploration"
MD = "online reference-model monitor: real execution vs independent executable model, plus opcode-trace comparison"
MN = "Held on the executions observed (seeded random, hostile worlds/programs/transactions, ~1e5-1e6 transactions per quick run). Trusts the reference model in harness/src/model.rs and revm's stock precompile library."
for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C23 C24".split():
    T[p] = (ex, MD, MN)
T["C21"] = ("fault_enumeration", "runtime monitoring under fault injection: every database and SALT read of every workload transaction is failed once; the monitor requires an error or the exact fault-free outcome, and recovery", "All single-read faults (up to 400 read positions per transaction) of the transactions run.")
BM = "online block monitor: the real block executor vs an independent model of block admission, composition and pre-block changes over random blocks, limits and schedules"
BN = "Held on the blocks observed (seeded random, ~3e5 transactions per quick run). Trusts harness/src/block.rs and model.rs."
for p in ("C17", "C18", "C20"):
    T[p] = (ex, BM, BN)
T["C25"] = (ex, "read-set and composition monitor: database reads recorded by the instrumented database are checked against the returned states; merged states and one-journal runs are compared with one commit per transaction; block hashes and buckets are compared with the model", "Held on the sequences observed. Not covered: reads that only validate a transaction or keyless deployment which then does not execute, and the L1 fee parameters op-revm reads past the journal.")
T["C19"] = (ex, "monitor of spec selection, limits and activation over random hardfork schedules and timestamps, published limits exercised at their boundaries by real transactions and blocks", "Held on the schedules, timestamps and boundary workloads observed.")
T["C22"] = (ex, "crash/UB/hang monitor: hostile transactions and blocks under overflow checks, debug assertions and std's unsafe-precondition checks, small-stack recursion workload, CPU-time hang monitor", "Held on the hostile executions observed; assumes total ether below 2^256 and blocks other than genesis.")
T["C26"] = (ex, "black-box monitor of the real state-test binary: generated suites with right and with one-off wrong expectations, computed by the reference model and an independent trie; exit codes and JSON records checked", "Held on the suites observed (~4e4 tests per quick run). Blob transactions and suites with empty accounts in the pre-state are not generated.")
