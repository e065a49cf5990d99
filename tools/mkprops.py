#!/usr/bin/env python3
"""Regenerates properties.jsonl from the table below."""
import json, os
E='crates/mega-evm/src/evm/'; L='crates/mega-evm/src/limit/'; B='crates/mega-evm/src/block/'
S='crates/mega-evm/src/system/'; X='crates/mega-evm/src/external/'; SB='crates/mega-evm/src/sandbox/'
A='crates/mega-evm/src/access/'; K='crates/mega-evm/src/constants.rs'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p('C01','Equivalence spec behaves exactly like the Optimism Isthmus EVM',
 "Under the Equivalence spec every transaction (including deposits, EIP-7702 and EIP-2930 transactions) produces the same result, gas used, logs, output, error and post-state as the stock Optimism Isthmus EVM on the same pre-state and block. None of MegaETH's extra limits, storage gas, gas detention, system-transaction or system-contract rules applies to it.",
 ['inputs','programs'],'all transactions, bytecode and pre-states under the Equivalence spec',
 'Existing equivalence tests compare three hand-written cases; a stray spec gate shows only on particular opcodes or transaction kinds.',
 [E+'execution.rs',E+'instructions.rs',E+'host.rs',E+'spec.rs',E+'precompiles.rs'],
 [('every MegaETH rule gated on spec >= MINI_REX',E+'execution.rs'),('mainnet instruction table for Equivalence',E+'instructions.rs'),('oracle override gate',E+'host.rs')],
 ['execution result and state diff of a transaction'])
p('C02','Gas charged is standard EVM gas plus the published storage gas',
 "From MiniRex on, every operation and every transaction is charged exactly the standard (Prague) EVM gas plus the storage gas the spec publishes: intrinsic and calldata storage gas, zero-to-nonzero SSTORE, new-account transfer, contract creation, code deposit (10,000 per byte) and LOG (10x topics and data) storage gas, and nothing else. A transaction that cannot pay its intrinsic gas is invalid and a transaction or frame that runs out of total gas halts out-of-gas; the final gas used also respects refunds and the calldata floor (never above the gas limit).",
 ['inputs','programs','configurations'],'all programs, transactions, specs from MiniRex on and bucket capacities',
 'Tests assert the cost of a few single-opcode programs; the cost is a function of warm/cold state, original/current/new slot values, emptiness, revert history and spec, which only arbitrary programs reach.',
 [E+'instructions.rs',E+'execution.rs',X+'gas.rs',K],
 [('storage gas wrappers around SSTORE/LOG/CREATE/CALL',E+'instructions.rs'),('intrinsic, calldata and account-creation storage gas at validation',E+'execution.rs'),('code deposit storage gas',E+'execution.rs')],
 ['gas remaining before and after each executed opcode','gas used by the transaction'])
p('C03','Storage gas scales with the capacity of exactly the right SALT bucket',
 "The dynamic part of storage gas is scaled by capacity/256 of the SALT bucket that holds the slot being set, the account being created or the contract address being created, as reported by the external environment for the block, with the Rex-and-later base costs multiplied by (multiplier - 1). The set of bucket ids the EVM reports as accessed is exactly the set of buckets it priced since the block began, and a new block re-reads capacities.",
 ['inputs','programs','configurations','histories'],'all programs, bucket layouts and capacities, and sequences of transactions and blocks',
 'Tests use one bucket with one capacity and check a total; a wrong bucket key (creator instead of created address, delegate instead of account, stale nonce) is invisible when all buckets are equal.',
 [X+'gas.rs',X+'salt.rs',E+'instructions.rs',E+'execution.rs',E+'context.rs'],
 [('bucket multiplier cache',X+'gas.rs'),('created address computation before pricing',E+'instructions.rs'),('cache reset on new block',E+'context.rs')],
 ['bucket queries made to the external environment','accessed bucket ids','gas charged per opcode'])
p('C04','Compute gas usage is exactly the standard gas consumed by the transaction',
 "The compute gas a transaction reports equals all standard EVM gas it consumed: intrinsic gas, every opcode, precompiles and standard code deposit, in every frame including reverted ones. It never includes storage gas, gas forwarded to (and accounted in) child frames, refunds, or gas merely forfeited by an exceptional halt (the failing opcode or precompile and the rest of the frame's gas), and is never rolled back.",
 ['inputs','programs'],'all programs and call trees under specs from MiniRex on',
 'Tests check totals of simple call trees; double counting of forwarded gas, stipends, precompile gas or deposits depends on nesting and failure mode.',
 [L+'compute_gas.rs',L+'mod.rs',E+'instructions.rs',E+'execution.rs',E+'precompiles.rs'],
 [('compute gas wrapper per opcode',E+'instructions.rs'),('initial gas recording',E+'execution.rs'),('post-action recording of code deposit',E+'execution.rs')],
 ['compute gas usage after each opcode and after the transaction'])
p('C05','Data size, KV updates and state growth count exactly the surviving effects',
 "The data size, key-value update count and state growth a transaction reports equal the published per-effect amounts (transaction envelope, calldata, access list, authorizations, account updates, storage writes, logs, deployed code, created accounts and slots) summed over the effects that survive. Effects of every frame that reverts or halts, at any depth, are removed, and storing a slot back to its original value takes its contribution back.",
 ['inputs','programs'],'all programs, call trees and revert patterns under specs from MiniRex on',
 'Tests cover one-level reverts of one effect kind; the ledger must balance for arbitrary interleavings of writes, resets, creates and reverts across frames.',
 [L+'data_size.rs',L+'kv_update.rs',L+'state_growth.rs',L+'mod.rs',E+'execution.rs'],
 [('per-frame discardable ledger merged or dropped at frame end',L+'data_size.rs'),('frame hooks',E+'execution.rs')],
 ['usage reported in the transaction outcome','tracker values at every frame boundary'])
p('C06','Exceeding any transaction resource limit always fails the whole transaction',
 "When a transaction's compute gas, data size, KV updates or state growth first exceeds (strictly) its limit, the transaction fails with the halt reason naming that resource, its limit and the actual usage, no contract code in any frame can catch or outlive the failure, and no state change other than the sender's nonce, fee payment and EIP-7702 delegations persists and no log is emitted. A transaction that stays within all limits never fails because of them.",
 ['inputs','programs','configurations'],'all programs, call depths, limit values and points at which a limit is crossed',
 'Tests cross one limit in one simple program at the default value; crossing can happen at any opcode, frame start, frame end, code deposit, precompile or before execution, at any depth.',
 [L+'mod.rs',E+'execution.rs',E+'instructions.rs',E+'limit.rs',E+'precompiles.rs'],
 [('sticky exceeded flag',L+'mod.rs'),('checks at opcode, frame init, frame run and frame return',E+'execution.rs'),('halt reason mapping',E+'execution.rs')],
 ['execution result','state diff','trace of opcodes executed after a limit is crossed'])
p('C07','A limit halt charges only the gas actually consumed',
 "When a transaction halts because a resource limit (or the volatile-data compute cap) is exceeded, the gas used equals the gas consumed by the work performed up to that point across all frames; all unspent gas in every open frame is returned to the sender rather than burned.",
 ['inputs','programs','configurations'],'all programs, call depths and crossing points',
 'Tests check that gas used is below the gas limit in a flat program; gas can be lost or duplicated at each frame boundary the halt unwinds through.',
 [L+'mod.rs',E+'execution.rs',E+'instructions.rs'],
 [('rescued gas accumulation at frame return',L+'mod.rs'),('gas given back at last frame result',E+'execution.rs')],
 ['gas used by the transaction','sender balance'])
p('C08','A frame never forwards more than 98% of its remaining gas',
 "From MiniRex on for CALL, CREATE and CREATE2, and from Rex on for every call-like opcode, a child frame receives min(requested, 98/100 of the gas the parent has left after paying for the opcode, standard 63/64 cap) plus the 2,300 stipend when a CALL or CALLCODE transfers value, and the parent keeps exactly the rest. MiniRex keeps the standard 63/64 rule for CALLCODE, DELEGATECALL and STATICCALL.",
 ['inputs','programs'],'all call and create opcodes, gas requests, remaining gas amounts and specs',
 'Tests check a few gas amounts with CALL; rounding, stipend and per-opcode coverage need many amounts and every opcode.',
 [E+'instructions.rs',K],[('98/100 wrapper',E+'instructions.rs')],['gas limit of every child frame and gas left in its parent'])
p('C09','Volatile data access caps compute gas in every frame, in any order',
 "After a transaction reads block environment data or touches the block beneficiary, its compute gas is capped at the block-environment cap, and after it accesses the oracle (by calling it before Rex3, by reading its storage from Rex3 on) at the oracle cap; the tightest cap wins regardless of order, frame or revert, and exceeding it halts the transaction reporting the accessed data kinds. Transactions (before Rex3: frames) of the MegaETH system address are exempt from the oracle cap, and storage gas is not limited by caps.",
 ['inputs','programs','configurations'],'all programs, access orders, frames and specs from MiniRex on',
 'Tests access one datum in the top frame; the cap must follow every access path (each opcode, call kinds, delegation, transaction sender/recipient) and persist through reverts.',
 [A+'tracker.rs',A+'volatile.rs',E+'host.rs',E+'instructions.rs',E+'execution.rs',E+'context.rs'],
 [('access tracker',A+'tracker.rs'),('host hooks marking accesses',E+'host.rs'),('compute limit lowering in opcode wrappers',E+'instructions.rs'),('oracle frame detection',E+'execution.rs')],
 ['compute gas limit in force after each opcode','halt reason'])
p('C10','Oracle reads return oracle data at fixed cost and hints arrive exactly once',
 "From MiniRex on, reading the oracle contract's storage returns the external oracle's value when it has one and chain state otherwise, always at the cold-read price, so gas does not depend on where the value came from. From Rex2 on each hint call reaching the oracle contract is delivered to the external oracle exactly once, in execution order and before later reads, with the caller, topic and data of that call; nothing else produces a hint.",
 ['inputs','programs','histories'],'all programs reading or calling the oracle through any call kind, depth and nesting',
 'Tests make one direct read or hint; replay equivalence and exactly-once delivery concern all sequences of reads, writes and call kinds.',
 [E+'host.rs',E+'execution.rs',S+'oracle.rs',X+'oracle.rs'],
 [('SLOAD override with forced cold access',E+'host.rs'),('hint interception at frame start',E+'execution.rs')],
 ['values and cost of SLOAD in the oracle contract','hint log of the external oracle'])
p('C11','MegaETH system transactions are whitelisted, fee-free and otherwise rejected',
 "From MiniRex on, a transaction from the MegaETH system address that calls a whitelisted contract executes like a deposit: no fee, no L1 cost and no balance is charged for gas and no fee is paid out; one that calls anything else or creates a contract is rejected with an error and changes nothing. Transactions from other senders never get this treatment.",
 ['inputs','configurations'],'all transactions, senders, callees, gas prices and specs',
 'Tests check one accepted and one rejected transaction.',
 [S+'tx.rs',E+'execution.rs'],[('system transaction detection and conversion',E+'execution.rs')],['result or error','balances of sender, beneficiary and fee vaults'])
p('C12','Keyless deployment is faithful, atomic and charged to the recovered signer',
 "From Rex2 on, a top-level keylessDeploy call with a valid pre-EIP-155 creation transaction deploys to the signer's nonce-0 address with the signer paying gas used times gas price plus the value, and reports address and gas used; once execution happened the signer is charged even if deployment reverted, and on every validation failure it reverts with the matching error and changes nothing but the caller's nonce and fee. Repeated deployment fails, the deployment's logs and state appear in the outer transaction, and calls from inside a contract or inside a keyless deployment are not intercepted.",
 ['inputs','histories','configurations'],'all embedded transactions, gas overrides, pre-states and call depths',
 'Tests cover the standard CREATE2 factory and one input per error; the order of validation, state merge and charging must hold for every pre-state and every init code outcome.',
 [SB+'execution.rs',SB+'state.rs',SB+'tx.rs',SB+'error.rs',E+'execution.rs',S+'keyless_deploy.rs'],
 [('interception at depth 0',E+'execution.rs'),('validation and sandbox run',SB+'execution.rs'),('state merge',SB+'state.rs')],
 ['result and return data','state diff','logs'])
p('C13','SELFDESTRUCT follows the per-spec rule',
 "SELFDESTRUCT behaves as in the stock EVM under Equivalence, is an invalid opcode that consumes the frame's gas and changes nothing under MiniRex, Rex and Rex1, and under Rex2 and later moves the balance to the target and deletes the account only if it was created in the same transaction (EIP-6780), with standard gas.",
 ['inputs','programs'],'all programs, targets (self, empty, beneficiary, cold), nesting and specs',
 'Tests cover one destroy per spec without nesting, reverts, self-targets or same-transaction creation chains.',
 [E+'instructions.rs'],[('per-spec SELFDESTRUCT table entry',E+'instructions.rs')],['post-state balances and account existence','gas'])
p('C14','Post-state equals the sequential meaning of the program and conserves ether',
 "For every transaction the resulting state diff equals the effects of exactly the frames that succeeded: storage, balances, nonces and code of failed frames are rolled back, and a failed transaction changes only nonce, fees and delegations. The sum of all balances changes only by deposit mints and by ether burned through self-destruction; sender, beneficiary and fee vaults differ by exactly gas used times the effective prices plus transferred value.",
 ['inputs','programs'],'all transactions, programs and call trees under every spec',
 'Tests check a handful of storage slots; bookkeeping that preloads accounts and slots outside the normal load path can corrupt state only for particular access patterns.',
 [E+'instructions.rs',E+'execution.rs',E+'context.rs',E+'state.rs'],
 [('journal inspection without warming',E+'instructions.rs'),('frame checkpoints',E+'execution.rs')],['complete state diff of each transaction'])
p('C15','A transaction outcome is independent of what the EVM instance ran before',
 "Executing a transaction on an EVM instance that already executed, failed or rejected other transactions gives the same result, gas, resource usage and state diff as executing it on a fresh instance over the same committed state and block. (Before Rex1 the only carry-over is the specified one: a compute cap once lowered by volatile data access stays lowered.)",
 ['histories','inputs'],'all sequences of transactions including invalid, halted and limit-exceeding ones, on one instance',
 'Tests run at most two transactions in a row; leaked trackers, caches, limits or warm state need particular predecessor outcomes.',
 [E+'context.rs',L+'mod.rs',A+'tracker.rs',E+'execution.rs'],
 [('per-transaction reset of trackers and limits',E+'context.rs')],['outcome of each transaction in a sequence versus on a fresh instance'])
p('C16','Execution is deterministic and unaffected by attaching an inspector',
 "Executing the same transaction twice on the same pre-state, with or without an observing inspector attached, yields identical result, gas used, logs, resource usage, accessed buckets, hints and state diff.",
 ['inputs','programs'],'all transactions, programs and specs',
 'The inspected and the plain execution paths are separate code; tests exercise each on different inputs and never compare them.',
 [E+'execution.rs',E+'mod.rs'],[('duplicated inspected frame path',E+'execution.rs')],['outcome with and without inspector'])
p('C17','Block limits admit exactly the transactions that fit and reject without trace',
 "The block executor accepts a transaction exactly when its own gas limit, encoded size and data-availability size fit the per-transaction limits and the accumulated block usage leaves room (gas and sizes: usage plus transaction must not exceed the limit; data, KV, compute and state growth: usage before it must be below the limit), deposits being exempt from data-availability limits and not counted in data-availability usage. A rejected transaction leaves state, receipts and all counters unchanged and later transactions are judged as if it never arrived; counters equal the sums over accepted transactions.",
 ['histories','inputs','configurations'],'all sequences of transactions, limit configurations and interleavings of accept, reject and drop',
 'Tests try each limit with one or two transactions; boundary, accumulation and rejection-without-trace hold over histories.',
 [B+'limit.rs',B+'executor.rs',E+'limit.rs'],
 [('pre-execution and post-execution limit checks',B+'limit.rs'),('commit re-check',B+'executor.rs')],['accept/reject decision and error','block usage counters','receipts and state after each step'])
p('C18','Block results are the in-order composition of the accepted transactions',
 "After a block the receipts correspond one to one, in order, to the committed transactions with correct status, logs, cumulative gas and deposit nonce; gas used is the last cumulative value, and the final state equals applying the pre-block changes and each committed transaction once, in order, to the parent state, under the spec the hardfork schedule selects for the block timestamp.",
 ['histories','inputs'],'all transaction sequences including executed-but-not-committed outcomes',
 'The block executor tests do not run in the stable suite and cover fixed two-transaction blocks.',
 [B+'executor.rs',B+'factory.rs',B+'helpers.rs'],[('run/commit split',B+'executor.rs')],['receipts','final bundle state'])
p('C19','Hardfork schedule selects spec, limits and gas rules for every timestamp',
 "For every hardfork schedule and block timestamp, the spec in force is that of the most recently introduced activated MegaETH hardfork (Equivalence if none, MiniRex1 reverting to Equivalence and MiniRex2 restoring MiniRex), each spec carries its published transaction and block limits, and activation is monotone: once active at a timestamp a fork is active at all later ones. Updating or removing one fork in a schedule does not affect the others.",
 ['configurations','inputs'],'all schedules (including unordered and partial ones) and timestamps',
 'Tests check a few schedules at a few timestamps.',
 [B+'hardfork.rs',E+'limit.rs',B+'limit.rs',E+'spec.rs',K],[('newest-first fork lookup',B+'hardfork.rs'),('limits per spec',E+'limit.rs')],['spec id and limits for a schedule and timestamp'])
p('C20','System contracts are deployed once, with the right code, at the right fork',
 "Starting a block at or after the activating fork leaves the oracle (and its Rex2 upgrade), the high-precision timestamp oracle and the keyless-deploy contract at their fixed addresses with exactly the published code, preserving balance, nonce and existing storage; before the fork nothing is touched, and repeating it is a no-op. The EIP-2935 and EIP-4788 pre-block calls are applied as specified.",
 ['histories','configurations','inputs'],'all schedules, timestamps and pre-states of those addresses',
 'Tests deploy on an empty database once.',
 [S+'oracle.rs',S+'keyless_deploy.rs',B+'eips.rs',B+'executor.rs','crates/system-contracts/src/lib.rs'],
 [('idempotent deploy transacts',S+'oracle.rs'),('pre-execution changes',B+'executor.rs')],['state changes of pre-execution','code, nonce, balance and storage at the addresses'])
p('C21','Database or environment failures surface as errors, never as wrong results',
 "If the database or the SALT environment fails at any single read during a transaction, execution returns an error (or the exact fault-free outcome when the failed read does not matter); it never panics and never returns a different result, gas or state. Re-executing on the same instance after the fault clears gives exactly the fault-free outcome.",
 ['fault_sequences','inputs','programs'],'all transactions and every single read position at which a fault can strike',
 'One test injects one fault; reads happen at hundreds of positions, several inside the extra bookkeeping this EVM adds.',
 [E+'instructions.rs',L+'state_growth.rs',E+'execution.rs',SB+'execution.rs'],
 [('error propagation from opcode wrappers and frame hooks',E+'instructions.rs')],['result of execution with a fault at read k, for every k'])
p('C22','No bytecode or transaction can crash, hang or corrupt the host',
 "Executing any bytecode with any transaction fields, block environment, oracle contents and bucket capacities terminates in time bounded by gas without panic, arithmetic overflow, undefined behaviour or unbounded recursion, under every spec.",
 ['inputs','programs'],'all byte strings as code or calldata, transaction fields and environments',
 'Tests run well-formed programs only.',
 [E+'instructions.rs',E+'execution.rs',L+'mod.rs',SB+'execution.rs',X+'gas.rs'],
 [('stack inspection by unchecked index',E+'instructions.rs'),('recursive delegation lookup',E+'instructions.rs')],['process survival under debug assertions, overflow checks, Miri and AddressSanitizer'])
p('C23','Contract and init code size limits are 512 KiB and 536 KiB from MiniRex on',
 "From MiniRex on, deploying code of up to 524,288 bytes and init code of up to 548,864 bytes is allowed, and larger ones are rejected exactly as the standard EVM rejects its own limits (24,576 and 49,152 bytes, which Equivalence keeps), for creation transactions, CREATE and CREATE2 alike and regardless of how the EVM was constructed, unless the configuration sets explicit limits.",
 ['inputs','configurations'],'all sizes, creation paths, construction paths and specs',
 'Tests check single sizes through one construction path.',
 [E+'context.rs',E+'factory.rs',K],[('cfg defaults for size limits',E+'context.rs')],['result of creation at boundary sizes'])
p('C24','Precompiles cost and compute as specified and count as compute gas',
 "Each precompile returns the standard result at the standard price, except that from MiniRex on KZG point evaluation costs 100,000 gas and ModExp follows the EIP-7883 schedule; its gas is charged to the caller and counted as compute gas, failures consume the forwarded gas, and an environment-supplied override applies only where configured.",
 ['inputs'],'all inputs, gas amounts, call kinds and specs',
 'Tests check one input per modified precompile.',
 [E+'precompiles.rs'],[('spec-specific precompile set and compute recording',E+'precompiles.rs')],['output, gas and compute gas of direct and nested precompile calls'])
p('C25','Returned states record every read and compose without loss',
 "The state returned for an executed transaction contains every account and storage slot its execution read from the database, reads inside a keyless deployment and in reverted frames included, so that a stateless node can be given a witness; the block hashes and SALT buckets reported for a block are those it used. Merging the returned states of consecutive transactions with merge_evm_state, or keeping the transactions in one journal and finalizing once, yields the same final state as committing them one at a time: code, storage, nonces and balances survive, everything read stays listed, entries already present keep their warmth and new ones are cold.",
 ['histories','programs','inputs'],'all transaction sequences, including keyless deployments, destroyed accounts and databases that return code lazily',
 'Tests merge hand-made two-account states.',
 [E+'state.rs',E+'instructions.rs',SB+'execution.rs',SB+'state.rs',B+'executor.rs'],
 [('merge_evm_state',E+'state.rs'),('inspect_account, inspect_storage',E+'instructions.rs'),('apply_sandbox_state',SB+'execution.rs')],['database reads','returned EvmState','merged EvmState','accessed block hashes and bucket ids'])
ST='crates/state-test/src/'
p('C26','The state-test tool accepts a test exactly when the execution matches it',
 "The state-test command succeeds exactly when every test of every given suite matches: the transaction built from the unit's parts and the test's data/gas/value indexes (sender by address or secret key, type by its fields, access lists and authorizations), executed on the unit's pre-state, block and fork (MiniRex as MiniRex, every Ethereum fork as Equivalence; Constantinople is not run), is rejected if and only if an exception is expected, and otherwise has the expected state root (leaving out the base fee vault), logs hash and, where given, output. One wrong expectation in any file, unit, fork or position, a malformed suite or a missing path makes it fail, for every number of threads and every option; skipped file names are the documented ones. The JSON outcome of a test states its real state root, logs hash, gas used, output and verdict.",
 ['inputs','configurations','histories'],'all suites, expectations, directory layouts and options',
 'The repository tests parse two JSON fragments and never run the tool; no suite is checked in.',
 [ST+'runner.rs',ST+'utils.rs',ST+'types/test.rs',ST+'types/test_unit.rs',ST+'types/transaction.rs',ST+'types/test_authorization.rs',ST+'main.rs'],
 [('execute_test_suite, check_evm_execution, run',ST+'runner.rs'),('state and logs roots',ST+'utils.rs'),('Test::tx_env',ST+'types/test.rs'),('TestUnit::state, TestUnit::block_env',ST+'types/test_unit.rs')],['exit code and output of the state-test binary'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
