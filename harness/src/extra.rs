//! Oracles that need no model: stock Optimism EVM, fresh instances, repetition, fault injection.
use crate::diff::{same, status_class, trace_diff, world_diff, Stat};
use crate::env::*;
use crate::gen::{self, Profile};
use crate::model::{Model, Status};
use crate::real::{self, make, recorder, RealOut};
use crate::report::{Ctx, Module};
use mega_evm::op_revm::{DefaultOp, L1BlockInfo, OpBuilder, OpContext, OpEvm, OpSpecId, OpTransaction};
use mega_evm::revm::context::{result::ExecutionResult, CfgEnv, Context, TxEnv};
use mega_evm::revm::{ExecuteEvm, InspectEvm};
use mega_evm::alloy_primitives::Address;
use mega_evm::MegaSpecId as S;
use std::sync::Arc;

/// The transaction with its nonce resolved against the current world.
pub fn resolve(t: &TxSpec, w: &World) -> TxSpec {
    let mut t = t.clone();
    if t.auto_nonce {
        t.nonce = w.get(&t.caller).map_or(0, |a| a.nonce);
    }
    t
}
/// Bounds the amount of work of a generated case by the model's step counter.
fn too_long(m: &mut Model, t: &TxSpec, max: u64) -> (bool, World) {
    m.steps = 0;
    let o = m.tx(t);
    (m.steps > max, o.world)
}

/// C01: the stock Optimism Isthmus EVM, same pre-state, block and transaction.
pub fn op_differential(c: &Ctx, quick_secs: u64) {
    let p = Profile { specs: vec![S::EQUIVALENCE], tx_7702: 14, tx_deposit: 16, tx_system: 8, tx_oracle: 6, tx_keyless: 3, destroy: 5, tx_bad: 8, precompile: 5, sizes: 6, max_txs: 4, ..Profile::default() };
    let m = Module { name: "op-revm", quick: 2_000_000, thorough: 100_000_000, quick_secs, thorough_secs: quick_secs * 40, rule: "each transaction runs on MegaEvm(EQUIVALENCE) and on stock op-revm Isthmus over the same state; result, error, state and opcode trace must be equal" };
    c.par(&m, |i, st| {
        let mut sc = gen::scenario(c.seed, i, &p, "C01/op");
        sc.no_fees = false;
        // the limits and environments of MegaETH must have no influence under Equivalence
        if i % 2 == 0 {
            sc.limits = Limits { compute: 30_000, data: 150, kv: 2, growth: 0, cap_block: 22_000, cap_oracle: 22_000 };
        }
        let mut frng = crate::rng::Rng::stream(c.seed, "C01/flags", i);
        if frng.pct(50) {
            sc.flags = Some(CfgFlags::random(&mut frng));
        }
        let mut out = vec![];
        // the environment an instance was given is the one it hands back
        if i % 16 == 0 {
            use mega_evm::alloy_evm::Evm as _;
            let (_, env) = make(&sc).evm.finish();
            let (block, cfg) = (real::block_env(&sc.block), real::cfg_of(&sc));
            if env.block_env != block || env.cfg_env != cfg {
                out.push(format!("environment handed back: {env:?} instead of {block:?} {cfg:?}"));
            }
        }
        let mut w = sc.world.clone();
        let mut model = Model::new(&sc);
        let mut plain = make(&sc);
        let mut traced = make(&sc).with_inspector(recorder());
        let mut cfg = CfgEnv::new_with_spec(OpSpecId::ISTHMUS);
        cfg.chain_id = sc.chain_id;
        cfg.limit_contract_code_size = sc.max_code;
        cfg.limit_contract_initcode_size = sc.max_initcode;
        if let Some(f) = &sc.flags {
            f.apply(&mut cfg);
        }
        let mk = |w: &Arc<World>| {
            let mut db = MonDb::new(w.clone());
            db.lazy_code = sc.lazy_code;
            Context::op().with_db(db).with_block(real::block_env(&sc.block)).with_cfg(cfg.clone()).with_chain(L1BlockInfo::default())
        };
        let mut chain = L1BlockInfo::default();
        for (k, t) in sc.txs.iter().enumerate() {
            let t = &resolve(t, &w);
            let (long, _) = too_long(&mut model, t, 200_000);
            // what the model would reject may run to its gas limit with the checks switched off
            if long || (sc.flags.is_some() && t.gas_limit > 2_000_000) {
                st.skipped += 1;
                break;
            }
            let r = plain.tx(t);
            use mega_evm::alloy_evm::Evm as _;
            *traced.evm.inspector_mut() = recorder();
            let rt = traced.tx(t);
            let tx: OpTransaction<TxEnv> = real::mega_tx(t, sc.chain_id);
            let mut ctx: OpContext<MonDb> = mk(&w);
            ctx.chain = chain.clone();
            let mut evm = ctx.build_op();
            let op = evm.transact(tx.clone());
            chain = evm.0.ctx.chain.clone();
            let mut evm2: OpEvm<OpContext<MonDb>, _> = mk(&w).build_op_with_inspector(recorder());
            let _ = evm2.inspect_tx(tx);
            let trace = std::mem::take(&mut evm2.0.inspector.trace);
            let next = match (&op, &r.raw) {
                (Err(e), None) => {
                    let a = format!("{e:?}");
                    let Status::Err(b) = &r.o.status else { unreachable!() };
                    if &a != b {
                        out.push(format!("tx {k}: error differs: op {a} mega {b}"));
                    }
                    None
                }
                (Ok(o), Some(m)) => {
                    let a = format!("{:?}", o.result);
                    let b = match &m.result {
                        ExecutionResult::Halt { reason: mega_evm::MegaHaltReason::Base(h), gas_used } => format!("{:?}", ExecutionResult::Halt { reason: h.clone(), gas_used: *gas_used }),
                        x => format!("{x:?}"),
                    };
                    if a != b {
                        out.push(format!("tx {k}: op {a} mega {b}"));
                    }
                    let mut wo = (*w).clone();
                    apply_state(&mut wo, &o.state);
                    if let Some(d) = world_diff(&r.o.world, &wo) {
                        out.push(format!("tx {k}: state (real = mega, model = op-revm): {d}"));
                    }
                    if let Some(d) = trace_diff(&traced.evm.inspector().trace, &trace) {
                        out.push(format!("tx {k}: trace (real = mega, model = op-revm): {d}"));
                    }
                    Some(wo)
                }
                (a, _) => {
                    out.push(format!("tx {k}: op {:?} mega {:?}", a.as_ref().map(|x| &x.result), r.o.status));
                    None
                }
            };
            let mut d2 = vec![];
            same(k, &r, &rt, &mut d2);
            out.extend(d2.into_iter().map(|d| format!("tx {k}: inspected run differs: {}", d.text)));
            st.txs += 1;
            st.steps += trace.len() as u64;
            *st.statuses.entry(match &r.o.status { Status::Err(_) => "Rejected".into(), s => status_class(s) }).or_default() += 1;
            st.note(&format!("{:?}|{}|{}|{}", t.ty, r.halt, r.o.gas_used, trace.len()));
            if !out.is_empty() {
                out.insert(0, format!("{:?} {:?}->{:?} gas {} value {}", t.ty, t.caller, t.to, t.gas_limit, t.value));
                break;
            }
            if let Some(n) = next {
                w = Arc::new(n);
                plain.set_world(w.clone());
                traced.set_world(w.clone());
            }
            model.set_world(w.clone());
        }
        out
    });
}
/// C15: one long-lived instance against a fresh one per transaction.
pub fn fresh_instance(c: &Ctx, quick_secs: u64) {
    let p = Profile { max_txs: 8, tx_bad: 20, tight: 45, tight_compute: 20, tight_caps: 40, env: 8, oracle: 6, tx_system: 10, tx_deposit: 14, tx_keyless: 6, ..Profile::default() };
    let m = Module { name: "fresh", quick: 2_000_000, thorough: 100_000_000, quick_secs, thorough_secs: quick_secs * 40, rule: "every transaction of a sequence runs on the instance that ran all previous ones (half of the scenarios switch the inspector on and off between transactions, a third discard outcomes instead of committing) and on a fresh instance; outcomes must be equal" };
    c.par(&m, |i, st| {
        let sc = gen::scenario(c.seed, i, &p, "C15/fresh");
        let mut out = vec![];
        let mut w = sc.world.clone();
        let mut model = Model::new(&sc);
        let mut long = make(&sc).with_inspector(recorder());
        use mega_evm::alloy_evm::Evm as _;
        let mut rng = crate::rng::Rng::stream(c.seed, "C15/sched", i);
        let mut before: std::collections::BTreeSet<_> = Default::default();
        let mut sc = sc;
        let mut warm = false;
        for k in 0..sc.txs.len() {
            if k > 0 && rng.pct(25) {
                // the next block, with other SALT capacities and possibly another beneficiary
                sc.block.number += rng.below(2);
                sc.block.timestamp += rng.below(5);
                if rng.pct(50) {
                    sc.block.beneficiary = *rng.pick(&[gen::eoa(0), gen::eoa(1), gen::con(0), gen::con(1), gen::none(0), gen::none(9)]);
                }
                if rng.pct(60) {
                    sc.salt_mode = rng.below(7);
                    long.salt.mode.set(sc.salt_mode);
                    model.set_salt_mode(sc.salt_mode);
                }
                use mega_evm::revm::{context_interface::ContextSetters, handler::EvmTr};
                long.evm.ctx_mut().set_block(real::block_env(&sc.block));
                model.new_block(sc.block.clone());
                before.clear();
                warm = false;
                st.hit("new_block");
            }
            let exempt0 = sc.spec < S::REX1 && sc.spec != S::EQUIVALENCE && model_carry(&model);
            // a journal that has run a transaction has the precompiles and the beneficiary warm for system calls too
            // (revm): the fresh instance therefore runs a trivial transaction first
            if warm && (sc.spec >= S::REX1 || sc.spec == S::EQUIVALENCE) && rng.pct(30) {
                let (to, n) = (*rng.pick(&[gen::con(0), gen::con(1), gen::con(2), gen::con(3), crate::model::ORACLE, gen::del(0)]), rng.below(40) as usize);
                let input: mega_evm::alloy_primitives::Bytes = rng.bytes(n).into();
                model.steps = 0;
                model.system_call(to, input.clone());
                if model.steps > 200_000 {
                    st.skipped += 1;
                    break;
                }
                let sys = mega_evm::alloy_primitives::address!("fffffffffffffffffffffffffffffffffffffffe");
                long.evm.set_inspector_enabled(false);
                let view = |r: Result<mega_evm::revm::context::result::ResultAndState<mega_evm::MegaHaltReason>, _>| match r {
                    Ok(x) => {
                        let mut n = (*w).clone();
                        apply_state(&mut n, &x.state);
                        (format!("{:?}", x.result), n)
                    }
                    Err(e) => {
                        let e: mega_evm::revm::context::result::EVMError<_, mega_evm::MegaTransactionError> = e;
                        let _: &mega_evm::revm::context::result::EVMError<DbErr, _> = &e;
                        (format!("{e:?}"), (*w).clone())
                    }
                };
                let a = view(long.evm.transact_system_call(sys, to, input.clone()));
                let (b, fb) = {
                    let mut sc2 = sc.clone();
                    sc2.world = w.clone();
                    let mut one = make(&sc2);
                    one.tx(&TxSpec { ty: TxType::Deposit, gas_price: 0, prio: 0, ..TxSpec::call(gen::eoa(0), gen::none(8), 200_000) });
                    let b = view(one.evm.transact_system_call(sys, to, input.clone()));
                    let fb: std::collections::BTreeSet<_> = one.evm.get_accessed_bucket_ids().into_iter().collect();
                    (b, fb)
                };
                before.extend(fb);
                if !exempt0 {
                    if a.0 != b.0 {
                        out.push(format!("system call to {to} before tx {k} ({:?}): long-lived {} fresh {}", sc.spec, a.0, b.0));
                    } else if let Some(d) = world_diff(&a.1, &b.1) {
                        out.push(format!("system call to {to} before tx {k} ({:?}): state (real = long-lived, model = fresh) {d}", sc.spec));
                    }
                }
                st.hit("system_call");
                if !out.is_empty() {
                    break;
                }
            }
            let t = &resolve(&sc.txs[k], &w);
            let (lng, _) = too_long(&mut model, t, 200_000);
            if lng {
                st.skipped += 1;
                break;
            }
            let insp = i % 2 == 0 && rng.pct(50);
            long.evm.set_inspector_enabled(insp);
            *long.evm.inspector_mut() = recorder();
            let r = long.tx(t);
            let f = {
                let mut sc2 = sc.clone();
                sc2.world = w.clone();
                let mut one = make(&sc2);
                one.tx(t)
            };
            // buckets accumulate over the block: the long-lived instance knows the union
            // before Rex1 a lowered compute cap carries over by specification
            let exempt = sc.spec < S::REX1 && sc.spec != S::EQUIVALENCE && model_carry(&model);
            before.extend(f.buckets.iter().copied());
            if exempt {
                before = r.buckets.clone();
            }
            if before != r.buckets {
                out.push(format!("tx {k}: accessed buckets {:?}, union of the fresh runs {:?}", r.buckets, before));
            }
            warm |= !matches!(r.o.status, Status::Err(_) | Status::FailedDeposit);
            let f2 = RealOut { buckets: r.buckets.clone(), ..f };
            if !exempt {
                let mut d = vec![];
                same(k, &r, &f2, &mut d);
                out.extend(d.into_iter().map(|d| format!("tx {k} of {} ({:?}), after {:?}: long-lived vs fresh: {}", sc.txs.len(), sc.spec, sc.txs[..k].iter().map(|t| t.ty).collect::<Vec<_>>(), d.text)));
            } else {
                st.hit("carry_over_exempt");
            }
            st.txs += 1;
            *st.statuses.entry(match &r.o.status { Status::Err(_) => "Rejected".into(), s => status_class(s) }).or_default() += 1;
            st.note(&format!("{:?}|{}|{}|{}|{}", sc.spec, k, status_class(&r.o.status), r.o.gas_used, r.o.compute));
            if !out.is_empty() {
                break;
            }
            if !rng.pct(33) {
                w = Arc::new(r.o.world.clone());
                long.set_world(w.clone());
                st.hit("committed");
            } else {
                st.hit("outcome_discarded");
            }
            model.set_world(w.clone());
        }
        out
    });
}
fn model_carry(m: &Model) -> bool {
    m.reach.n.keys().any(|k| k.starts_with("volatile_") || k.starts_with("oracle_"))
}

/// C16: every way of running the same transaction gives the same outcome.
pub fn determinism(c: &Ctx, quick_secs: u64) {
    let p = Profile { max_txs: 2, tx_bad: 5, tx_keyless: 6, ..Profile::default() };
    let m = Module { name: "entry-points", quick: 2_000_000, thorough: 100_000_000, quick_secs, thorough_secs: quick_secs * 40, rule: "the same transaction through execute_transaction, inspect_transaction, transact, inspect_tx, transact_one + finalize, replay, with a database that returns code eagerly or by hash, with extra vector capacity in the envelope, and with hash maps seeded differently; all outcomes must be equal" };
    c.par(&m, |i, st| {
        use mega_evm::alloy_evm::Evm as _;
        let sc = gen::scenario(c.seed, i, &p, "C16/entry");
        let mut out = vec![];
        let mut w = sc.world.clone();
        let mut model = Model::new(&sc);
        for (k, t) in sc.txs.iter().enumerate() {
            let t = &resolve(t, &w);
            if too_long(&mut model, t, 100_000).0 {
                st.skipped += 1;
                break;
            }
            let mut s2 = sc.clone();
            s2.world = w.clone();
            let base = make(&s2).tx(t);
            let mut chk = |name: &'static str, r: &RealOut| {
                let mut d = vec![];
                same(k, &base, r, &mut d);
                out.extend(d.into_iter().map(|d| format!("tx {k} {:?} {:?}->{:?} {name}: {}", sc.spec, t.ty, t.caller, d.text)));
                st.hit(name);
            };
            chk("repeat", &make(&s2).tx(t));
            let mut s3 = s2.clone();
            s3.lazy_code = !s3.lazy_code;
            chk("lazy_code_flipped", &make(&s3).tx(t));
            let tx = real::mega_tx(t, sc.chain_id);
            let mut roomy = tx.clone();
            roomy.base.access_list.0.reserve_exact(7);
            for x in &mut roomy.base.access_list.0 {
                x.storage_keys.reserve_exact(9);
            }
            roomy.base.authorization_list.reserve_exact(5);
            let run = |r: &mut real::Real<real::Recorder>, f: &mut dyn FnMut(&mut real::Evm<real::Recorder>) -> Option<(ExecutionResult<mega_evm::MegaHaltReason>, mega_evm::revm::state::EvmState)>| -> RealOut {
                let res = f(&mut r.evm);
                r.collect(res, &base)
            };
            let fresh = || make(&s2).with_inspector(recorder());
            chk("vector_capacity", &run(&mut fresh(), &mut |e| e.execute_transaction(roomy.clone()).ok().map(|m| (m.result, m.state))));
            chk("inspect_transaction", &run(&mut fresh(), &mut |e| e.inspect_transaction(tx.clone()).ok().map(|m| (m.result, m.state))));
            chk("transact_raw_inspected", &run(&mut fresh(), &mut |e| { e.set_inspector_enabled(true); e.transact_raw(tx.clone()).ok().map(|m| (m.result, m.state)) }));
            chk("transact_raw_plain", &run(&mut fresh(), &mut |e| { e.set_inspector_enabled(false); e.transact_raw(tx.clone()).ok().map(|m| (m.result, m.state)) }));
            chk("transact_one_finalize", &run(&mut fresh(), &mut |e| { let r = ExecuteEvm::transact_one(e, tx.clone()); let s = ExecuteEvm::finalize(e); r.ok().map(|x| (x, s)) }));
            chk("inspect_one_finalize", &run(&mut fresh(), &mut |e| { let r = e.inspect_one_tx(tx.clone()); let s = ExecuteEvm::finalize(e); r.ok().map(|x| (x, s)) }));
            st.txs += 1;
            *st.statuses.entry(match &base.o.status { Status::Err(_) => "Rejected".into(), s => status_class(s) }).or_default() += 1;
            st.note(&format!("{:?}|{}|{}|{}", sc.spec, status_class(&base.o.status), base.o.gas_used, base.o.compute));
            if !out.is_empty() {
                break;
            }
            w = Arc::new(base.o.world);
            model.set_world(w.clone());
        }
        out
    });
}

/// C21: a fault at every database and SALT read of a transaction, one at a time.
pub fn faults(c: &Ctx, quick_secs: u64, fault_db: bool, name: &'static str) {
    let p = Profile { max_txs: 3, tx_bad: 3, tx_keyless: 8, tx_7702: 12, sstore: 14, create: 10, acct: 8, env: 6, destroy: 4, oracle: 5, salt: 100, tight: 15, tight_compute: 8, tight_caps: 10, ..Profile::default() };
    let m = Module { name, quick: 2_000_000, thorough: 100_000_000, quick_secs, thorough_secs: quick_secs * 40, rule: "the fault-free run counts the reads; then for every read position (up to 400) the same transaction runs with exactly that read failing, and afterwards once more on the same instance with the fault cleared; events count the faults that struck and how they surfaced" };
    c.par(&m, |i, st| {
        let sc = gen::scenario(c.seed, i, &p, if fault_db { "C21/db" } else { "C21/salt" });
        let mut out = vec![];
        let mut w = sc.world.clone();
        let mut model = Model::new(&sc);
        for (k, t) in sc.txs.iter().enumerate() {
            let t = &resolve(t, &w);
            if too_long(&mut model, t, 5_000).0 {
                st.skipped += 1;
                break;
            }
            let mut s2 = sc.clone();
            s2.world = w.clone();
            let mut r0 = make(&s2);
            let base = r0.tx(t);
            let n = if fault_db { r0.db.reads.get() } else { r0.salt.log.borrow().queries.len() as u64 };
            for pos in 1..=n.min(400) {
                let mut r = make(&s2).with_inspector(recorder());
                if pos % 3 != 0 {
                    use mega_evm::alloy_evm::Evm as _;
                    r.evm.set_inspector_enabled(false);
                }
                if fault_db {
                    r.db.fail_at.set(pos);
                } else {
                    r.salt.log.borrow_mut().fail_at = pos;
                }
                let f = match crate::report::guard(|| r.tx(t)) {
                    crate::report::Caught::Done(f) => f,
                    crate::report::Caught::Panicked(e) => {
                        out.push(format!("tx {k} {:?} {:?}->{:?}: fault at read {pos} of {n}: {e}", sc.spec, t.ty, t.to));
                        break;
                    }
                    crate::report::Caught::Internal(e) => panic!("{e}"),
                };
                let struck = if fault_db { r.db.failed.get() > 0 } else { r.salt.log.borrow().failed > 0 };
                if !struck {
                    out.push(format!("tx {k}: read {pos} of {n} not reached: {:?}", f.o.status));
                    break;
                }
                st.hit("fault_struck");
                match &f.o.status {
                    Status::Err(e) if e.contains("injected-") || !e.starts_with("Transaction(") => st.hit("surfaced_as_error"),
                    // nothing but the injected error can turn an accepted transaction into a rejected one
                    Status::Err(e) if !matches!(base.o.status, Status::Err(_)) => {
                        out.push(format!("tx {k} {:?}: fault at read {pos} of {n} turned an accepted transaction into an invalid one: {e}", sc.spec));
                        break;
                    }
                    _ => {
                        let mut d = vec![];
                        same(k, &base, &f, &mut d);
                        if let Some(d) = d.first() {
                            out.push(format!("tx {k} {:?} {:?}->{:?}: fault at read {pos} of {n} changed the outcome silently: {}", sc.spec, t.ty, t.to, d.text));
                            break;
                        }
                        st.hit("fault_without_effect");
                    }
                }
                // recovery
                if fault_db {
                    r.db.fail_at.set(0);
                } else {
                    r.salt.log.borrow_mut().fail_at = 0;
                }
                let again = r.tx(t);
                let exempt = sc.spec < S::REX1 && sc.spec != S::EQUIVALENCE && model_carry(&model);
                let mut d = vec![];
                if !exempt {
                    same(k, &base, &again, &mut d);
                }
                if let Some(d) = d.first() {
                    out.push(format!("tx {k} {:?} {:?}->{:?}: re-execution after the fault at read {pos} of {n} cleared differs: {}", sc.spec, t.ty, t.to, d.text));
                    break;
                }
                st.hit("recovered");
            }
            st.txs += n;
            *st.statuses.entry(match &base.o.status { Status::Err(_) => "Rejected".into(), s => status_class(s) }).or_default() += 1;
            st.note(&format!("{:?}|{}|{}|{}|{n}", sc.spec, status_class(&base.o.status), base.o.gas_used, base.o.compute));
            if !out.is_empty() {
                break;
            }
            w = Arc::new(base.o.world);
            model.set_world(w.clone());
        }
        out
    });
}

/// Answers zero-value calls of contracts that consist of STOP as those contracts do.
#[derive(Default)]
pub struct Interceptor {
    pub on: bool,
    pub intercepted: u64,
    pub depth: u64,
    pub max_depth: u64,
}
use mega_evm::revm::interpreter::{CallInputs, CallOutcome, CreateInputs, CreateOutcome, Gas, InstructionResult, InterpreterResult};
impl<C> mega_evm::revm::Inspector<C> for Interceptor {
    fn call(&mut self, _c: &mut C, i: &mut CallInputs) -> Option<CallOutcome> {
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        let stop = (3..6).any(|k| i.bytecode_address == gen::con(k));
        if self.on && stop && !i.transfers_value() && i.target_address != crate::model::ORACLE {
            self.intercepted += 1;
            return Some(CallOutcome::new(InterpreterResult::new(InstructionResult::Stop, Default::default(), Gas::new(i.gas_limit)), i.return_memory_offset.clone()));
        }
        None
    }
    fn call_end(&mut self, _c: &mut C, _i: &CallInputs, _o: &mut CallOutcome) {
        self.depth -= 1;
    }
    fn create(&mut self, _c: &mut C, _i: &mut CreateInputs) -> Option<CreateOutcome> {
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        None
    }
    fn create_end(&mut self, _c: &mut C, _i: &CreateInputs, _o: &mut CreateOutcome) {
        self.depth -= 1;
    }
}
/// C16: an inspector that answers a call exactly as the callee would have leaves no trace.
pub fn intercept(c: &Ctx, quick_secs: u64) {
    let p = Profile { max_txs: 3, call: 40, create: 8, sstore: 14, tight: 35, tight_compute: 15, tight_caps: 10, ..Profile::default() };
    let m = Module { name: "intercept", quick: 1_000_000, thorough: 50_000_000, quick_secs, thorough_secs: quick_secs * 40, rule: "an inspector answers zero-value calls to contracts consisting of STOP the way those contracts do; the outcome must equal the run in which it does not; only transactions with an intercepted call count" };
    c.par(&m, |i, st| {
        use mega_evm::alloy_evm::Evm as _;
        let mut sc = gen::scenario(c.seed, i, &p, "C16/intercept");
        let mut w0 = (*sc.world).clone();
        for k in 3..6 {
            if let Some(a) = w0.get_mut(&gen::con(k)) {
                a.code = vec![0u8].into();
            }
        }
        sc.world = Arc::new(w0);
        let mut out = vec![];
        let mut w = sc.world.clone();
        let mut model = Model::new(&sc);
        let mut a = make(&sc).with_inspector(Interceptor::default());
        let mut b = make(&sc).with_inspector(Interceptor { on: true, ..Default::default() });
        for (k, t) in sc.txs.iter().enumerate() {
            let t = &resolve(t, &w);
            if too_long(&mut model, t, 100_000).0 {
                st.skipped += 1;
                break;
            }
            a.evm.inspector_mut().max_depth = 0;
            let n0 = b.evm.inspector().intercepted;
            let x = a.tx(t);
            if a.evm.inspector().max_depth > 1000 {
                st.skipped += 1;
                break;
            }
            let y = b.tx(t);
            let mut d = vec![];
            same(k, &x, &y, &mut d);
            out.extend(d.into_iter().map(|d| format!("tx {k} {:?} {:?} {:?}->{:?}: (not intercepted) vs (intercepted): {}", sc.spec, t.ty, t.caller, t.to, d.text)));
            let n = b.evm.inspector().intercepted - n0;
            if n > 0 {
                st.hit("tx_with_intercepted_call");
                st.txs += 1;
                st.note(&format!("{:?}|{}|{}|{}|{n}", sc.spec, status_class(&x.o.status), x.o.gas_used, x.o.compute));
            }
            *st.statuses.entry(match &x.o.status { Status::Err(_) => "Rejected".into(), s => status_class(s) }).or_default() += 1;
            if !out.is_empty() {
                break;
            }
            w = Arc::new(x.o.world);
            a.set_world(w.clone());
            b.set_world(w.clone());
            model.set_world(w.clone());
        }
        out
    });
}

/// C16: several transactions kept in one journal, and the states of several transactions merged, against one commit
/// per transaction.
pub fn batch(c: &Ctx, quick_secs: u64) {
    use mega_evm::alloy_evm::Evm as _;
    let p = Profile { max_txs: 6, tx_bad: 6, tx_keyless: 8, destroy: 4, precompile: 0, specs: gen::SPECS[1..].to_vec(), ..Profile::default() };
    let m = Module { name: "batch", quick: 2_000_000, thorough: 100_000_000, quick_secs, thorough_secs: quick_secs * 40, rule: "a sequence of transactions through transact_one on one instance with a single finalize at the end, and the states of the transactions merged by merge_evm_state, against one fresh instance and one commit per transaction; results and final states must be equal" };
    c.par(&m, |i, st| {
        let mut sc = gen::scenario(c.seed, i, &p, "C16/batch");
        // an address that only the COINBASE instruction gives away
        sc.block.beneficiary = Address::repeat_byte(0xbe);
        let mut out = vec![];
        let mut w = sc.world.clone();
        let mut model = Model::new(&sc);
        let mut all = make(&sc);
        let mut merged = mega_evm::revm::state::EvmState::default();
        let mut one = true;
        for (k, t) in sc.txs.iter().enumerate() {
            let t = &resolve(t, &w);
            if too_long(&mut model, t, 100_000).0 {
                st.skipped += 1;
                break;
            }
            let mut s2 = sc.clone();
            s2.world = w.clone();
            let base = make(&s2).tx(t);
            let exempt = sc.spec < S::REX1 && sc.spec != S::EQUIVALENCE && model_carry(&model);
            // Not the code under test: in a journal with several transactions revm takes a beneficiary or precompile
            // that was loaded before as cold, and op-revm leaves what a rejected transaction or failed deposit did.
            if matches!(base.o.status, Status::Err(_)) {
                st.hit("rejected_not_batched");
                continue;
            }
            let Some(raw) = &base.raw else { unreachable!() };
            let low = |a: &Address| a.0[..18].iter().all(|b| *b == 0);
            if exempt || base.o.status == Status::FailedDeposit || base.o.flags & (1 << 2 | 1 << 10) != 0 || raw.state.keys().any(low) {
                st.hit("batch_cut_short");
                break;
            }
            if !one {
                merge_checked(&mut merged, &raw.state, &mut out);
                w = Arc::new(base.o.world);
                model.set_world(w.clone());
                st.hit("merged_only");
                continue;
            }
            let tx = real::mega_tx(t, sc.chain_id);
            let r = ExecuteEvm::transact_one(&mut all.evm, tx);
            let (a, b) = (r.as_ref().map(|x| format!("{x:?}")).unwrap_or_else(|e| format!("{e:?}")), match (&base.raw, &base.o.status) {
                (Some(m), _) => format!("{:?}", m.result),
                (None, Status::Err(e)) => e.clone(),
                _ => unreachable!(),
            });
            // Transactions after the first pay for warm accounts as for cold ones in revm's journal (an account loaded
            // from the database carries the number of the first transaction). A keyless deployment runs in a journal of
            // its own and is not affected.
            let usage = base.raw.is_some().then(|| {
                let u = all.evm.additional_limit.borrow().get_usage();
                ((u.data_size, u.kv_updates, u.compute_gas, u.state_growth), (base.o.data, base.o.kv, base.o.compute, base.o.growth))
            });
            let differs = a != b || usage.is_some_and(|(u, v)| u != v);
            if differs && t.to == Some(crate::model::KEYLESS) && t.ty != TxType::SetCode && sc.spec >= S::REX2 {
                out.push(format!("tx {k} of {:?} {:?} {:?}->{:?}: in one journal {a}, on its own {b}; usage {usage:?}", sc.txs[..=k].iter().map(|t| t.ty).collect::<Vec<_>>(), sc.spec, t.caller, t.to));
            }
            if differs {
                st.hit("journal_differs");
                one = false;
            } else if one {
                st.hit(if t.to == Some(crate::model::KEYLESS) { "one_journal_keyless" } else { "one_journal" });
            }
            st.txs += 1;
            *st.statuses.entry(match &base.o.status { Status::Err(_) => "Rejected".into(), s => status_class(s) }).or_default() += 1;
            st.note(&format!("{:?}|{}|{}|{}", sc.spec, status_class(&base.o.status), base.o.gas_used, base.o.compute));
            // revm's journal keeps an account destroyed that a later transaction funds again
            one &= !all.evm.journaled_state().state.values().any(|a| a.is_selfdestructed());
            merge_checked(&mut merged, &raw.state, &mut out);
            if !out.is_empty() {
                break;
            }
            w = Arc::new(base.o.world);
            model.set_world(w.clone());
        }
        if out.is_empty() {
            let s = ExecuteEvm::finalize(&mut all.evm);
            let tidy = |mut w: World| {
                normalize(&mut w);
                w
            };
            let w = tidy((*w).clone());
            let mut a = (*sc.world).clone();
            apply_state(&mut a, &s);
            if let Some(d) = one.then(|| world_diff(&tidy(a), &w)).flatten() {
                out.push(format!("{:?}: final state (real = one journal, model = one commit per transaction): {d}", sc.spec));
            }
            let mut a = (*sc.world).clone();
            apply_state(&mut a, &merged);
            if let Some(d) = world_diff(&tidy(a), &w) {
                out.push(format!("{:?}: final state (real = merged states, model = one commit per transaction): {d}", sc.spec));
            }
        }
        out
    });
}
/// Merges `other` and checks what the documentation of the merge promises: everything read or written is in the
/// result, what was there keeps its warmth, what is new is cold and not local to a transaction.
fn merge_checked(this: &mut mega_evm::revm::state::EvmState, other: &mega_evm::revm::state::EvmState, out: &mut Vec<String>) {
    let before = this.clone();
    mega_evm::merge_evm_state(this, other);
    for (a, x) in other {
        let Some(m) = this.get(a) else {
            out.push(format!("merge: account {a} is missing"));
            continue;
        };
        let cold = |x: &mega_evm::revm::state::Account| x.status.contains(mega_evm::revm::state::AccountStatus::Cold);
        match before.get(a) {
            Some(b) if cold(b) != cold(m) => out.push(format!("merge: coldness of account {a} changed from {} to {}", cold(b), cold(m))),
            None if !cold(m) => out.push(format!("merge: new account {a} is not cold")),
            _ => {}
        }
        if !before.contains_key(a) && (m.is_created_locally() || m.is_selfdestructed_locally()) {
            out.push(format!("merge: account {a} is local to a transaction: {:?}", m.status));
        }
        if x.is_selfdestructed() {
            if !m.info.is_empty() || !m.is_touched() || m.is_selfdestructed() {
                out.push(format!("merge: destroyed account {a} is {m:?}"));
            }
            continue;
        }
        for (k, v) in &x.storage {
            let Some(s) = m.storage.get(k) else {
                out.push(format!("merge: slot {k} of {a} is missing"));
                continue;
            };
            let want = before.get(a).and_then(|b| b.storage.get(k)).is_none_or(|b| b.is_cold);
            if s.is_cold != want || s.present_value != v.present_value {
                out.push(format!("merge: slot {k} of {a} is {s:?}, coldness should be {want} and value {}", v.present_value));
            }
        }
    }
    for (a, b) in &before {
        if !other.contains_key(a) && this.get(a) != Some(b) {
            out.push(format!("merge: account {a} changed although it is not in the merged state"));
        }
    }
}

/// C25: everything a transaction read is in the state it returns, so that the reads of a block can be proved to a
/// node that has no database.
pub fn read_set(c: &Ctx, quick_secs: u64) {
    let p = Profile { max_txs: 3, tx_keyless: 8, tight: 30, tight_compute: 15, tx_system: 6, tx_oracle: 8, oracle: 6, ..Profile::default() };
    let m = Module { name: "read-set", quick: 2_000_000, thorough: 100_000_000, quick_secs, thorough_secs: quick_secs * 40, rule: "every account and storage slot that execution asked the database for (keyless deployments included) is in the returned state; exempt are the L1 fee parameters, which op-revm reads past the journal, and lookups of a transaction or keyless deployment that is turned down before it executes" };
    c.par(&m, |i, st| {
        let sc = gen::scenario(c.seed, i, &p, "C25/reads");
        let mut out = vec![];
        let mut w = sc.world.clone();
        let mut model = Model::new(&sc);
        for (k, t) in sc.txs.iter().enumerate() {
            let t = &resolve(t, &w);
            if too_long(&mut model, t, 100_000).0 {
                st.skipped += 1;
                break;
            }
            let mut s2 = sc.clone();
            s2.world = w.clone();
            let mut one = make(&s2);
            let log: std::rc::Rc<std::cell::RefCell<ReadLog>> = Default::default();
            one.log_reads(log.clone());
            let r = one.tx(t);
            st.txs += 1;
            *st.statuses.entry(match &r.o.status { Status::Err(_) => "Rejected".into(), s => status_class(s) }).or_default() += 1;
            let log = log.borrow();
            st.note(&format!("{:?}|{}|{}|{}", sc.spec, status_class(&r.o.status), log.accounts.len(), log.slots.len()));
            // what is looked up to validate a transaction that then does not execute is not part of the state
            let rejected = t.to == Some(crate::model::KEYLESS) && matches!(r.o.status, Status::Revert) && sc.spec >= S::REX2;
            let early = matches!(r.o.status, Status::FailedDeposit | Status::Halt | Status::Limit { .. } | Status::Volatile { .. });
            if let Some(raw) = r.raw.as_ref().filter(|_| !rejected) {
                for a in &log.accounts {
                    if early && t.to == Some(*a) {
                        continue;
                    }
                    if *a != L1_BLOCK && !raw.state.contains_key(a) {
                        out.push(format!("tx {k} {:?} {:?}->{:?} {:?}: account {a} was read but is not in the returned state", sc.spec, t.caller, t.to, r.o.status));
                    }
                }
                for (a, s) in &log.slots {
                    if *a != L1_BLOCK && raw.state.get(a).is_none_or(|x| !x.storage.contains_key(s)) {
                        // destroyed accounts are returned without storage
                        if raw.state.get(a).is_some_and(|x| x.is_selfdestructed() || (x.is_touched() && x.info.is_empty())) {
                            st.hit("slot_of_destroyed_account");
                            continue;
                        }
                        out.push(format!("tx {k} {:?} {:?}->{:?} {:?}: slot {s} of {a} was read but is not in the returned state", sc.spec, t.caller, t.to, r.o.status));
                    }
                }
                if !log.slots.is_empty() {
                    st.hit("slots_read");
                }
            }
            if !out.is_empty() {
                break;
            }
            w = Arc::new(r.o.world);
            model.set_world(w.clone());
        }
        out
    });
}
const L1_BLOCK: Address = mega_evm::alloy_primitives::address!("4200000000000000000000000000000000000015");
