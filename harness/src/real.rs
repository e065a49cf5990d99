//! Driver for the code under test: builds a `MegaEvm` from a `Scenario`, runs transactions on it and
//! records what it did (result, usages, buckets, hints, post-state, opcode trace).
use crate::env::*;
use crate::model::{LimitKind, Outcome, Status, Step};
use mega_evm::alloy_eips::eip2930::{AccessList, AccessListItem};
use mega_evm::alloy_eips::eip7702::{Authorization, RecoveredAuthority, RecoveredAuthorization};
use mega_evm::alloy_primitives::{Address, Bytes, TxKind, B256, U256};
use mega_evm::op_revm::{transaction::deposit::DepositTransactionParts, L1BlockInfo, OpHaltReason};
use mega_evm::revm::{
    context::{result::ExecutionResult, BlockEnv, CfgEnv, TxEnv},
    context_interface::block::BlobExcessGasAndPrice,
    interpreter::{
        interpreter_types::{Jumps, LoopControl},
        CallInputs, CallOutcome, CreateInputs, CreateOutcome, Interpreter,
    },
    Inspector,
};
use mega_evm::{
    BucketId, Either, EvmTxRuntimeLimits, ExternalEnvs, MegaContext, MegaEvm, MegaHaltReason,
    MegaTransaction, MegaTransactionOutcome,
};
use std::collections::BTreeSet;
use std::rc::Rc;
use std::sync::Arc;

pub fn block_env(b: &BlockSpec) -> BlockEnv {
    BlockEnv {
        number: U256::from(b.number),
        beneficiary: b.beneficiary,
        timestamp: U256::from(b.timestamp),
        gas_limit: b.gas_limit,
        basefee: b.basefee,
        difficulty: U256::ZERO,
        prevrandao: Some(b.prevrandao),
        blob_excess_gas_and_price: Some(BlobExcessGasAndPrice { excess_blob_gas: 0, blob_gasprice: b.blob_price }),
    }
}
pub fn rt_limits(l: Limits) -> EvmTxRuntimeLimits {
    if l.data % 2 == 1 {
        // the same through the builder
        return EvmTxRuntimeLimits::rex()
            .with_oracle_access_compute_gas_limit(l.cap_oracle)
            .with_tx_kv_updates_limit(l.kv)
            .with_tx_data_size_limit(l.data)
            .with_tx_state_growth_limit(l.growth)
            .with_block_env_access_compute_gas_limit(l.cap_block)
            .with_tx_compute_gas_limit(l.compute);
    }
    EvmTxRuntimeLimits {
        tx_data_size_limit: l.data,
        tx_kv_updates_limit: l.kv,
        tx_compute_gas_limit: l.compute,
        tx_state_growth_limit: l.growth,
        block_env_access_compute_gas_limit: l.cap_block,
        oracle_access_compute_gas_limit: l.cap_oracle,
    }
}
pub fn mega_tx(t: &TxSpec, chain_id: u64) -> MegaTransaction {
    let base = TxEnv {
        tx_type: match t.ty {
            TxType::Legacy => 0,
            TxType::Access => 1,
            TxType::Dynamic => 2,
            TxType::SetCode => 4,
            TxType::Deposit => 0x7e,
        },
        caller: t.caller,
        gas_limit: t.gas_limit,
        gas_price: t.gas_price,
        kind: t.to.map_or(TxKind::Create, TxKind::Call),
        value: t.value,
        data: t.input.clone(),
        nonce: t.nonce,
        chain_id: Some(chain_id),
        access_list: AccessList(
            t.access_list
                .iter()
                .map(|(a, k)| AccessListItem { address: *a, storage_keys: k.clone() })
                .collect(),
        ),
        gas_priority_fee: matches!(t.ty, TxType::Dynamic | TxType::SetCode).then_some(t.prio),
        blob_hashes: vec![],
        max_fee_per_blob_gas: 0,
        authorization_list: t
            .auths
            .iter()
            .map(|a| {
                Either::Right(RecoveredAuthorization::new_unchecked(
                    Authorization { chain_id: U256::from(a.chain_id), address: a.delegate, nonce: a.nonce },
                    match a.authority {
                        Some(x) => RecoveredAuthority::Valid(x),
                        None => RecoveredAuthority::Invalid,
                    },
                ))
            })
            .collect(),
    };
    let mut tx = MegaTransaction::new(base);
    if t.ty == TxType::Deposit {
        tx.deposit = DepositTransactionParts {
            source_hash: B256::repeat_byte(0x5a),
            mint: (t.mint != 0 || t.gas_limit % 2 == 0).then_some(t.mint),
            is_system_transaction: t.prio == crate::env::SYSTEM_DEPOSIT,
        };
        tx.enveloped_tx = None;
    } else {
        tx.deposit = DepositTransactionParts::default();
        tx.enveloped_tx = Some(t.enveloped.clone());
    }
    tx
}
pub fn cfg_of(sc: &Scenario) -> CfgEnv<mega_evm::MegaSpecId> {
    let mut c = CfgEnv::new_with_spec(sc.spec);
    c.chain_id = sc.chain_id;
    c.limit_contract_code_size = sc.max_code;
    c.limit_contract_initcode_size = sc.max_initcode;
    if let Some(f) = &sc.flags {
        f.apply(&mut c);
    }
    c
}

/// Records the opcode trace and frame boundaries.
#[derive(Default, Clone, Debug)]
pub struct Recorder {
    pub trace: Vec<Step>,
    pub cap: usize,
    pub calls: u64,
    pub creates: u64,
    pub ends: u64,
}
impl<C> Inspector<C> for Recorder {
    fn step(&mut self, i: &mut Interpreter, _c: &mut C) {
        if self.trace.len() < self.cap {
            self.trace.push(Step {
                depth: self.calls.wrapping_add(self.creates).wrapping_sub(self.ends).wrapping_sub(1) as u16,
                pc: i.bytecode.pc() as u32,
                op: i.bytecode.opcode(),
                gas: i.gas.remaining(),
            });
        }
        let _ = i.bytecode.is_not_end();
    }
    fn call(&mut self, _c: &mut C, _i: &mut CallInputs) -> Option<CallOutcome> {
        self.calls += 1;
        None
    }
    fn call_end(&mut self, _c: &mut C, _i: &CallInputs, _o: &mut CallOutcome) {
        self.ends += 1;
    }
    fn create(&mut self, _c: &mut C, _i: &mut CreateInputs) -> Option<CreateOutcome> {
        self.creates += 1;
        None
    }
    fn create_end(&mut self, _c: &mut C, _i: &CreateInputs, _o: &mut CreateOutcome) {
        self.ends += 1;
    }
}

#[derive(Clone)]
pub struct Fixed(pub ExternalEnvs<Ext>);
impl mega_evm::ExternalEnvFactory for Fixed {
    type EnvTypes = Ext;
    fn external_envs(&self, _block: u64) -> ExternalEnvs<Ext> {
        ExternalEnvs { salt_env: self.0.salt_env.clone(), oracle_env: self.0.oracle_env.clone() }
    }
}
pub type Evm<I> = MegaEvm<MonDb, I, Ext>;
pub struct Real<I> {
    pub evm: Evm<I>,
    pub db: MonDb,
    pub salt: MonSalt,
    pub oracle: MonOracle,
    pub chain_id: u64,
    pub world: Arc<World>,
}
pub struct RealOut {
    pub o: Outcome,
    /// raw outcome, absent on error
    pub raw: Option<MegaTransactionOutcome>,
    pub buckets: BTreeSet<BucketId>,
    pub hints: Vec<(Address, B256, Bytes)>,
    pub oracle_reads: Vec<U256>,
    pub halt: String,
}

pub fn make(sc: &Scenario) -> Real<mega_evm::revm::inspector::NoOpInspector> {
    let mut db = MonDb::new(sc.world.clone());
    db.lazy_code = sc.lazy_code;
    let salt = MonSalt { mode: Rc::new(std::cell::Cell::new(sc.salt_mode)), log: Rc::default() };
    let oracle = MonOracle { map: sc.oracle.clone(), hints: Rc::default(), reads: Rc::default() };
    // The published limits of the spec are in force without being set: half of such scenarios leave them implicit.
    let implicit = sc.limits == crate::model::lim_default(sc.spec) && sc.path & 1 == 1;
    let envs = ExternalEnvs::<Ext> { salt_env: salt.clone(), oracle_env: oracle.clone() };
    let other = crate::gen::SPECS[(sc.path as usize >> 4) % crate::gen::SPECS.len()];
    let (block, cfg, lim) = (block_env(&sc.block), cfg_of(sc), rt_limits(sc.limits));
    let path = if sc.over.is_some() { 4 } else { sc.path >> 1 & 7 };
    let mut evm = match path {
        // built for another spec, then configured; environments before and after the configuration
        1 | 2 => {
            let mut c = MegaContext::new(db.clone(), other);
            if sc.no_fees {
                c.disable_beneficiary();
            }
            let mut c = if sc.path >> 1 & 7 == 1 {
                c.with_external_envs(envs).with_block(block).with_cfg(cfg).with_chain(L1BlockInfo::default())
            } else {
                c.with_cfg(cfg).with_block(block).with_chain(L1BlockInfo::default()).with_external_envs(envs)
            };
            if !implicit {
                c = c.with_tx_runtime_limits(lim);
            }
            MegaEvm::new(c)
        }
        // limits first
        3 if !implicit => MegaEvm::new(MegaContext::new(db.clone(), sc.spec).with_tx_runtime_limits(lim).with_external_envs(envs).with_cfg(cfg).with_block(block).with_chain(L1BlockInfo::default())),
        // through the factory, as the block executor does
        4 | 5 => {
            use mega_evm::alloy_evm::EvmFactory;
            let f = mega_evm::MegaEvmFactory::new().with_external_env_factory(Fixed(envs));
            let f = match sc.over {
                Some(o) => f.with_dyn_precompiles_builder(Arc::new(move |spec| {
                    if o.active(spec) { [(o.addr, overriding(o))].into_iter().collect() } else { Default::default() }
                })),
                None => f,
            };
            let e = f.create_evm(db.clone(), mega_evm::alloy_evm::EvmEnv { cfg_env: cfg, block_env: block });
            if implicit {
                e
            } else {
                e.with_tx_runtime_limits(lim)
            }
        }
        // from an Optimism context
        6 => {
            use mega_evm::op_revm::DefaultOp;
            use mega_evm::revm::context::Context as RevmContext;
            let mut op = RevmContext::op().with_db(db.clone()).with_block(block);
            op.cfg.chain_id = cfg.chain_id;
            op.cfg.limit_contract_code_size = cfg.limit_contract_code_size;
            op.cfg.limit_contract_initcode_size = cfg.limit_contract_initcode_size;
            if let Some(f) = &sc.flags {
                f.apply(&mut op.cfg);
            }
            #[allow(deprecated)]
            let mut c = MegaContext::new_with_context(op, sc.spec, envs);
            if !implicit {
                c = c.with_tx_runtime_limits(lim);
            }
            MegaEvm::new(c)
        }
        // the default context, filled in
        7 => {
            let mut c = MegaContext::default();
            if sc.no_fees {
                c.disable_beneficiary();
            }
            let mut c = c.with_db(db.clone()).with_cfg(cfg).with_external_envs(envs).with_block(block);
            if !implicit {
                c = c.with_tx_runtime_limits(lim);
            }
            MegaEvm::new(c)
        }
        _ => {
            let mut c = MegaContext::new(db.clone(), sc.spec).with_block(block).with_cfg(cfg).with_chain(L1BlockInfo::default()).with_external_envs(envs);
            if !implicit {
                c = c.with_tx_runtime_limits(lim);
            }
            MegaEvm::new(c)
        }
    };
    // an inspector that is attached and removed again leaves nothing behind
    if sc.path % 5 == 2 {
        evm = evm.with_inspector(recorder()).without_inspector();
    }
    // the block environment can also be set in place
    if sc.path % 7 == 3 {
        *evm.block_env_mut() = block_env(&sc.block);
    }
    if sc.no_fees && !matches!(path, 1 | 2 | 7) {
        evm.ctx.disable_beneficiary();
    }
    Real { evm, db, salt, oracle, chain_id: sc.chain_id, world: sc.world.clone() }
}
fn overriding(o: crate::env::Over) -> mega_evm::alloy_evm::precompiles::DynPrecompile {
    use mega_evm::revm::precompile::{PrecompileError, PrecompileOutput};
    mega_evm::alloy_evm::precompiles::DynPrecompile::new(move |i: mega_evm::alloy_evm::precompiles::PrecompileInput<'_>| match o.run(i.data, i.gas) {
        Some((gas, out)) => Ok(PrecompileOutput::new(gas, out)),
        None if o.fails => Err(PrecompileError::Other("override".into())),
        None => Err(PrecompileError::OutOfGas),
    })
}
pub fn recorder() -> Recorder {
    Recorder { cap: 60_000, ..Default::default() }
}
impl<I> Real<I> {
    pub fn with_inspector<J>(self, j: J) -> Real<J> {
        Real { evm: self.evm.with_inspector(j), db: self.db, salt: self.salt, oracle: self.oracle, chain_id: self.chain_id, world: self.world }
    }
}
pub fn status_of(r: &ExecutionResult<MegaHaltReason>) -> (Status, String) {
    match r {
        ExecutionResult::Success { .. } => (Status::Success, String::new()),
        ExecutionResult::Revert { .. } => (Status::Revert, String::new()),
        ExecutionResult::Halt { reason, .. } => (
            match reason {
                MegaHaltReason::Base(OpHaltReason::FailedDeposit) => Status::FailedDeposit,
                MegaHaltReason::Base(_) => Status::Halt,
                MegaHaltReason::DataLimitExceeded { limit, actual } => Status::Limit { kind: LimitKind::Data, limit: *limit, actual: *actual },
                MegaHaltReason::KVUpdateLimitExceeded { limit, actual } => Status::Limit { kind: LimitKind::Kv, limit: *limit, actual: *actual },
                MegaHaltReason::ComputeGasLimitExceeded { limit, actual } => Status::Limit { kind: LimitKind::Compute, limit: *limit, actual: *actual },
                MegaHaltReason::StateGrowthLimitExceeded { limit, actual } => Status::Limit { kind: LimitKind::Growth, limit: *limit, actual: *actual },
                MegaHaltReason::VolatileDataAccessOutOfGas { access_type, limit, actual } => {
                    Status::Volatile { flags: access_type.bits(), limit: *limit, actual: *actual }
                }
                MegaHaltReason::SystemTxInvalidCallee { .. } => Status::Halt,
            },
            format!("{reason:?}"),
        ),
    }
}
impl<I: Inspector<MegaContext<MonDb, Ext>>> Real<I> {
    pub fn set_world(&mut self, w: Arc<World>) {
        self.world = w.clone();
        let mut nd = MonDb::new(w);
        nd.lazy_code = self.db.lazy_code;
        nd.reads = self.db.reads.clone();
        nd.fail_at = self.db.fail_at.clone();
        nd.failed = self.db.failed.clone();
        self.db = nd.clone();
        self.evm.journaled_state_mut().database = nd;
    }
    pub fn log_reads(&mut self, log: Rc<std::cell::RefCell<ReadLog>>) {
        self.evm.journaled_state_mut().database.log = Some(log);
    }
    pub fn tx(&mut self, t: &TxSpec) -> RealOut {
        self.oracle.hints.borrow_mut().clear();
        self.oracle.reads.borrow_mut().clear();
        let tx = mega_tx(t, self.chain_id);
        let r = self.evm.execute_transaction(tx);
        self.outcome(r)
    }
    /// The outcome of a transaction run through an entry point that reports only result and state: the usages are
    /// then read from the instance; `like` supplies the error text.
    pub fn collect(&mut self, r: Option<(ExecutionResult<MegaHaltReason>, mega_evm::revm::state::EvmState)>, like: &RealOut) -> RealOut {
        match r {
            Some((result, state)) => {
                let l = self.evm.additional_limit.borrow();
                let (data_size, kv_updates, compute_gas_used, state_growth_used) = {
                    let u = l.get_usage();
                    (u.data_size, u.kv_updates, u.compute_gas, u.state_growth)
                };
                drop(l);
                self.outcome::<()>(Ok(MegaTransactionOutcome { result, state, data_size, kv_updates, compute_gas_used, state_growth_used }))
            }
            None => {
                let mut o = self.outcome(Err(()));
                if matches!(like.o.status, Status::Err(_)) {
                    o.o.status = like.o.status.clone();
                }
                o
            }
        }
    }
    fn outcome<E: std::fmt::Debug>(&mut self, r: Result<MegaTransactionOutcome, E>) -> RealOut {
        let buckets = self.evm.get_accessed_bucket_ids().into_iter().collect();
        let hints = self.oracle.hints.borrow().clone();
        let oracle_reads = self.oracle.reads.borrow().clone();
        match r {
            Ok(m) => {
                let (status, halt) = status_of(&m.result);
                let mut w = (*self.world).clone();
                apply_state(&mut w, &m.state);
                let (gas_used, refunded, output, created, logs) = match &m.result {
                    ExecutionResult::Success { gas_used, gas_refunded, output, logs, .. } => {
                        (*gas_used, *gas_refunded, output.data().clone(), output.address().copied(), logs.clone())
                    }
                    ExecutionResult::Revert { gas_used, output } => (*gas_used, 0, output.clone(), None, vec![]),
                    ExecutionResult::Halt { gas_used, .. } => (*gas_used, 0, Bytes::new(), None, vec![]),
                };
                let flags = self.evm.ctx_flags();
                // the context reports what the outcome reports
                let c = &self.evm.ctx;
                let mut m = m;
                if c.generated_data_size() != m.data_size {
                    m.data_size = u64::MAX - 1;
                }
                if c.kv_update_count() != m.kv_updates {
                    m.kv_updates = u64::MAX - 1;
                }
                let mut buckets: BTreeSet<BucketId> = buckets;
                if c.accessed_bucket_ids().into_iter().collect::<BTreeSet<_>>() != buckets {
                    buckets.insert(BucketId::MAX);
                }
                RealOut {
                    o: Outcome { status, gas_used, refunded, output: Some(output), created, logs, data: m.data_size, kv: m.kv_updates, compute: m.compute_gas_used, growth: m.state_growth_used, flags, world: w },
                    raw: Some(m),
                    buckets,
                    hints,
                    oracle_reads,
                    halt,
                }
            }
            Err(e) => RealOut {
                o: Outcome {
                    status: Status::Err(format!("{e:?}")),
                    gas_used: 0,
                    refunded: 0,
                    output: Some(Bytes::new()),
                    created: None,
                    logs: vec![],
                    data: 0,
                    kv: 0,
                    compute: 0,
                    growth: 0,
                    flags: 0,
                    world: (*self.world).clone(),
                },
                raw: None,
                buckets,
                hints,
                oracle_reads,
                halt: String::new(),
            },
        }
    }
}
trait CtxFlags {
    fn ctx_flags(&self) -> u16;
}
impl<I> CtxFlags for Evm<I> {
    fn ctx_flags(&self) -> u16 {
        let t = self.volatile_data_tracker.borrow();
        let v = t.get_volatile_data_accessed();
        let b = v.bits();
        // every view of the tracker tells the same story
        let same = t.accessed() == (b != 0)
            && t.get_volatile_data_info().map_or(b == 0, |(x, l)| x == v && Some(l) == t.get_compute_gas_limit())
            && t.get_block_env_accesses().bits() == b & 0x3ff
            && t.has_accessed_beneficiary_balance() == (b >> 10 & 1 == 1)
            && t.has_accessed_oracle() == (b >> 11 & 1 == 1)
            && v.has_block_env_access() == (b & 0x3ff != 0)
            && v.has_beneficiary_balance_access() == (b >> 10 & 1 == 1)
            && v.has_oracle_access() == (b >> 11 & 1 == 1)
            && v.block_env_only().bits() == b & 0x3ff
            && v.count_block_env_accessed() == (b & 0x3ff).count_ones() as usize;
        if same {
            b
        } else {
            b ^ 0x8000
        }
    }
}
