//! Block level: real `MegaBlockExecutor` against an independent block reference (own admission rules, own
//! pre-block changes, transactions executed by the reference model).
use crate::diff::{status_class, world_diff, Stat};
use crate::env::*;
use crate::gen::{self, Profile, SPECS};
use crate::model::{Model, Outcome, Status};
use crate::real;
use crate::report::{Ctx, Module};
use crate::rng::Rng;
use mega_evm::alloy_consensus::{transaction::Recovered, SignableTransaction, TxEip1559, TxEip2930, TxEip7702, TxLegacy, TxReceipt};
use mega_evm::alloy_eips::eip2930::{AccessList, AccessListItem};
use mega_evm::alloy_eips::eip7702::{Authorization, SignedAuthorization};
use mega_evm::alloy_eips::Encodable2718;
use mega_evm::alloy_evm::block::{BlockExecutor, CommitChanges, OnStateHook, StateChangeSource};
use mega_evm::alloy_evm::{Evm as _, EvmEnv};
use mega_evm::alloy_hardforks::ForkCondition;
use mega_evm::alloy_op_evm::block::receipt_builder::OpAlloyReceiptBuilder;
use mega_evm::alloy_primitives::{address, b256, keccak256, Address, Bytes, Signature, TxKind, B256, U256};
use mega_evm::op_alloy_consensus::{OpReceiptEnvelope, TxDeposit};
use mega_evm::revm::database::states::{bundle_state::BundleRetention, State};
use mega_evm::revm::state::EvmState;
use mega_evm::revm::Database;
use mega_evm::{
    BlockLimits, ExternalEnvFactory, ExternalEnvs, MegaBlockExecutionCtx, MegaBlockExecutorFactory, MegaEvmFactory, MegaHardfork, MegaHardforkConfig, MegaHardforks,
    MegaSpecId as S, MegaTxEnvelope,
};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub const HISTORY: Address = address!("0000F90827F1C53a10cb7A02335B175320002935");
pub const BEACON: Address = address!("000F3df6D732807Ef1319fB7B8bB8522d0Beac02");
pub const ORACLE: Address = address!("6342000000000000000000000000000000000001");
pub const HP_ORACLE: Address = address!("6342000000000000000000000000000000000002");
pub const KEYLESS: Address = address!("6342000000000000000000000000000000000003");

pub const FORKS: [MegaHardfork; 8] = [
    MegaHardfork::MiniRex,
    MegaHardfork::MiniRex1,
    MegaHardfork::MiniRex2,
    MegaHardfork::Rex,
    MegaHardfork::Rex1,
    MegaHardfork::Rex2,
    MegaHardfork::Rex3,
    MegaHardfork::Rex4,
];
/// Reference: the spec of the newest activated fork.
pub fn ref_spec(at: &[Option<u64>; 8], ts: u64) -> S {
    const SP: [S; 8] = [S::MINI_REX, S::EQUIVALENCE, S::MINI_REX, S::REX, S::REX1, S::REX2, S::REX3, S::REX4];
    (0..8).rev().find(|i| at[*i].is_some_and(|t| ts >= t)).map_or(S::EQUIVALENCE, |i| SP[i])
}
pub fn config(at: &[Option<u64>; 8]) -> MegaHardforkConfig {
    let mut c = MegaHardforkConfig::new();
    for (i, t) in at.iter().enumerate() {
        if let Some(t) = t {
            c = c.with(FORKS[i], ForkCondition::Timestamp(*t));
        }
    }
    c
}
/// A schedule under which `spec` is in force at `ts`.
pub fn schedule_for(r: &mut Rng, spec: S, ts: u64) -> [Option<u64>; 8] {
    let mut at = [None; 8];
    let last = match spec {
        S::EQUIVALENCE => {
            if r.pct(50) {
                Some(1)
            } else {
                None
            }
        }
        S::MINI_REX => Some(if r.pct(50) { 0 } else { 2 }),
        S::REX => Some(3),
        S::REX1 => Some(4),
        S::REX2 => Some(5),
        S::REX3 => Some(6),
        _ => Some(7),
    };
    let mut t = ts - r.below(3);
    if let Some(l) = last {
        for i in (0..=l).rev() {
            at[i] = Some(t);
            t -= r.below(2) * (1 + r.below(50));
        }
    }
    // forks of the future
    let mut t = ts + 1 + r.below(3);
    for a in at.iter_mut().skip(last.map_or(0, |l| l + 1)) {
        if r.pct(50) {
            *a = Some(t);
        }
        t += r.below(5);
    }
    at
}

#[derive(Clone)]
pub struct EnvF {
    pub mode0: u64,
    pub log: Rc<RefCell<SaltLog>>,
    pub oracle: Arc<std::collections::BTreeMap<U256, U256>>,
    pub hints: Rc<RefCell<Vec<(Address, B256, Bytes)>>>,
    pub asked: Rc<RefCell<Vec<u64>>>,
}
pub fn mode_at(mode0: u64, block: u64) -> u64 {
    if mode0 >= HOSTILE_SALT {
        return HOSTILE_SALT + (mode0 ^ block) % 4096;
    }
    if mode0 == 0 {
        0
    } else {
        1 + mode0.wrapping_add(block) % 3
    }
}
impl ExternalEnvFactory for EnvF {
    type EnvTypes = Ext;
    fn external_envs(&self, block: u64) -> ExternalEnvs<Ext> {
        self.asked.borrow_mut().push(block);
        ExternalEnvs {
            salt_env: MonSalt { mode: Rc::new(Cell::new(mode_at(self.mode0, block))), log: self.log.clone() },
            oracle_env: MonOracle { map: self.oracle.clone(), hints: self.hints.clone(), reads: Rc::default() },
        }
    }
}

/// The signed envelope of a transaction description, and the description as the envelope carries it.
pub fn envelope(t: &TxSpec, chain_id: u64, salt: u8) -> (MegaTxEnvelope, TxSpec) {
    let mut t = t.clone();
    let to = t.to.map_or(TxKind::Create, TxKind::Call);
    let al = AccessList(t.access_list.iter().map(|(a, k)| AccessListItem { address: *a, storage_keys: k.clone() }).collect());
    let sig = Signature::new(U256::from_be_bytes([salt.max(1); 32]), U256::from(salt as u64 + 1), salt % 2 == 1);
    let env = match t.ty {
        TxType::Legacy => MegaTxEnvelope::Legacy(TxLegacy { chain_id: Some(chain_id), nonce: t.nonce, gas_price: t.gas_price, gas_limit: t.gas_limit, to, value: t.value, input: t.input.clone() }.into_signed(sig)),
        TxType::Access => {
            MegaTxEnvelope::Eip2930(TxEip2930 { chain_id, nonce: t.nonce, gas_price: t.gas_price, gas_limit: t.gas_limit, to, value: t.value, access_list: al, input: t.input.clone() }.into_signed(sig))
        }
        TxType::Dynamic => MegaTxEnvelope::Eip1559(
            TxEip1559 { chain_id, nonce: t.nonce, gas_limit: t.gas_limit, max_fee_per_gas: t.gas_price, max_priority_fee_per_gas: t.prio, to, value: t.value, access_list: al, input: t.input.clone() }.into_signed(sig),
        ),
        TxType::SetCode => {
            let auths: Vec<SignedAuthorization> = t
                .auths
                .iter()
                .enumerate()
                .map(|(i, a)| {
                    let au = Authorization { chain_id: U256::from(a.chain_id), address: a.delegate, nonce: a.nonce };
                    SignedAuthorization::new_unchecked(au, (i % 2) as u8, U256::from_be_bytes([salt.max(1); 32]), U256::from(7 + i as u64))
                })
                .collect();
            for (a, s) in t.auths.iter_mut().zip(&auths) {
                a.authority = s.recover_authority().ok();
            }
            MegaTxEnvelope::Eip7702(
                TxEip7702 {
                    chain_id,
                    nonce: t.nonce,
                    gas_limit: t.gas_limit,
                    max_fee_per_gas: t.gas_price,
                    max_priority_fee_per_gas: t.prio,
                    to: t.to.unwrap_or_default(),
                    value: t.value,
                    access_list: al,
                    authorization_list: auths,
                    input: t.input.clone(),
                }
                .into_signed(sig),
            )
        }
        TxType::Deposit => {
            t.nonce = 0;
            t.gas_price = 0;
            if t.prio != crate::env::SYSTEM_DEPOSIT {
                t.prio = 0;
            }
            TxDeposit { source_hash: B256::repeat_byte(0x5a), from: t.caller, to, mint: t.mint, value: t.value, gas_limit: t.gas_limit, is_system_transaction: t.prio == crate::env::SYSTEM_DEPOSIT, input: t.input.clone() }.into()
        }
    };
    t.enveloped = env.encoded_2718().into();
    t.auto_nonce = false;
    (env, t)
}

/// Pre-block changes as published.
pub fn ref_pre_block(w: &mut World, at: &[Option<u64>; 8], number: u64, ts: u64, parent: B256, root: B256) {
    let act = |i: usize| at[i].is_some_and(|t| ts >= t);
    if number > 0 {
        if let Some(a) = w.get_mut(&HISTORY) {
            if !a.code.is_empty() {
                a.storage.insert(U256::from((number - 1) % 8191), parent.into());
            }
        }
        if let Some(a) = w.get_mut(&BEACON) {
            if !a.code.is_empty() {
                a.storage.insert(U256::from(ts % 8191), U256::from(ts));
                a.storage.insert(U256::from(ts % 8191 + 8191), root.into());
            }
        }
    }
    if act(0) {
        w.entry(ORACLE).or_default().code = published(if act(5) { "oracle2" } else { "oracle1" });
        w.entry(HP_ORACLE).or_default().code = published("hp");
    }
    if act(5) {
        w.entry(KEYLESS).or_default().code = published("keyless");
    }
    normalize(w);
}
/// The published code, identified by its hash (independently of the constants the code under test uses).
pub fn published(which: &str) -> Bytes {
    let (hash, cands): (B256, Vec<Bytes>) = match which {
        "oracle1" => (PUB[0], all_code()),
        "oracle2" => (PUB[1], all_code()),
        "hp" => (PUB[2], all_code()),
        _ => (PUB[3], all_code()),
    };
    cands.into_iter().find(|c| keccak256(c) == hash).unwrap_or_else(|| Bytes::copy_from_slice(hash.as_slice()))
}
/// keccak256 of the published oracle v1.0.0, oracle v1.1.0, high precision timestamp oracle and keyless deploy code
pub const PUB: [B256; 4] = [
    b256!("e9b044afb735a0f569faeb248088b4f267578f60722f87d06ec3867b250a2c34"),
    b256!("06df675a69e53ea2a3c948521e330b3801740fede324a1cef2044418f8e09242"),
    b256!("1b2df8ca5350cd7106d67ed95532584526f97a5ca267c8eef73a1831f53720f2"),
    b256!("55020d41649acf7a84add6e628b887f802218d9ac86f142ef0994da43ea5eeb6"),
];
fn all_code() -> Vec<Bytes> {
    vec![mega_evm::ORACLE_CONTRACT_CODE, mega_evm::ORACLE_CONTRACT_CODE_REX2, mega_evm::HIGH_PRECISION_TIMESTAMP_ORACLE_CODE, mega_evm::KEYLESS_DEPLOY_CODE]
}

// ------------------------------------------------------------------ reference admission
#[derive(Clone, Debug)]
pub struct Info {
    pub gl: u64,
    pub size: u64,
    pub da: u64,
    pub deposit: bool,
    pub ty: u8,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Cnt {
    pub gas: u64,
    pub size: u64,
    pub da: u64,
    pub data: u64,
    pub kv: u64,
    pub compute: u64,
    pub growth: u64,
}
/// Every limit the transaction would break (as named by the errors); empty = admitted.
pub fn violated(l: &BlockLimits, c: &Cnt, x: &Info) -> Vec<&'static str> {
    let mut v = vec![];
    let big = |a: u64, b: u64, lim: u64| a as u128 + b as u128 > lim as u128;
    if x.gl > l.tx_gas_limit {
        v.push("TransactionGasLimit {");
    }
    if big(c.gas, x.gl, l.block_gas_limit) {
        v.push("TransactionGasLimitMoreThanAvailableBlockGas");
    }
    if x.size > l.tx_encode_size_limit {
        v.push("TransactionEncodeSizeLimit { tx_size");
    }
    if big(c.size, x.size, l.block_txs_encode_size_limit) {
        v.push("TransactionEncodeSizeLimit { block_used");
    }
    if !x.deposit && x.da > l.tx_da_size_limit {
        v.push("DataAvailabilitySizeLimit { da_size");
    }
    if !x.deposit && big(c.da, x.da, l.block_da_size_limit) {
        v.push("DataAvailabilitySizeLimit { block_used");
    }
    for (n, u, lim) in [
        ("TransactionDataLimit", c.data, l.block_txs_data_limit),
        ("KVUpdateLimit", c.kv, l.block_kv_update_limit),
        ("ComputeGasLimit", c.compute, l.block_compute_gas_limit),
        ("StateGrowthLimit", c.growth, l.block_state_growth_limit),
    ] {
        if u >= lim {
            v.push(n);
        }
    }
    v
}
pub fn info_of(env: &MegaTxEnvelope) -> Info {
    use mega_evm::alloy_consensus::Transaction;
    use mega_evm::alloy_eips::Typed2718;
    let enc = env.encoded_2718();
    Info { gl: env.gas_limit(), size: enc.len() as u64, da: mega_evm::op_alloy_flz::tx_estimated_size_fjord_bytes(&enc), deposit: env.ty() == 0x7e, ty: env.ty() }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Rcpt {
    pub ok: bool,
    pub cum: u64,
    pub logs: Vec<mega_evm::alloy_primitives::Log>,
    pub ty: u8,
    pub deposit: Option<(Option<u64>, Option<u64>)>,
}
pub fn rcpt_of(r: &OpReceiptEnvelope) -> Rcpt {
    Rcpt {
        ok: r.status(),
        cum: r.cumulative_gas_used(),
        logs: r.logs().to_vec(),
        ty: r.tx_type() as u8,
        deposit: match r {
            OpReceiptEnvelope::Deposit(d) => Some((d.receipt.deposit_nonce, d.receipt.deposit_receipt_version)),
            _ => None,
        },
    }
}
/// The reference block: admission, counters, receipts and world.
pub struct RefBlock {
    pub limits: BlockLimits,
    pub c: Cnt,
    pub model: Model,
    pub world: Arc<World>,
    pub receipts: Vec<Rcpt>,
}
pub struct RefRun {
    pub info: Info,
    pub o: Outcome,
    pub nonce: u64,
}
impl RefBlock {
    pub fn run(&mut self, t: &TxSpec, info: &Info) -> Result<RefRun, Vec<&'static str>> {
        let v = violated(&self.limits, &self.c, info);
        if !v.is_empty() {
            return Err(v);
        }
        let nonce = self.world.get(&t.caller).map_or(0, |a| a.nonce);
        let o = self.model.tx(t);
        if matches!(o.status, Status::Err(_)) {
            return Err(vec!["EVM"]);
        }
        Ok(RefRun { info: info.clone(), o, nonce })
    }
    pub fn commit(&mut self, r: RefRun) -> Result<u64, Vec<&'static str>> {
        let v = violated(&self.limits, &self.c, &r.info);
        if !v.is_empty() {
            return Err(v);
        }
        let o = r.o;
        self.c.gas += o.gas_used;
        self.c.size += r.info.size;
        if !r.info.deposit {
            self.c.da += r.info.da;
        }
        self.c.data += o.data;
        self.c.kv += o.kv;
        self.c.compute += o.compute;
        self.c.growth += o.growth;
        self.receipts.push(Rcpt { ok: o.status == Status::Success, cum: self.c.gas, logs: o.logs, ty: r.info.ty, deposit: r.info.deposit.then_some((Some(r.nonce), Some(1))) });
        self.world = Arc::new(o.world);
        self.model.set_world(self.world.clone());
        Ok(o.gas_used)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum T {
    /// admission and counters
    Admit,
    /// receipts, state, results
    Result,
    /// pre-block changes
    System,
    /// reported buckets, hashes, hints
    Witness,
}
pub type Diffs = Vec<(T, String)>;

type Exec<'a, I> = mega_evm::MegaBlockExecutor<MegaHardforkConfig, mega_evm::MegaEvm<&'a mut State<MonDb>, I, Ext>, OpAlloyReceiptBuilder>;

fn counters<I>(e: &Exec<'_, I>) -> Cnt {
    let b = &e.block_limiter;
    Cnt { gas: b.block_gas_used, size: b.block_tx_size_used, da: b.block_da_size_used, data: b.block_data_used, kv: b.block_kv_updates_used, compute: b.block_compute_gas_used, growth: b.block_state_growth_used }
}
/// What a reader of the state sees, restricted to the accounts and slots of `like` and `also`.
pub fn read_through<D: Database<Error = DbErr>>(db: &mut D, like: &World, also: &World) -> World {
    let mut w = World::new();
    for a in like.keys().chain(also.keys()) {
        if w.contains_key(a) {
            continue;
        }
        let Some(i) = db.basic(*a).expect("read") else { continue };
        let code = if i.code_hash == mega_evm::revm::primitives::KECCAK_EMPTY || i.code_hash.is_zero() {
            Bytes::new()
        } else {
            i.code.clone().unwrap_or_else(|| db.code_by_hash(i.code_hash).expect("code")).original_bytes()
        };
        let mut e = Acct { balance: i.balance, nonce: i.nonce, code, storage: Default::default() };
        for x in [like.get(a), also.get(a)].into_iter().flatten() {
            for k in x.storage.keys() {
                e.storage.insert(*k, db.storage(*a, *k).expect("slot"));
            }
        }
        w.insert(*a, e);
    }
    normalize(&mut w);
    w
}
/// The parent state with the bundle of the block applied.
pub fn apply_bundle(w: &mut World, b: &mega_evm::revm::database::BundleState) {
    for (a, x) in &b.state {
        let Some(i) = &x.info else {
            w.remove(a);
            continue;
        };
        let e = w.entry(*a).or_default();
        if x.was_destroyed() {
            e.storage.clear();
        }
        e.balance = i.balance;
        e.nonce = i.nonce;
        if i.code_hash == mega_evm::revm::primitives::KECCAK_EMPTY || i.code_hash.is_zero() {
            e.code = Bytes::new();
        } else if let Some(c) = b.contracts.get(&i.code_hash) {
            e.code = c.original_bytes();
        } else if let Some(c) = &i.code {
            e.code = c.original_bytes();
        }
        for (k, s) in &x.storage {
            e.storage.insert(*k, s.present_value);
        }
    }
    normalize(w);
}
#[derive(Clone, Default)]
pub struct Hook(pub Arc<Mutex<Vec<(String, EvmState)>>>);
impl OnStateHook for Hook {
    fn on_state(&mut self, source: StateChangeSource, state: &EvmState) {
        self.0.lock().unwrap().push((format!("{source:?}"), state.clone()));
    }
}

/// One step of a block.
#[derive(Clone, Debug)]
pub struct StepPlan {
    pub t: TxSpec,
    pub mode: u8,
    /// second transaction of the modes that need one
    pub u: Option<TxSpec>,
    pub salt: u8,
}
pub struct BlockPlan {
    pub sc: Scenario,
    pub limits: BlockLimits,
    pub at: [Option<u64>; 8],
    pub parent: B256,
    pub root: Option<B256>,
    pub steps: Vec<StepPlan>,
    pub pre_mode: u8,
    pub mode0: u64,
    pub bare: bool,
}
pub const HISTORY_CODE: &str = "3373fffffffffffffffffffffffffffffffffffffffe14604657602036036042575f35600143038111604257611fff81430311604257611fff9006545f5260205ff35b5f5ffd5b5f35611fff60014303065500";

/// Reference of the pre-block changes: the two system calls run on the model, the deployments as published.
pub fn ref_pre(rb: &mut RefBlock, b: &BlockPlan, repeat: u8) -> Result<(), &'static str> {
    let n = b.sc.block.number;
    let ts = b.sc.block.timestamp;
    let Some(root) = b.root else { return Err("MissingParentBeaconBlockRoot") };
    if n == 0 && !root.is_zero() {
        return Err("CancunGenesisParentBeaconBlockRootNotZero");
    }
    let mut w = (*rb.world).clone();
    for k in 0..=repeat {
        let mut w2 = (*rb.world).clone();
        if n > 0 {
            for (a, x) in [(HISTORY, b.parent), (BEACON, root)] {
                let o = rb.model.system_call(a, x.0.into());
                if o.status == Status::Success {
                    if let Some(acc) = o.world.get(&a) {
                        w2.insert(a, acc.clone());
                    }
                }
            }
        }
        if k == repeat {
            w = w2;
        }
    }
    ref_pre_block(&mut w, &b.at, 0, ts, b.parent, root);
    rb.world = Arc::new(w);
    rb.model.set_world(rb.world.clone());
    Ok(())
}
/// A block on the reference alone.
pub fn dry(b: &BlockPlan, world: Arc<World>) -> (RefBlock, Vec<(Info, Cnt)>, u64) {
    let mut rb = start_ref(b, world);
    let mut v = vec![];
    let mut steps = 0;
    if ref_pre(&mut rb, b, 0).is_err() {
        return (rb, v, 0);
    }
    for s in &b.steps {
        let (env, t) = build(&s.t, &rb.world, b.sc.chain_id, s.salt);
        let info = info_of(&env);
        let before = rb.c.clone();
        rb.model.steps = 0;
        if let Ok(r) = rb.run(&t, &info) {
            if rb.commit(r).is_ok() {
                v.push((info, before));
            }
        }
        steps += rb.model.steps;
    }
    (rb, v, steps)
}
fn start_ref(b: &BlockPlan, world: Arc<World>) -> RefBlock {
    let mut sc = b.sc.clone();
    sc.world = world.clone();
    sc.salt_mode = mode_at(b.mode0, sc.block.number);
    let l = b.limits;
    sc.limits = Limits { compute: l.tx_compute_gas_limit, data: l.tx_data_limit, kv: l.tx_kv_update_limit, growth: l.tx_state_growth_limit, cap_block: l.block_env_access_compute_gas_limit, cap_oracle: l.oracle_access_compute_gas_limit };
    let model = Model::new(&sc);
    RefBlock { limits: b.limits, c: Cnt::default(), model, world, receipts: vec![] }
}
pub fn build(t: &TxSpec, w: &World, chain_id: u64, salt: u8) -> (MegaTxEnvelope, TxSpec) {
    let mut t = t.clone();
    if t.auto_nonce {
        t.nonce = w.get(&t.caller).map_or(0, |a| a.nonce);
    }
    envelope(&t, chain_id, salt)
}
/// The numbers an error names must be those of the limit it names.
fn err_numbers(real: &str, l: &BlockLimits, c: &Cnt, x: &Info) -> Option<String> {
    let num = |at: usize, key: &str| -> Option<u64> {
        let s = &real[at..];
        let s = &s[s.find(key)? + key.len()..];
        s[..s.find(|ch: char| !ch.is_ascii_digit())?].parse().ok()
    };
    if let Some(at) = real.find("TransactionGasLimitMoreThanAvailableBlockGas") {
        for (k, want) in [("transaction_gas_limit: ", x.gl), ("block_available_gas: ", l.block_gas_limit.saturating_sub(c.gas))] {
            if num(at, k).is_some_and(|n| n != want) {
                return Some(format!("{k}{want} expected"));
            }
        }
    }
    for (name, used, ukey, lim) in [
        ("TransactionGasLimit {", x.gl, "tx_gas_limit: ", l.tx_gas_limit),
        ("TransactionEncodeSizeLimit { tx_size", x.size, "tx_size: ", l.tx_encode_size_limit),
        ("TransactionEncodeSizeLimit { block_used", c.size, "block_used: ", l.block_txs_encode_size_limit),
        ("DataAvailabilitySizeLimit { da_size", x.da, "da_size: ", l.tx_da_size_limit),
        ("DataAvailabilitySizeLimit { block_used", c.da, "block_used: ", l.block_da_size_limit),
        ("TransactionDataLimit", c.data, "block_used: ", l.block_txs_data_limit),
        ("KVUpdateLimit", c.kv, "block_used: ", l.block_kv_update_limit),
        ("ComputeGasLimit", c.compute, "block_used: ", l.block_compute_gas_limit),
        ("StateGrowthLimit", c.growth, "block_used: ", l.block_state_growth_limit),
    ] {
        let Some(at) = real.find(name) else { continue };
        for (k, want) in [(ukey, used), (" limit: ", lim)] {
            if num(at, k).is_some_and(|n| n != want) {
                return Some(format!("{k}{want} expected"));
            }
        }
        let tx = if name.starts_with("Transaction") { x.size } else { x.da };
        if name.contains("{ block_used") && num(at, "tx_used: ").is_some_and(|n| n != tx) {
            return Some(format!("tx_used: {tx} expected"));
        }
    }
    None
}
/// The same limits, set one by one through the builder.
fn rebuilt(l: &BlockLimits, r: &mut Rng) -> BlockLimits {
    let mut b = match r.below(3) {
        0 => return *l,
        1 => BlockLimits::no_limits(),
        _ => BlockLimits::from_hardfork_and_block_gas_limit(MegaHardfork::Rex, 5),
    };
    let mut order: Vec<u8> = (0..17).collect();
    for k in (1..17).rev() {
        order.swap(k, r.below(k as u64 + 1) as usize);
    }
    for k in order {
        b = match k {
            0 => b.with_tx_gas_limit(l.tx_gas_limit),
            1 => b.with_block_gas_limit(l.block_gas_limit),
            2 => b.with_tx_encode_size_limit(l.tx_encode_size_limit),
            3 => b.with_block_txs_encode_size_limit(l.block_txs_encode_size_limit),
            4 => b.with_tx_da_size_limit(l.tx_da_size_limit),
            5 => b.with_block_da_size_limit(l.block_da_size_limit),
            6 => b.with_tx_data_limit(l.tx_data_limit),
            7 => b.with_block_txs_data_limit(l.block_txs_data_limit),
            8 => b.with_tx_kv_update_limit(l.tx_kv_update_limit),
            9 => b.with_block_kv_update_limit(l.block_kv_update_limit),
            10 => b.with_tx_compute_gas_limit(l.tx_compute_gas_limit),
            11 => b.with_block_compute_gas_limit(l.block_compute_gas_limit),
            12 => b.with_tx_state_growth_limit(l.tx_state_growth_limit),
            13 => b.with_block_state_growth_limit(l.block_state_growth_limit),
            14 => b.with_block_env_access_compute_gas_limit(l.block_env_access_compute_gas_limit),
            15 => b.with_oracle_access_compute_gas_limit(l.oracle_access_compute_gas_limit),
            _ => b,
        };
    }
    b
}
fn err_ok(real: &str, allowed: &[&'static str]) -> bool {
    allowed.iter().any(|a| if *a == "EVM" { !real.contains("LimitExceeded") && real.contains("InvalidTx") || real.contains("EVM") } else { real.contains(a) })
}

/// Runs one block for real and against the reference.
#[allow(clippy::too_many_arguments)]
fn run_block<'a, I>(mut ex: Exec<'a, I>, b: &BlockPlan, pre_world: &Arc<World>, envf: &EnvF, st: &mut Stat) -> (Diffs, Option<Arc<World>>)
where
    I: mega_evm::revm::Inspector<mega_evm::MegaContext<&'a mut State<MonDb>, Ext>>,
{
    let mut d: Diffs = vec![];
    let mut rb = start_ref(b, pre_world.clone());
    let hook = Hook::default();
    ex.set_state_hook(Some(Box::new(hook.clone())));
    let h0 = envf.hints.borrow().len();
    ex.evm.db_mut().database.log = Some(Rc::default());
    // ---- pre-block
    let repeat = (b.pre_mode == 2) as u8;
    let want = ref_pre(&mut rb, b, repeat);
    let got = if b.pre_mode == 0 {
        ex.apply_pre_execution_changes()
    } else {
        if repeat == 1 {
            let _ = ex.pre_execution_changes();
        }
        ex.pre_execution_changes().and_then(|o| ex.commit_system_call_outcomes(o))
    };
    match (&want, &got) {
        (Ok(()), Ok(())) => {}
        (Err(w), Err(g)) => {
            st.hit("pre_block_rejected");
            if !format!("{g:?}").contains(w) {
                d.push((T::System, format!("pre-block error {g:?}, expected {w}")));
            }
            return (d, None);
        }
        _ => {
            d.push((T::System, format!("pre-block changes: real {got:?} expected {want:?}")));
            return (d, None);
        }
    }
    let read_log = ex.evm.db_mut().database.log.take();
    let seen = read_through(ex.evm.db_mut(), &rb.world, pre_world);
    if let Some(x) = world_diff(&seen, &rb.world) {
        d.push((T::System, format!("after the pre-block changes: {x}")));
    }
    let mut hw = (**pre_world).clone();
    for (_, s) in hook.0.lock().unwrap().iter() {
        apply_state(&mut hw, s);
    }
    let pre_hooks = hook.0.lock().unwrap().len();
    normalize(&mut hw);
    if let Some(x) = world_diff(&hw, &rb.world) {
        d.push((T::System, format!("state hook after the pre-block changes: {x}")));
    }
    st.hit("pre_block_checked");
    if let Some(log) = read_log.as_ref().map(|l| l.borrow()) {
        let h = hook.0.lock().unwrap();
        for a in &log.accounts {
            if !h.iter().any(|(_, s)| s.contains_key(a)) {
                d.push((T::Witness, format!("block {}: the pre-block changes read account {a}, which no reported state contains", b.sc.block.number)));
            }
        }
        for (a, k) in &log.slots {
            if !h.iter().any(|(_, s)| s.get(a).is_some_and(|x| x.storage.contains_key(k))) {
                d.push((T::Witness, format!("block {}: the pre-block changes read slot {k} of {a}, which no reported state contains", b.sc.block.number)));
            }
        }
        st.reach.add("pre_block_reads", log.accounts.len() as u64);
    }
    if !d.is_empty() {
        return (d, None);
    }
    // ---- transactions
    for (k, s) in b.steps.iter().enumerate() {
        let (env, t) = build(&s.t, &rb.world, b.sc.chain_id, s.salt);
        let info = info_of(&env);
        let rec = Recovered::new_unchecked(env, t.caller);
        let c0 = counters(&ex);
        let n0 = ex.receipts.len();
        let label = |x: &str| format!("block {} tx {k} mode {} {:?} {:?}->{:?}: {x}", b.sc.block.number, s.mode, t.ty, t.caller, t.to);
        // real
        let mut ends = false;
        let mut want: Result<Option<u64>, Vec<&'static str>>;
        let mut got: Result<Option<u64>, String>;
        let e2s = |e: mega_evm::alloy_evm::block::BlockExecutionError| format!("{e:?}");
        match s.mode {
            0 => {
                want = rb.run(&t, &info).and_then(|r| rb.commit(r)).map(Some);
                got = ex.execute_transaction(&rec).map(Some).map_err(e2s);
            }
            1 => {
                want = rb.run(&t, &info).map(|_| None);
                got = ex.execute_transaction_with_commit_condition(&rec, |_| CommitChanges::No).map_err(e2s);
                st.hit("not_committed");
            }
            2 => {
                want = rb.run(&t, &info).and_then(|r| rb.commit(r)).map(Some);
                let en = if s.salt % 2 == 0 { mega_evm::EnrichedMegaTx::new(&rec, rec.inner().tx_hash(), info.da, info.size) } else { mega_evm::EnrichedMegaTx::new_slow(&rec) };
                got = if s.salt % 4 < 2 { ex.run_transaction(en) } else { ex.execute_mega_transaction(en) }.and_then(|o| ex.commit_transaction_outcome(o)).map(Some).map_err(e2s);
            }
            3 => {
                let first = rb.run(&t, &info);
                want = first.and_then(|_| rb.run(&t, &info)).and_then(|r| rb.commit(r)).map(Some);
                got = ex.run_transaction(&rec).and_then(|_| ex.run_transaction(&rec)).and_then(|o| ex.commit_execution_outcome(o)).map(Some).map_err(e2s);
                st.hit("run_twice");
            }
            _ => {
                let u = s.u.as_ref().unwrap_or(&s.t);
                let (env2, t2) = build(u, &rb.world, b.sc.chain_id, s.salt.wrapping_add(9));
                let info2 = info_of(&env2);
                let rec2 = Recovered::new_unchecked(env2, t2.caller);
                let r1 = rb.run(&t, &info);
                let r2 = rb.run(&t2, &info2);
                let g1 = ex.run_transaction(&rec);
                let g2 = ex.run_transaction(&rec2);
                if g1.is_ok() != r1.is_ok() || g2.is_ok() != r2.is_ok() {
                    d.push((T::Admit, label(&format!("runs: real {:?} {:?}; reference {:?} {:?}", g1.as_ref().err(), g2.as_ref().err(), r1.as_ref().err(), r2.as_ref().err()))));
                    break;
                }
                want = r1.and_then(|r| rb.commit(r)).map(Some);
                got = g1.and_then(|o| ex.commit_transaction_outcome(o)).map(Some).map_err(e2s);
                st.hit("two_in_flight");
                if s.mode == 5 && want == got.clone().map_err(|_| vec![]) {
                    if let (Ok(r2), Ok(g2)) = (r2, g2) {
                        // the second outcome is judged against the block as it is now
                        want = rb.commit(r2).map(Some);
                        got = ex.commit_transaction_outcome(g2).map(Some).map_err(e2s);
                        st.hit(if want.is_ok() { "second_commit_ok" } else { "second_commit_rejected" });
                        ends = true;
                    }
                }
            }
        }
        st.txs += 1;
        match (&want, &got) {
            (Ok(a), Ok(g)) => {
                if a != g {
                    d.push((T::Result, label(&format!("gas used {g:?} expected {a:?}"))));
                }
                st.hit("accepted");
            }
            (Err(w), Err(g)) => {
                if !err_ok(g, w) {
                    d.push((T::Admit, label(&format!("rejected with {g}, but what it violates is {w:?}"))));
                }
                if let Some(x) = (!ends).then(|| err_numbers(g, &b.limits, &c0, &info)).flatten() {
                    d.push((T::Admit, label(&format!("rejected with {g}: {x}"))));
                }
                st.hit(match w[0] {
                    "EVM" => "rejected_by_evm",
                    "TransactionGasLimit {" => "rejected_tx_gas",
                    "TransactionGasLimitMoreThanAvailableBlockGas" => "rejected_block_gas",
                    "TransactionEncodeSizeLimit { tx_size" => "rejected_tx_size",
                    "TransactionEncodeSizeLimit { block_used" => "rejected_block_size",
                    "DataAvailabilitySizeLimit { da_size" => "rejected_tx_da",
                    "DataAvailabilitySizeLimit { block_used" => "rejected_block_da",
                    "TransactionDataLimit" => "rejected_block_data",
                    "KVUpdateLimit" => "rejected_block_kv",
                    "ComputeGasLimit" => "rejected_block_compute",
                    _ => "rejected_block_growth",
                });
                if !ends && (counters(&ex) != c0 || ex.receipts.len() != n0) {
                    d.push((T::Admit, label("a rejected transaction changed counters or receipts")));
                }
            }
            (w, g) => d.push((T::Admit, label(&format!("real {g:?} expected {w:?}; counters {c0:?} info {info:?}")))),
        }
        let c = counters(&ex);
        if c != rb.c {
            d.push((T::Admit, label(&format!("counters real {c:?} expected {:?}", rb.c))));
        }
        let l = &b.limits;
        let reached = c.gas >= l.block_gas_limit || c.size >= l.block_txs_encode_size_limit || c.da >= l.block_da_size_limit || c.data >= l.block_txs_data_limit || c.kv >= l.block_kv_update_limit || c.compute >= l.block_compute_gas_limit || c.growth >= l.block_state_growth_limit;
        if ex.block_limiter.is_block_limit_reached() != reached {
            d.push((T::Admit, label("is_block_limit_reached")));
        }
        let rs: Vec<Rcpt> = ex.receipts.iter().map(rcpt_of).collect();
        if rs != rb.receipts {
            d.push((T::Result, label(&format!("receipts real {:?} expected {:?}", rs.last(), rb.receipts.last()))));
        }
        if ends {
            // two outcomes computed on the same state were committed: only the bookkeeping is specified
            return (d, None);
        }
        if d.is_empty() && (k % 4 == 3 || want.is_err()) {
            let seen = read_through(ex.evm.db_mut(), &rb.world, pre_world);
            if let Some(x) = world_diff(&seen, &rb.world) {
                d.push((T::Result, label(&x)));
            }
        }
        if !d.is_empty() {
            return (d, None);
        }
    }
    // ---- end of block
    let buckets: std::collections::BTreeSet<_> = ex.get_accessed_bucket_ids().into_iter().collect();
    if buckets != rb.model.buckets {
        d.push((T::Witness, format!("block {}: reported buckets {buckets:?}, priced {:?}", b.sc.block.number, rb.model.buckets)));
    }
    let hashes = ex.get_accessed_block_hashes();
    for n in &rb.model.hashes_read {
        if hashes.get(n) != Some(&block_hash_of(*n)) {
            d.push((T::Witness, format!("block {}: the hash of {n} was read but is not reported ({hashes:?})", b.sc.block.number)));
        }
        st.hit("block_hash_witness");
    }
    if b.bare && hashes.len() != rb.model.hashes_read.len() {
        d.push((T::Witness, format!("block {}: reported hashes {:?}, read {:?}", b.sc.block.number, hashes.keys(), rb.model.hashes_read)));
    }
    if envf.hints.borrow()[h0..] != rb.model.hints[..] {
        d.push((T::Witness, format!("block {}: hints {:?} expected {:?}", b.sc.block.number, &envf.hints.borrow()[h0..], rb.model.hints)));
    }
    let (evm, res) = match ex.finish() {
        Ok(x) => x,
        Err(e) => {
            d.push((T::Result, format!("finish: {e:?}")));
            return (d, None);
        }
    };
    let gas = res.gas_used;
    let want_gas = rb.receipts.last().map_or(0, |r| r.cum);
    if gas != want_gas {
        d.push((T::Result, format!("block gas used {gas} expected {want_gas}")));
    }
    let rs: Vec<Rcpt> = res.receipts.iter().map(rcpt_of).collect();
    if rs != rb.receipts {
        d.push((T::Result, "receipts of the finished block".to_string()));
    }
    let mut dbm = evm;
    let seen = read_through(mega_evm::alloy_evm::Evm::db_mut(&mut dbm), &rb.world, pre_world);
    if let Some(x) = world_diff(&seen, &rb.world) {
        d.push((T::Result, format!("state after the block: {x}")));
    }
    let mut hw = (**pre_world).clone();
    let mut srcs = vec![];
    for (k, (src, s)) in hook.0.lock().unwrap().iter().enumerate() {
        apply_state(&mut hw, s);
        if k >= pre_hooks && src.starts_with("Transaction") {
            srcs.push(src.clone());
        }
    }
    let want: Vec<String> = (0..rb.receipts.len()).map(|i| format!("{:?}", StateChangeSource::Transaction(i))).collect();
    if srcs != want {
        d.push((T::Result, format!("state hook sources {srcs:?} expected {want:?}")));
    }
    normalize(&mut hw);
    if let Some(x) = world_diff(&hw, &rb.world) {
        d.push((T::Result, format!("state hook: {x}")));
    }
    st.hit("block_finished");
    st.reach.merge(&rb.model.reach);
    for r in &rb.receipts {
        *st.statuses.entry(if r.ok { "Success" } else { "Failed" }.into()).or_default() += 1;
    }
    st.note(&format!("{:?}|{}|{:?}", b.sc.spec, rb.receipts.len(), rb.c));
    if rb.receipts.len() > 2 {
        st.sample(|| format!("block {} {:?}: {} steps, {} receipts, counters {:?}", b.sc.block.number, b.sc.spec, b.steps.len(), rb.receipts.len(), rb.c));
    }
    (d, Some(rb.world))
}

fn system_variants(r: &mut Rng, w: &mut World) {
    let hist = Bytes::from(mega_evm::alloy_primitives::hex::decode(HISTORY_CODE).unwrap());
    if r.pct(75) {
        w.insert(HISTORY, Acct { nonce: 1, code: hist, ..Default::default() });
    }
    if r.pct(75) {
        w.insert(BEACON, Acct { nonce: 1, code: mega_evm::alloy_eips::eip4788::BEACON_ROOTS_CODE.clone(), ..Default::default() });
    }
    for (a, codes) in [(ORACLE, &["oracle1", "oracle2"][..]), (HP_ORACLE, &["hp"][..]), (KEYLESS, &["keyless"][..])] {
        match r.below(6) {
            0 => {
                w.remove(&a);
            }
            1 => {
                w.insert(a, Acct { balance: U256::from(1 + r.below(5)), nonce: r.below(2), ..Default::default() });
            }
            2 | 3 => {
                let mut s = std::collections::BTreeMap::new();
                for _ in 0..r.below(4) {
                    s.insert(U256::from(r.below(6)), U256::from(1 + r.below(9)));
                }
                w.insert(a, Acct { balance: U256::from(r.below(3)), nonce: r.below(3), code: published(codes[r.below(codes.len() as u64) as usize]), storage: s });
            }
            4 => {
                let mut s = std::collections::BTreeMap::new();
                s.insert(U256::from(r.below(6)), U256::from(1 + r.below(9)));
                w.insert(a, Acct { balance: U256::from(r.below(3)), nonce: r.below(3), code: Bytes::from_static(&[0x5f, 0x5f, 0xfd]), storage: s });
            }
            _ => {}
        }
    }
}
pub fn block_profile(prop: &str) -> Profile {
    let b = Profile { specs: SPECS.to_vec(), max_txs: 9, tx_bad: 6, tx_deposit: 14, tx_system: 8, tx_oracle: 8, tx_keyless: 4, tx_create: 18, destroy: 4, tight: 20, tight_caps: 15, tight_compute: 8, gas_hi: 2_000_000, ..Profile::default() };
    match prop {
        "C20" => Profile { max_txs: 3, ..b },
        "C12" => Profile { specs: vec![S::REX2, S::REX3, S::REX4], tx_keyless: 25, destroy: 8, tight: 4, ..b },
        "C03" => Profile { salt: 100, sstore: 20, create: 14, tx_create: 30, tight: 4, ..b },
        "C25" => Profile { env: 16, sstore: 18, oracle: 8, ..b },
        _ => b,
    }
}
/// A history of blocks.
pub fn block_case(seed: u64, i: u64, prop: &str, tag: &str, st: &mut Stat) -> Diffs {
    let p = block_profile(prop);
    let mut sc = gen::scenario(seed, i, &p, tag);
    sc.no_fees = false;
    let mut r = Rng::stream(seed, &format!("{tag}/plan"), i);
    let at = schedule_for(&mut r, sc.spec, sc.block.timestamp);
    let mut w = (*sc.world).clone();
    system_variants(&mut r, &mut w);
    let mut world = Arc::new(w);
    let mode0 = if r.pct(p.salt) { 1 + r.below(3) } else { 0 };
    let nblocks = 1 + r.below(if prop == "C20" { 4 } else { 3 });
    let continuing = r.pct(50);
    let txs = std::mem::take(&mut sc.txs);
    let per = txs.len().div_ceil(nblocks as usize).max(1);
    let envf = EnvF { mode0, log: Rc::default(), oracle: sc.oracle.clone(), hints: Rc::default(), asked: Rc::default() };
    let mkdb = |w: &Arc<World>| {
        let mut db = MonDb::new(w.clone());
        db.lazy_code = sc.lazy_code;
        let s = State::builder().with_database(db).with_bundle_update();
        if i % 3 == 0 { s.without_state_clear().build() } else { s.build() }
    };
    let mut state = mkdb(&world);
    let first_world = world.clone();
    let mut base_world = first_world.clone();
    let mut ts = sc.block.timestamp;
    let mut number = if r.pct(3) { 0 } else { sc.block.number };
    for bi in 0..nblocks {
        let mut s = sc.clone();
        s.block.number = number;
        s.block.timestamp = ts;
        s.spec = ref_spec(&at, ts);
        s.salt_mode = mode_at(mode0, number);
        let lo = (bi as usize * per).min(txs.len());
        // (a genesis block has no transactions)
        let hi = if number == 0 { lo } else { (lo + per).min(txs.len()) };
        let steps: Vec<StepPlan> = (lo..hi)
            .map(|k| StepPlan {
                t: {
                    let mut t = txs[k].clone();
                    if r.pct(70) {
                        // keeps most transactions alive in a block with a base fee
                        t.gas_price = t.gas_price.max(s.block.basefee as u128);
                    }
                    t
                },
                mode: *r.pick(&[0, 0, 0, 1, 2, 2, 3, 4, 5]),
                u: Some(txs[r.below(txs.len() as u64) as usize].clone()),
                salt: 1 + r.below(250) as u8,
            })
            .collect();
        let lim = if s.spec == S::EQUIVALENCE && sc.spec != S::EQUIVALENCE { crate::model::lim_default(S::EQUIVALENCE) } else { sc.limits };
        let mut limits = BlockLimits::no_limits().with_tx_runtime_limits(real::rt_limits(lim)).with_block_gas_limit(s.block.gas_limit);
        let root = if r.pct(2) { None } else { Some(if number == 0 && r.pct(80) { B256::ZERO } else { B256::repeat_byte(1 + r.below(200) as u8) }) };
        let mut b = BlockPlan { sc: s, limits, at, parent: B256::repeat_byte(3 + r.below(100) as u8), root, steps, pre_mode: r.below(3) as u8, mode0, bare: !continuing || bi == 0 };
        // place limits exactly at the boundaries of this block's transactions
        let (_, acc, nsteps) = dry(&b, world.clone());
        if nsteps > 60_000 {
            st.skipped += 1;
            return vec![];
        }
        if !acc.is_empty() {
            for _ in 0..r.below(3) {
                let k = r.below(acc.len() as u64) as usize;
                let (x, c) = &acc[k];
                let after = acc.get(k + 1).map(|(_, c)| c.clone());
                let j = |r: &mut Rng, v: u64| (v + r.below(3)).saturating_sub(1);
                match r.below(10) {
                    0 => limits.tx_gas_limit = j(&mut r, x.gl),
                    1 => {
                        limits.block_gas_limit = j(&mut r, c.gas + x.gl);
                        b.sc.block.gas_limit = limits.block_gas_limit;
                    }
                    2 => limits.tx_encode_size_limit = j(&mut r, x.size),
                    3 => limits.block_txs_encode_size_limit = j(&mut r, c.size + x.size),
                    4 => limits.tx_da_size_limit = j(&mut r, x.da),
                    5 => limits.block_da_size_limit = j(&mut r, c.da + x.da),
                    n => {
                        let c = after.unwrap_or_else(|| c.clone());
                        match n {
                            6 => limits.block_txs_data_limit = j(&mut r, c.data),
                            7 => limits.block_kv_update_limit = j(&mut r, c.kv),
                            8 => limits.block_compute_gas_limit = j(&mut r, c.compute),
                            _ => limits.block_state_growth_limit = j(&mut r, c.growth).max(r.below(2)),
                        }
                    }
                }
            }
            b.limits = limits;
        }
        let f = MegaBlockExecutorFactory::new(config(&at), MegaEvmFactory::new().with_external_env_factory(envf.clone()), OpAlloyReceiptBuilder::default());
        let ctx = MegaBlockExecutionCtx::new(b.parent, b.root, Bytes::new(), rebuilt(&b.limits, &mut Rng::stream(seed, "rebuilt", i)));
        let ee = EvmEnv { cfg_env: real::cfg_of(&b.sc), block_env: real::block_env(&b.sc.block) };
        envf.asked.borrow_mut().clear();
        let (mut d, next) = if r.pct(25) {
            let ex = f.create_executor_with_inspector(&mut state, ctx, ee, real::recorder());
            run_block(ex, &b, &world, &envf, st)
        } else {
            let ex = f.create_executor(&mut state, ctx, ee);
            run_block(ex, &b, &world, &envf, st)
        };
        if *envf.asked.borrow() != [number] {
            d.push((T::Witness, format!("external environment asked for blocks {:?}, expected [{number}]", envf.asked.borrow())));
        }
        if !d.is_empty() {
            d.insert(0, (d[0].0, format!("spec {:?} at {at:?} ts {ts} limits {:?}", b.sc.spec, b.limits)));
            return d;
        }
        let Some(next) = next else { return d };
        state.merge_transitions(BundleRetention::Reverts);
        if !continuing || bi + 1 == nblocks {
            let bundle = state.take_bundle();
            let mut bw = (*base_world).clone();
            apply_bundle(&mut bw, &bundle);
            if let Some(x) = world_diff(&bw, &next) {
                return vec![(T::Result, format!("spec {:?} block {number}: parent state with the bundle applied: {x}", b.sc.spec))];
            }
            // EIP-161: a block never leaves behind an empty account that did not exist before it.
            if let Some((a, _)) = bundle.state.iter().find(|(a, acc)| acc.info.as_ref().is_some_and(|i| i.is_empty()) && !base_world.contains_key(*a)) {
                return vec![(T::Result, format!("spec {:?} block {number}: the bundle creates the empty account {a}", b.sc.spec))];
            }
            st.hit("bundle_checked");
            state = mkdb(&next);
            base_world = next.clone();
        }
        world = next;
        number += 1;
        ts += r.below(3);
    }
    vec![]
}
pub fn blocks(c: &Ctx, secs: u64, name: &'static str, tags: &'static [T]) {
    let m = Module {
        name,
        quick: 2_000_000,
        thorough: 100_000_000,
        quick_secs: secs,
        thorough_secs: secs * 40,
        rule: "histories of blocks (random hardfork schedules, system-contract pre-states, SALT capacities per block, limits placed exactly at, one below and one above what the block's transactions need) run on the real MegaBlockExecutor through all entry points (execute, not-committed, run+commit, run twice, two outcomes in flight) and on an independent block reference; events count admissions, rejections by each limit, commits and finished blocks; distinct = different (spec, receipts, counters)",
    };
    let tag = format!("{}/{name}", c.prop);
    c.par(&m, |i, st| {
        let d = block_case(c.seed, i, &c.prop, &tag, st);
        if d.iter().any(|x| tags.contains(&x.0)) {
            return d.into_iter().map(|x| format!("{:?}: {}", x.0, x.1).chars().take(1800).collect()).collect();
        }
        if !d.is_empty() {
            st.hit("difference_outside_property");
        }
        vec![]
    });
}
/// For the known finding of C20: does the EIP-2935 call fail under MiniRex when the bucket of its slot is large?
pub fn history_call_lost() -> bool {
    (1000..1040u64).any(|number| {
        let mut sc = crate::forks::plain(S::MINI_REX, vec![], 0);
        let mut w = (*sc.world).clone();
        w.insert(HISTORY, Acct { nonce: 1, code: mega_evm::alloy_primitives::hex::decode(HISTORY_CODE).unwrap().into(), ..Default::default() });
        let world = Arc::new(w);
        sc.block.number = number;
        let mut at = [None; 8];
        at[0] = Some(0);
        let envf = EnvF { mode0: 3, log: Rc::default(), oracle: sc.oracle.clone(), hints: Rc::default(), asked: Rc::default() };
        let mut state = State::builder().with_database(MonDb::new(world)).with_bundle_update().build();
        let f = MegaBlockExecutorFactory::new(config(&at), MegaEvmFactory::new().with_external_env_factory(envf), OpAlloyReceiptBuilder::default());
        let limits = BlockLimits::no_limits().with_tx_runtime_limits(real::rt_limits(crate::model::lim_default(S::MINI_REX))).with_block_gas_limit(sc.block.gas_limit);
        let ctx = MegaBlockExecutionCtx::new(B256::repeat_byte(7), Some(B256::repeat_byte(8)), Bytes::new(), limits);
        let ee = EvmEnv { cfg_env: real::cfg_of(&sc), block_env: real::block_env(&sc.block) };
        let mut ex = f.create_executor(&mut state, ctx, ee);
        ex.apply_pre_execution_changes().is_ok() && {
            drop(ex);
            use mega_evm::revm::Database;
            state.storage(HISTORY, U256::from((number - 1) % 8191)).is_ok_and(|v| v.is_zero())
        }
    })
}

/// One block without boundary limits: the plan, the transactions as they are when executed in order, and the
/// outcome of the reference.
struct Plain {
    b: BlockPlan,
    world: Arc<World>,
    txs: Vec<(Recovered<MegaTxEnvelope>, bool)>,
    rb: RefBlock,
}
fn plain(seed: u64, i: u64, prop: &str, tag: &str, max: u64) -> Option<Plain> {
    let mut p = block_profile(prop);
    p.max_txs = p.max_txs.min(6);
    let mut sc = gen::scenario(seed, i, &p, tag);
    sc.no_fees = false;
    let mut r = Rng::stream(seed, &format!("{tag}/plan"), i);
    let at = schedule_for(&mut r, sc.spec, sc.block.timestamp);
    let mut w = (*sc.world).clone();
    system_variants(&mut r, &mut w);
    let world = Arc::new(w);
    let mode0 = if r.pct(p.salt) { 1 + r.below(3) } else { 0 };
    let txs = std::mem::take(&mut sc.txs);
    sc.spec = ref_spec(&at, sc.block.timestamp);
    sc.salt_mode = mode_at(mode0, sc.block.number);
    let steps: Vec<StepPlan> = txs
        .into_iter()
        .map(|mut t| {
            t.gas_price = t.gas_price.max(sc.block.basefee as u128);
            StepPlan { t, mode: 0, u: None, salt: 1 + r.below(250) as u8 }
        })
        .collect();
    let limits = BlockLimits::no_limits().with_tx_runtime_limits(real::rt_limits(sc.limits)).with_block_gas_limit(sc.block.gas_limit);
    let b = BlockPlan { sc, limits, at, parent: B256::repeat_byte(3 + r.below(100) as u8), root: Some(B256::repeat_byte(1 + r.below(200) as u8)), steps, pre_mode: 0, mode0, bare: true };
    if b.sc.block.number == 0 {
        return None;
    }
    let mut rb = start_ref(&b, world.clone());
    ref_pre(&mut rb, &b, 0).ok()?;
    let mut out = vec![];
    let mut n = 0;
    for s in &b.steps {
        let (env, t) = build(&s.t, &rb.world, b.sc.chain_id, s.salt);
        let info = info_of(&env);
        rb.model.steps = 0;
        let ok = rb.run(&t, &info).and_then(|r| rb.commit(r)).is_ok();
        n += rb.model.steps;
        if n > max {
            return None;
        }
        out.push((Recovered::new_unchecked(env, t.caller), ok));
    }
    Some(Plain { b, world, txs: out, rb })
}
fn envs(b: &BlockPlan) -> EnvF {
    EnvF { mode0: b.mode0, log: Rc::default(), oracle: b.sc.oracle.clone(), hints: Rc::default(), asked: Rc::default() }
}
fn factory(b: &BlockPlan, envf: &EnvF) -> MegaBlockExecutorFactory<MegaHardforkConfig, MegaEvmFactory<EnvF>, OpAlloyReceiptBuilder> {
    MegaBlockExecutorFactory::new(config(&b.at), MegaEvmFactory::new().with_external_env_factory(envf.clone()), OpAlloyReceiptBuilder::default())
}
/// The generic block path of alloy: `BlockExecutorFactory::create_executor` and `execute_block`.
pub fn generic(c: &Ctx, secs: u64) {
    use mega_evm::alloy_evm::block::BlockExecutorFactory;
    use mega_evm::alloy_evm::EvmFactory;
    let m = Module { name: "generic", quick: 1_000_000, thorough: 50_000_000, quick_secs: secs, thorough_secs: secs * 40, rule: "the transactions the reference accepts are executed as one block through alloy's BlockExecutorFactory and execute_block (with and without a state hook); receipts, gas used and state are compared with the reference" };
    let tag = format!("{}/generic", c.prop);
    c.par(&m, |i, st| {
        let Some(p) = plain(c.seed, i, "C18", &tag, 60_000) else {
            st.skipped += 1;
            return vec![];
        };
        let envf = envs(&p.b);
        let f = factory(&p.b, &envf);
        let mut db = MonDb::new(p.world.clone());
        db.lazy_code = p.b.sc.lazy_code;
        let mut state = State::builder().with_database(db).with_bundle_update().build();
        let ee = EvmEnv { cfg_env: real::cfg_of(&p.b.sc), block_env: real::block_env(&p.b.sc.block) };
        let ctx = MegaBlockExecutionCtx::new(p.b.parent, p.b.root, Bytes::new(), p.b.limits);
        let evm = f.evm_factory().create_evm(&mut state, ee).with_tx_runtime_limits(p.b.limits.to_evm_tx_runtime_limits());
        let mut ex = BlockExecutorFactory::create_executor(&f, evm, ctx);
        let hook = Hook::default();
        if i % 2 == 0 {
            ex.set_state_hook(Some(Box::new(hook.clone())));
        }
        let txs: Vec<_> = p.txs.iter().filter(|x| x.1).map(|x| x.0.clone()).collect();
        let res = match ex.execute_block(txs.iter()) {
            Ok(r) => r,
            Err(e) => return vec![format!("spec {:?}: the block was rejected: {e:?}", p.b.sc.spec)],
        };
        let mut out = vec![];
        let rs: Vec<Rcpt> = res.receipts.iter().map(rcpt_of).collect();
        if rs != p.rb.receipts {
            let k = rs.iter().zip(&p.rb.receipts).position(|(a, b)| a != b);
            out.push(format!("spec {:?}: receipts differ at {k:?}: {:?} expected {:?}", p.b.sc.spec, k.map(|k| &rs[k]), k.map(|k| &p.rb.receipts[k])));
        }
        if res.gas_used != p.rb.c.gas {
            out.push(format!("spec {:?}: gas used {} expected {}", p.b.sc.spec, res.gas_used, p.rb.c.gas));
        }
        state.merge_transitions(BundleRetention::Reverts);
        let mut bw = (*p.world).clone();
        apply_bundle(&mut bw, &state.take_bundle());
        if let Some(x) = world_diff(&bw, &p.rb.world) {
            out.push(format!("spec {:?}: state after the block: {x}", p.b.sc.spec));
        }
        if i % 2 == 0 {
            let mut hw = (*p.world).clone();
            for (_, s) in hook.0.lock().unwrap().iter() {
                apply_state(&mut hw, s);
            }
            normalize(&mut hw);
            if let Some(x) = world_diff(&hw, &p.rb.world) {
                out.push(format!("spec {:?}: state hook: {x}", p.b.sc.spec));
            }
        }
        st.txs += txs.len() as u64;
        st.hit("block_executed");
        st.note(&format!("{:?}|{}|{:?}", p.b.sc.spec, rs.len(), p.rb.c));
        out
    });
}
#[derive(Clone, PartialEq, Debug)]
struct FaultRun {
    steps: Vec<Result<u64, String>>,
    receipts: Vec<Rcpt>,
    gas: u64,
    cnt: Cnt,
    world: World,
}
/// Faults at the block level: every database (or SALT) read of a whole block is failed once.
pub fn faults(c: &Ctx, secs: u64) {
    let m = Module { name: "block", quick: 1_000_000, thorough: 50_000_000, quick_secs: secs, thorough_secs: secs * 40, rule: "a block (pre-block changes, transactions, end of block) is executed once without faults, then once per database and SALT read position (up to 200 each) with that read failing; the call in which the fault strikes must return an error or the fault-free result, a failed call is repeated, and receipts, counters and state of the finished block must equal the fault-free ones" };
    c.par(&m, |i, st| {
        let Some(mut p) = plain(c.seed, i, "C21", "C21/block", 4_000) else {
            st.skipped += 1;
            return vec![];
        };
        if p.b.sc.spec < mega_evm::MegaSpecId::REX1 {
            // before REX1 a lowered compute limit stays for later transactions, so also for the repetition
            (p.b.limits.block_env_access_compute_gas_limit, p.b.limits.oracle_access_compute_gas_limit) = (u64::MAX, u64::MAX);
        }
        let run = |db_pos: u64, salt_pos: u64, st: &mut Stat| -> Result<(FaultRun, u64, u64), String> {
            let envf = envs(&p.b);
            envf.log.borrow_mut().fail_at = salt_pos;
            let f = factory(&p.b, &envf);
            let mut db = MonDb::new(p.world.clone());
            db.lazy_code = p.b.sc.lazy_code;
            let (reads, failed) = (db.reads.clone(), db.failed.clone());
            db.fail_at.set(db_pos);
            let mut state = State::builder().with_database(db).with_bundle_update().build();
            let ee = EvmEnv { cfg_env: real::cfg_of(&p.b.sc), block_env: real::block_env(&p.b.sc.block) };
            let ctx = MegaBlockExecutionCtx::new(p.b.parent, p.b.root, Bytes::new(), p.b.limits);
            let mut ex = f.create_executor(&mut state, ctx, ee);
            let injected = |e: &String| e.contains("injected-");
            let log = envf.log.clone();
            let struck = || failed.get() > 0 || log.borrow().failed > 0;
            // a failed call must be repeatable
            let mut pre = ex.apply_pre_execution_changes().map_err(|e| format!("{e:?}"));
            if struck() && pre.is_err() {
                st.hit("surfaced_before_block");
                pre = ex.apply_pre_execution_changes().map_err(|e| format!("{e:?}"));
            }
            pre.map_err(|e| format!("pre-block changes: {e}"))?;
            let mut steps = vec![];
            for (t, _) in &p.txs {
                let before = struck();
                let mut g = ex.execute_transaction(t).map_err(|e| format!("{e:?}"));
                if !before && struck() && g.is_err() {
                    st.hit("surfaced_in_transaction");
                    g = ex.execute_transaction(t).map_err(|e| format!("{e:?}"));
                }
                steps.push(g);
            }
            let cnt = counters(&ex);
            let res = match ex.finish() {
                Ok((_, r)) => r,
                // (the executor is gone)
                Err(e) if injected(&format!("{e:?}")) => return Err("done".into()),
                Err(e) => return Err(format!("finish: {e:?}")),
            };
            state.merge_transitions(BundleRetention::Reverts);
            let mut world = (*p.world).clone();
            apply_bundle(&mut world, &state.take_bundle());
            let salt_n = log.borrow().queries.len() as u64;
            if (db_pos > 0 || salt_pos > 0) && struck() {
                st.hit("fault_struck");
            }
            Ok((FaultRun { steps, receipts: res.receipts.iter().map(rcpt_of).collect(), gas: res.gas_used, cnt, world }, reads.get(), salt_n))
        };
        let (base, n, sn) = match run(0, 0, st) {
            Ok(x) => x,
            Err(e) => return vec![format!("without faults: {e}")],
        };
        st.txs += n.min(200) + sn.min(200);
        st.note(&format!("{:?}|{n}|{sn}|{:?}", p.b.sc.spec, base.cnt));
        for (what, pos, dp, sp) in (1..=n.min(200)).map(|k| ("database", k, k, 0)).chain((1..=sn.min(200)).map(|k| ("SALT", k, 0, k))) {
            let r = match crate::report::guard(|| run(dp, sp, st)) {
                crate::report::Caught::Done(r) => r,
                crate::report::Caught::Panicked(e) => Err(format!("panic: {e}")),
                crate::report::Caught::Internal(e) => panic!("{e}"),
            };
            match r {
                Err(e) if e == "done" => st.hit("surfaced_at_end"),
                Err(e) => return vec![format!("spec {:?}: fault at {what} read {pos}: {e}", p.b.sc.spec)],
                Ok((x, ..)) if x != base => {
                    let k = x.steps.iter().zip(&base.steps).position(|(a, b)| a != b);
                    return vec![format!(
                        "spec {:?}: fault at {what} read {pos} of {n}/{sn} changed the block: transaction {k:?} {:?} expected {:?}; receipts equal {}; counters {:?} expected {:?}; state {:?}",
                        p.b.sc.spec, k.map(|k| &x.steps[k]), k.map(|k| &base.steps[k]), x.receipts == base.receipts, x.cnt, base.cnt, world_diff(&x.world, &base.world)
                    )];
                }
                Ok(_) => st.hit("recovered"),
            }
        }
        vec![]
    });
}

/// The block limiter on its own, as a block builder uses it: raw numbers around the limits, driven against the reference counters.
pub fn limiter(c: &Ctx, secs: u64) {
    let m = Module {
        name: "limiter",
        quick: 60_000,
        thorough: 4_000_000,
        quick_secs: secs,
        thorough_secs: secs * 20,
        rule: "a BlockLimiter driven alone through pre_execution_check and post_execution_update_raw with numbers on, just below and just above every limit, and near u64::MAX; a transaction is admitted exactly when no limit is broken, with an error that names a broken limit and its numbers",
    };
    c.par(&m, |i, st| {
        let mut r = Rng::stream(c.seed, "limiter", i);
        let small = [0u64, 1, 2, 3, 10, 100, 1000, 30_000, 10_000_000];
        let mut l = BlockLimits::no_limits();
        for _ in 0..1 + r.below(6) {
            let v = match r.below(8) {
                0 => u64::MAX - r.below(3),
                1 => r.below(20),
                _ => *r.pick(&small),
            };
            match r.below(10) {
                0 => l.tx_gas_limit = v,
                1 => l.block_gas_limit = v,
                2 => l.tx_encode_size_limit = v,
                3 => l.block_txs_encode_size_limit = v,
                4 => l.tx_da_size_limit = v,
                5 => l.block_da_size_limit = v,
                6 => l.block_txs_data_limit = v,
                7 => l.block_kv_update_limit = v,
                8 => l.block_compute_gas_limit = v,
                _ => l.block_state_growth_limit = v,
            }
        }
        let mut b = if r.pct(50) { mega_evm::BlockLimiter::new(l) } else { rebuilt(&l, &mut r).to_block_limiter() };
        let mut cnt = Cnt::default();
        let mut out: Vec<String> = vec![];
        st.note(&format!("{l:?}"));
        for k in 0..1 + r.below(12) {
            let near = |r: &mut Rng, lim: u64, used: u64| match r.below(5) {
                0 => r.below(4),
                1 => *r.pick(&small),
                2 => lim.saturating_sub(used).saturating_add(r.below(3)).saturating_sub(1),
                3 => lim.saturating_add(r.below(3)).saturating_sub(1),
                _ => r.below(1 + lim.min(1 << 40)),
            };
            // (gas limits are any positive u64, encoded sizes are those of something that fits in memory)
            let x = Info {
                gl: if r.pct(50) { near(&mut r, l.block_gas_limit, cnt.gas) } else { near(&mut r, l.tx_gas_limit, 0) }.max(1),
                size: if r.pct(50) { near(&mut r, l.block_txs_encode_size_limit, cnt.size) } else { near(&mut r, l.tx_encode_size_limit, 0) }.min(1 << 50),
                da: if r.pct(50) { near(&mut r, l.block_da_size_limit, cnt.da) } else { near(&mut r, l.tx_da_size_limit, 0) }.min(1 << 50),
                deposit: r.pct(25),
                ty: 0,
            };
            let hash = B256::repeat_byte(1 + r.below(200) as u8);
            let before = format!("{b:?}");
            let got = b.pre_execution_check(hash, x.gl, x.size, x.da, x.deposit).map_err(|e| format!("{e:?}"));
            if format!("{b:?}") != before {
                out.push(format!("step {k}: the check changed the limiter: {before} -> {b:?}"));
            }
            let want = violated(&l, &cnt, &x);
            st.txs += 1;
            match &got {
                Ok(()) if want.is_empty() => st.hit("limiter_admitted"),
                Err(g) if !want.is_empty() && err_ok(g, &want) => {
                    st.hit("limiter_rejected");
                    if let Some(e) = err_numbers(g, &l, &cnt, &x) {
                        out.push(format!("step {k}: {g}: {e}"));
                    }
                    if g.contains("InvalidTx") && !g.contains(&format!("{hash}")) {
                        out.push(format!("step {k}: {g} does not name the transaction {hash}"));
                    }
                }
                _ => out.push(format!("step {k}: {x:?} with {cnt:?}: got {got:?}, broken limits {want:?}")),
            }
            // an admitted transaction is executed and uses some of what it declared; a builder may also count one it took anyway
            if got.is_ok() || r.pct(10) {
                let room = |r: &mut Rng, lim: u64, used: u64| match r.below(4) {
                    0 => 0,
                    1 => r.below(50),
                    _ => lim.saturating_sub(used).min(1 << 50).saturating_add(r.below(3)).saturating_sub(1),
                };
                let gas = r.below(1 + x.gl.min(1 << 50));
                let gas = if r.pct(50) { x.gl.min(1 << 50) } else { gas };
                let (size, da) = (x.size, x.da);
                let (data, kv, compute, growth) =
                    (room(&mut r, l.block_txs_data_limit, cnt.data), room(&mut r, l.block_kv_update_limit, cnt.kv), room(&mut r, l.block_compute_gas_limit, cnt.compute), room(&mut r, l.block_state_growth_limit, cnt.growth));
                b.post_execution_update_raw(gas, size, da, data, kv, compute, growth, x.deposit);
                cnt.gas += gas;
                cnt.size += size;
                cnt.da += if x.deposit { 0 } else { da };
                cnt.data += data;
                cnt.kv += kv;
                cnt.compute += compute;
                cnt.growth += growth;
            }
            let have = Cnt { gas: b.block_gas_used, size: b.block_tx_size_used, da: b.block_da_size_used, data: b.block_data_used, kv: b.block_kv_updates_used, compute: b.block_compute_gas_used, growth: b.block_state_growth_used };
            if have != cnt {
                out.push(format!("step {k}: counters {have:?}, expected {cnt:?}"));
            }
            let reached = cnt.gas >= l.block_gas_limit || cnt.size >= l.block_txs_encode_size_limit || cnt.da >= l.block_da_size_limit || cnt.data >= l.block_txs_data_limit || cnt.kv >= l.block_kv_update_limit || cnt.compute >= l.block_compute_gas_limit || cnt.growth >= l.block_state_growth_limit;
            st.hit(if reached { "limiter_reached" } else { "limiter_not_reached" });
            if b.is_block_limit_reached() != reached {
                out.push(format!("step {k}: is_block_limit_reached should be {reached} with {cnt:?}"));
            }
            if !out.is_empty() {
                break;
            }
        }
        out.truncate(3);
        out
    });
}
