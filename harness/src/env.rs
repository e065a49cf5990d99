//! World state, the monitored database / SALT / oracle environments, and the plain descriptions of
//! blocks and transactions that both the real EVM and the reference model are given.
use mega_evm::alloy_primitives::{keccak256, Address, Bytes, B256, U256};
use mega_evm::revm::{
    database_interface::DBErrorMarker,
    primitives::KECCAK_EMPTY,
    state::{AccountInfo, Bytecode, EvmState},
    Database,
};
use mega_evm::{BucketId, OracleEnv, SaltEnv};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Acct {
    pub balance: U256,
    pub nonce: u64,
    pub code: Bytes,
    pub storage: BTreeMap<U256, U256>,
}
impl Acct {
    pub fn is_empty(&self) -> bool {
        self.balance.is_zero() && self.nonce == 0 && self.code.is_empty()
    }
}
pub type World = BTreeMap<Address, Acct>;

/// Canonical form: no empty accounts without storage, no zero slots.
pub fn normalize(w: &mut World) {
    for a in w.values_mut() {
        a.storage.retain(|_, v| !v.is_zero());
    }
    w.retain(|_, a| !(a.is_empty() && a.storage.is_empty()));
}

pub fn is_7702(code: &[u8]) -> Option<Address> {
    (code.len() == 23 && code[..3] == [0xef, 0x01, 0x00]).then(|| Address::from_slice(&code[3..]))
}
pub fn to_bytecode(code: &Bytes) -> Bytecode {
    if code.is_empty() {
        return Bytecode::default();
    }
    if is_7702(code).is_some() {
        Bytecode::new_raw(code.clone())
    } else {
        Bytecode::new_legacy(code.clone())
    }
}

/// Applies an `EvmState` the way a node commits it (EIP-161 + EIP-6780 semantics).
pub fn apply_state(w: &mut World, st: &EvmState) {
    for (addr, acc) in st {
        if !acc.is_touched() {
            continue;
        }
        if acc.is_selfdestructed() {
            w.remove(addr);
            continue;
        }
        let e = w.entry(*addr).or_default();
        if acc.is_created() {
            e.storage.clear();
        }
        e.balance = acc.info.balance;
        e.nonce = acc.info.nonce;
        if acc.info.code_hash == KECCAK_EMPTY || acc.info.code_hash.is_zero() {
            e.code = Bytes::new();
        } else if let Some(c) = &acc.info.code {
            e.code = c.original_bytes();
        }
        for (k, s) in &acc.storage {
            if s.is_changed() {
                e.storage.insert(*k, s.present_value);
            }
        }
    }
    normalize(w);
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DbErr(pub String);
impl core::fmt::Display for DbErr {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl core::error::Error for DbErr {}
impl DBErrorMarker for DbErr {}

/// Read-only database with counting and fault injection at the k-th read.
#[derive(Clone, Debug)]
pub struct MonDb {
    pub world: Arc<World>,
    pub codes: Arc<HashMap<B256, Bytes>>,
    pub lazy_code: bool,
    pub reads: Rc<Cell<u64>>,
    pub fail_at: Rc<Cell<u64>>, // 0 = never; 1-based
    pub failed: Rc<Cell<u64>>,
    /// Accounts and slots read, when recording.
    pub log: Option<Rc<RefCell<ReadLog>>>,
}
#[derive(Debug, Default)]
pub struct ReadLog {
    pub accounts: std::collections::BTreeSet<Address>,
    pub slots: std::collections::BTreeSet<(Address, U256)>,
    pub hashes: std::collections::BTreeSet<u64>,
}
thread_local! {
    /// block hashes as revm's empty database has them (the state-test tool runs on it)
    pub static EMPTY_DB_HASHES: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn block_hash_of(n: u64) -> B256 {
    if EMPTY_DB_HASHES.with(|x| x.get()) {
        return keccak256(n.to_string());
    }
    keccak256(n.to_be_bytes())
}
impl MonDb {
    pub fn new(world: Arc<World>) -> Self {
        let mut codes = HashMap::new();
        for a in world.values() {
            if !a.code.is_empty() {
                codes.insert(keccak256(&a.code), a.code.clone());
            }
        }
        Self {
            world,
            codes: Arc::new(codes),
            lazy_code: false,
            reads: Rc::default(),
            fail_at: Rc::default(),
            failed: Rc::default(),
            log: None,
        }
    }
    fn tick(&self, what: &str) -> Result<(), DbErr> {
        let n = self.reads.get() + 1;
        self.reads.set(n);
        if self.fail_at.get() == n {
            self.failed.set(self.failed.get() + 1);
            return Err(DbErr(format!("injected-db-fault:{what}")));
        }
        Ok(())
    }
}
impl Database for MonDb {
    type Error = DbErr;
    fn basic(&mut self, address: Address) -> Result<Option<AccountInfo>, DbErr> {
        self.tick("basic")?;
        if let Some(l) = &self.log {
            l.borrow_mut().accounts.insert(address);
        }
        Ok(self.world.get(&address).map(|a| {
            let hash = if a.code.is_empty() { KECCAK_EMPTY } else { keccak256(&a.code) };
            AccountInfo {
                balance: a.balance,
                nonce: a.nonce,
                code_hash: hash,
                code: if self.lazy_code { None } else { Some(to_bytecode(&a.code)) },
            }
        }))
    }
    fn code_by_hash(&mut self, code_hash: B256) -> Result<Bytecode, DbErr> {
        self.tick("code")?;
        Ok(self.codes.get(&code_hash).map(to_bytecode).unwrap_or_default())
    }
    fn storage(&mut self, address: Address, index: U256) -> Result<U256, DbErr> {
        self.tick("storage")?;
        if let Some(l) = &self.log {
            l.borrow_mut().slots.insert((address, index));
        }
        Ok(self
            .world
            .get(&address)
            .and_then(|a| a.storage.get(&index).copied())
            .unwrap_or_default())
    }
    fn block_hash(&mut self, number: u64) -> Result<B256, DbErr> {
        self.tick("block_hash")?;
        Ok(block_hash_of(number))
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
pub fn acct_bucket(a: Address) -> BucketId {
    (1 + fnv(a.as_slice()) % 61) as BucketId
}
pub fn slot_bucket(a: Address, k: U256) -> BucketId {
    let mut v = a.to_vec();
    v.extend_from_slice(&k.to_be_bytes::<32>());
    (1000 + fnv(&v) % 211) as BucketId
}

/// Capacities: a seeded function of the bucket id, so that every bucket has its own.
#[derive(Clone, Debug, Default)]
pub struct SaltLog {
    pub queries: Vec<BucketId>,
    pub fail_at: u64,
    pub failed: u64,
}
#[derive(Clone, Debug)]
pub struct MonSalt {
    /// shared, so that capacities can change between blocks
    pub mode: Rc<Cell<u64>>,
    pub log: Rc<RefCell<SaltLog>>,
}
pub fn multiplier_of(mode: u64, b: BucketId) -> u64 {
    match mode {
        0 => 1,
        1 => 1 + (b as u64 % 5),
        2 => [1, 1, 2, 3, 1, 8][(b as u64 % 6) as usize],
        3 => 1 + (b as u64 * 7 % 64),
        m => 1 + (fnv(&[(m & 0xff) as u8, (b & 0xff) as u8, (b >> 8) as u8]) % 4),
    }
}
/// Capacity is not always an exact multiple of 256: the multiplier is the floor.
/// Modes from here on: capacities no honest environment has.
pub const HOSTILE_SALT: u64 = 1 << 32;
pub fn capacity_of(mode: u64, b: BucketId) -> u64 {
    if mode >= HOSTILE_SALT {
        return [0, 1, 255, 256, 257, 511, u64::MAX, u64::MAX / 2, u64::MAX / 256, 1 << 40, 1 << 56, 512][(fnv(&(mode ^ b as u64).to_be_bytes()) % 12) as usize];
    }
    multiplier_of(mode, b) * 256 + if mode >= 2 { b as u64 % 256 } else { 0 }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SaltErr(pub String);
impl core::fmt::Display for SaltErr {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl SaltEnv for MonSalt {
    type Error = SaltErr;
    fn get_bucket_capacity(&self, bucket_id: BucketId) -> Result<u64, SaltErr> {
        let mut l = self.log.borrow_mut();
        l.queries.push(bucket_id);
        if l.fail_at == l.queries.len() as u64 {
            l.failed += 1;
            return Err(SaltErr("injected-salt-fault".into()));
        }
        Ok(capacity_of(self.mode.get(), bucket_id))
    }
    fn bucket_id_for_account(account: Address) -> BucketId {
        acct_bucket(account)
    }
    fn bucket_id_for_slot(address: Address, key: U256) -> BucketId {
        slot_bucket(address, key)
    }
}
#[derive(Clone, Debug)]
pub struct MonOracle {
    pub map: Arc<BTreeMap<U256, U256>>,
    pub hints: Rc<RefCell<Vec<(Address, B256, Bytes)>>>,
    pub reads: Rc<RefCell<Vec<U256>>>,
}
impl OracleEnv for MonOracle {
    fn get_oracle_storage(&self, slot: U256) -> Option<U256> {
        self.reads.borrow_mut().push(slot);
        self.map.get(&slot).copied()
    }
    fn on_hint(&self, from: Address, topic: B256, data: Bytes) {
        self.hints.borrow_mut().push((from, topic, data));
    }
}
pub type Ext = (MonSalt, MonOracle);

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct BlockSpec {
    pub number: u64,
    pub timestamp: u64,
    pub beneficiary: Address,
    pub gas_limit: u64,
    pub basefee: u64,
    pub prevrandao: B256,
    pub blob_price: u128,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Limits {
    pub compute: u64,
    pub data: u64,
    pub kv: u64,
    pub growth: u64,
    pub cap_block: u64,
    pub cap_oracle: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum TxType {
    Legacy,
    Access,
    Dynamic,
    SetCode,
    Deposit,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AuthSpec {
    pub authority: Option<Address>,
    pub chain_id: u64,
    pub nonce: u64,
    pub delegate: Address,
}
/// `TxSpec::prio` of a deposit (which has no fee) that carries the pre-Regolith system-transaction flag.
pub const SYSTEM_DEPOSIT: u128 = 0x5d;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TxSpec {
    pub ty: TxType,
    pub caller: Address,
    pub to: Option<Address>,
    pub value: U256,
    pub input: Bytes,
    pub gas_limit: u64,
    pub gas_price: u128,
    pub prio: u128,
    pub nonce: u64,
    pub access_list: Vec<(Address, Vec<B256>)>,
    pub auths: Vec<AuthSpec>,
    pub mint: u128,
    pub enveloped: Bytes,
    /// the driver fills in the sender's current nonce
    pub auto_nonce: bool,
}
impl TxSpec {
    pub fn call(caller: Address, to: Address, gas_limit: u64) -> Self {
        TxSpec {
            ty: TxType::Legacy,
            caller,
            to: Some(to),
            value: U256::ZERO,
            input: Bytes::new(),
            gas_limit,
            gas_price: 0,
            prio: 0,
            nonce: 0,
            access_list: vec![],
            auths: vec![],
            mint: 0,
            enveloped: Bytes::from_static(&[0x01, 0x00, 0x7f]),
            auto_nonce: true,
        }
    }
}
#[derive(Clone, Debug)]
pub struct Scenario {
    pub spec: mega_evm::MegaSpecId,
    pub world: Arc<World>,
    pub block: BlockSpec,
    pub limits: Limits,
    pub salt_mode: u64,
    pub oracle: Arc<BTreeMap<U256, U256>>,
    pub chain_id: u64,
    pub max_code: Option<usize>,
    pub max_initcode: Option<usize>,
    pub txs: Vec<TxSpec>,
    pub lazy_code: bool,
    /// how the EVM is built (see `real::make`)
    pub path: u8,
    /// the payment of fees to the beneficiary and the vaults is switched off
    pub no_fees: bool,
    /// Settings of the configuration that only the comparison with op-revm varies.
    pub flags: Option<CfgFlags>,
    /// a precompile supplied by the environment (only on EVMs built by the factory)
    pub over: Option<Over>,
    pub tag: String,
}
/// A precompile override: for the specs in `specs` (bit per spec) the address costs `price` and answers as `answer`, or fails.
#[derive(Clone, Copy, Debug)]
pub struct Over {
    pub addr: Address,
    pub specs: u8,
    pub price: u64,
    pub fails: bool,
}
impl Over {
    pub fn answer(&self, input: &[u8]) -> Bytes {
        let mut v = vec![self.price as u8 ^ 0x5a; 1 + input.len() % 70];
        v[0] = input.iter().fold(input.len() as u8, |a, b| a.wrapping_mul(31).wrapping_add(*b));
        v.into()
    }
    pub fn run(&self, input: &[u8], gas: u64) -> Option<(u64, Bytes)> {
        (!self.fails && gas >= self.price).then(|| (self.price, self.answer(input)))
    }
    pub fn active(&self, spec: mega_evm::MegaSpecId) -> bool {
        self.specs >> crate::gen::SPECS.iter().position(|s| *s == spec).unwrap() & 1 == 1
    }
}

/// The settings of `CfgEnv` beyond chain id and code size limits.
#[derive(Clone, Debug, Default)]
pub struct CfgFlags {
    pub no_chain_id: bool,
    pub no_nonce: bool,
    pub no_balance: bool,
    pub no_block_gas: bool,
    pub no_3541: bool,
    pub no_3607: bool,
    pub no_base_fee: bool,
    pub gas_cap: Option<u64>,
    pub memory: Option<u64>,
    pub blobs: Option<u64>,
    pub blob_fraction: Option<u64>,
}
impl CfgFlags {
    pub fn random(r: &mut crate::rng::Rng) -> Self {
        CfgFlags {
            no_chain_id: r.pct(40),
            no_nonce: r.pct(30),
            no_balance: r.pct(20),
            no_block_gas: r.pct(30),
            no_3541: r.pct(30),
            no_3607: r.pct(40),
            no_base_fee: r.pct(30),
            gas_cap: r.pct(40).then(|| *r.pick(&[21_000, 100_000, 400_000, 2_000_000, u64::MAX])),
            memory: r.pct(40).then(|| *r.pick(&[64, 1024, 4096, 65_536])),
            blobs: r.pct(30).then(|| r.below(9)),
            blob_fraction: r.pct(30).then(|| *r.pick(&[3_338_477, 5_007_716, 1_000])),
        }
    }
    pub fn apply<S>(&self, c: &mut mega_evm::revm::context::CfgEnv<S>) {
        c.tx_chain_id_check = !self.no_chain_id;
        c.disable_nonce_check = self.no_nonce;
        c.disable_balance_check = self.no_balance;
        c.disable_block_gas_limit = self.no_block_gas;
        c.disable_eip3541 = self.no_3541;
        c.disable_eip3607 = self.no_3607;
        c.disable_base_fee = self.no_base_fee;
        c.tx_gas_limit_cap = self.gas_cap;
        if let Some(m) = self.memory {
            c.memory_limit = m;
        }
        c.max_blobs_per_tx = self.blobs;
        c.blob_base_fee_update_fraction = self.blob_fraction;
    }
}
