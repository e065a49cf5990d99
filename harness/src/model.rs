//! Reference model: an independent recursive EVM (Prague) extended with the MegaETH rules as
//! stated in the properties.  It shares no code with /repo; only the stock `revm-precompile`
//! functions, the stock op-revm L1 fee formulas and alloy's RLP/signature code are reused.
//!
//! The model predicts the complete observable result of a transaction (status, gas, output, logs,
//! the four resource usages, hints, buckets, post-state) and a per-opcode trace.
use crate::env::*;
use mega_evm::alloy_primitives::{keccak256, Address, Bytes, Log, LogData, B256, U256};
use mega_evm::op_revm::L1BlockInfo;
use mega_evm::{BucketId, MegaSpecId};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

pub const ORACLE: Address = mega_evm::alloy_primitives::address!("6342000000000000000000000000000000000001");
pub const KEYLESS: Address = mega_evm::alloy_primitives::address!("6342000000000000000000000000000000000003");
pub const SYSTEM: Address = mega_evm::alloy_primitives::address!("A887dCB9D5f39Ef79272801d05Abdf707CFBbD1d");
pub const L1_VAULT: Address = mega_evm::alloy_primitives::address!("420000000000000000000000000000000000001A");
pub const BASE_VAULT: Address = mega_evm::alloy_primitives::address!("4200000000000000000000000000000000000019");
pub const OPERATOR_VAULT: Address = mega_evm::alloy_primitives::address!("420000000000000000000000000000000000001B");

pub const V_NUMBER: u16 = 1 << 0;
pub const V_TIMESTAMP: u16 = 1 << 1;
pub const V_COINBASE: u16 = 1 << 2;
pub const V_GAS_LIMIT: u16 = 1 << 4;
pub const V_BASE_FEE: u16 = 1 << 5;
pub const V_PREV_RANDAO: u16 = 1 << 6;
pub const V_BLOCK_HASH: u16 = 1 << 7;
pub const V_BLOB_BASE_FEE: u16 = 1 << 8;
pub const V_BLOB_HASH: u16 = 1 << 9;
pub const V_BENEFICIARY: u16 = 1 << 10;
pub const V_ORACLE: u16 = 1 << 11;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LimitKind {
    Data,
    Kv,
    Compute,
    Growth,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Status {
    Success,
    Revert,
    Halt,
    Limit { kind: LimitKind, limit: u64, actual: u64 },
    Volatile { flags: u16, limit: u64, actual: u64 },
    FailedDeposit,
    Err(String),
}
impl Status {
    pub fn coarse(&self) -> String {
        match self {
            Status::Err(_) => "Err".into(),
            s => format!("{s:?}"),
        }
    }
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: Status,
    pub gas_used: u64,
    pub refunded: u64,
    pub output: Option<Bytes>,
    pub created: Option<Address>,
    pub logs: Vec<Log>,
    pub data: u64,
    pub kv: u64,
    pub compute: u64,
    pub growth: u64,
    pub flags: u16,
    pub world: World,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Step {
    pub depth: u16,
    pub pc: u32,
    pub op: u8,
    pub gas: u64,
}

/// Events the workload actually reached; used for evidence.
#[derive(Clone, Debug, Default)]
pub struct Reach {
    pub n: BTreeMap<&'static str, u64>,
    pub ops: BTreeSet<u8>,
}
impl Reach {
    pub fn hit(&mut self, k: &'static str) {
        *self.n.entry(k).or_default() += 1;
    }
    pub fn add(&mut self, k: &'static str, v: u64) {
        *self.n.entry(k).or_default() += v;
    }
    pub fn merge(&mut self, o: &Reach) {
        for (k, v) in &o.n {
            *self.n.entry(k).or_default() += v;
        }
        self.ops.extend(o.ops.iter().copied());
    }
}

#[derive(Clone, Debug)]
struct Slot {
    orig: U256,
    present: U256,
    cold: bool,
}
#[derive(Clone, Debug)]
struct JA {
    balance: U256,
    nonce: u64,
    code: Bytes,
    storage: HashMap<U256, Slot>,
    cold: bool,
    prewarm: bool,
    created: bool,
    destroyed: bool,
    in_db: bool,
    touched: bool,
}
impl JA {
    fn empty(&self) -> bool {
        self.balance.is_zero() && self.nonce == 0 && self.code.is_empty()
    }
}
#[derive(Clone)]
struct Snap {
    acc: HashMap<Address, JA>,
    transient: HashMap<(Address, U256), U256>,
    logs: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum R {
    Ok,
    Revert,
    /// gas is handed back like a revert, but it is a halt at top level
    SoftHalt,
    Err,
}
struct Out {
    res: R,
    gas: u64,
    refund: i64,
    data: Bytes,
    addr: Option<Address>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Scheme {
    Call,
    CallCode,
    Delegate,
    Static,
}
struct CallIn {
    input: Bytes,
    gas: u64,
    target: Address,
    caller: Address,
    code_addr: Address,
    /// Some(v): transferred; None: apparent
    value: U256,
    transfers: bool,
    is_static: bool,
    #[allow(dead_code)]
    scheme: Scheme,
}
struct Lf {
    d: i64,
    k: i64,
    g: i64,
    upd: bool,
}

pub struct Model {
    pub spec: MegaSpecId,
    mr: bool,
    rex: bool,
    rex1: bool,
    rex2: bool,
    rex3: bool,
    base: Arc<World>,
    pub block: BlockSpec,
    limits: Limits,
    /// None: the empty external environment
    salt_mode: Option<u64>,
    oracle: Arc<BTreeMap<U256, U256>>,
    chain_id: u64,
    max_code: usize,
    max_initcode: usize,
    sandbox: bool,
    no_fees: bool,
    over: Option<crate::env::Over>,
    precompiles: HashSet<Address>,
    // persists across transactions on one EVM instance
    sticky_compute_limit: u64,
    pub buckets: BTreeSet<BucketId>,
    pub hints: Vec<(Address, B256, Bytes)>,
    /// block numbers whose hash was read on this instance
    pub hashes_read: BTreeSet<u64>,
    // per transaction
    acc: HashMap<Address, JA>,
    transient: HashMap<(Address, U256), U256>,
    logs: Vec<Log>,
    preload: HashSet<Address>,
    frames: Vec<Lf>,
    data: i64,
    kv: i64,
    growth: i64,
    compute: u64,
    compute_limit: u64,
    exceeded: Option<(LimitKind, u64, u64)>,
    rescued: u64,
    vflags: u16,
    vcap: Option<u64>,
    origin: Address,
    eff_price: u128,
    cached_l1: Option<U256>,
    output_unknown: bool,
    pub trace: Vec<Step>,
    pub trace_on: bool,
    pub reach: Reach,
    pub steps: u64,
}

const TRACE_CAP: usize = 60_000;

pub fn max_sizes(spec: MegaSpecId, mc: Option<usize>, mi: Option<usize>) -> (usize, usize) {
    let mr = spec != MegaSpecId::EQUIVALENCE;
    let code = mc.unwrap_or(if mr { 512 * 1024 } else { 0x6000 });
    let init = mi.unwrap_or(if mr { 512 * 1024 + 24 * 1024 } else { code * 2 });
    (code, init)
}
pub fn lim_default(spec: MegaSpecId) -> Limits {
    let (rex, rex3) = (spec >= MegaSpecId::REX, spec >= MegaSpecId::REX3);
    if spec == MegaSpecId::EQUIVALENCE {
        return Limits { compute: u64::MAX, data: u64::MAX, kv: u64::MAX, growth: u64::MAX, cap_block: u64::MAX, cap_oracle: u64::MAX };
    }
    Limits {
        compute: if rex { 200_000_000 } else { 1_000_000_000 },
        data: if rex { 13_107_200 } else { 3_276_800 },
        kv: if rex { 500_000 } else { 125_000 },
        growth: if rex { 1000 } else { u64::MAX },
        cap_block: 20_000_000,
        cap_oracle: if rex3 { 20_000_000 } else { 1_000_000 },
    }
}

fn words(n: u64) -> u64 {
    n / 32 + (n % 32 != 0) as u64
}
fn addr_of(x: U256) -> Address {
    Address::from_slice(&x.to_be_bytes::<32>()[12..])
}
fn word_of(a: Address) -> U256 {
    U256::from_be_slice(a.as_slice())
}
fn tokens(input: &[u8]) -> u64 {
    input.iter().map(|b| if *b == 0 { 1 } else { 4 }).sum()
}
fn neg(x: U256) -> bool {
    x.bit(255)
}
fn abs(x: U256) -> U256 {
    if neg(x) { x.wrapping_neg() } else { x }
}

struct Fr {
    stack: Vec<U256>,
    mem: Vec<u8>,
    gas: u64,
    refund: i64,
    pc: usize,
    ret: Bytes,
}
type E<T> = Result<T, ()>;
impl Fr {
    fn charge(&mut self, c: u64) -> E<()> {
        if self.gas < c {
            return Err(());
        }
        self.gas -= c;
        Ok(())
    }
    fn pop(&mut self) -> E<U256> {
        self.stack.pop().ok_or(())
    }
    fn push(&mut self, x: U256) -> E<()> {
        if self.stack.len() >= 1024 {
            return Err(());
        }
        self.stack.push(x);
        Ok(())
    }
    fn peek(&self, i: usize) -> Option<U256> {
        let n = self.stack.len();
        if i < n { Some(self.stack[n - 1 - i]) } else { None }
    }
    fn expand(&mut self, off: u64, len: u64) -> E<()> {
        let w = words(off.saturating_add(len));
        let cur = self.mem.len() as u64 / 32;
        if w > cur {
            let c = |w: u64| 3u64.saturating_mul(w).saturating_add(w.saturating_mul(w) / 512);
            self.charge(c(w) - c(cur))?;
            self.mem.resize((w * 32) as usize, 0);
        }
        Ok(())
    }
    fn slice(&self, off: u64, len: u64) -> Bytes {
        if len == 0 {
            return Bytes::new();
        }
        Bytes::copy_from_slice(&self.mem[off as usize..(off + len) as usize])
    }
    /// copies `src[so..]` zero padded
    fn put(&mut self, off: u64, so: U256, len: u64, src: &[u8]) {
        let so = if so > U256::from(src.len()) { src.len() } else { so.to::<usize>() };
        for i in 0..len as usize {
            self.mem[off as usize + i] = src.get(so + i).copied().unwrap_or(0);
        }
    }
}
fn u(x: U256) -> E<u64> {
    u64::try_from(x).map_err(|_| ())
}

fn jumpdests(code: &[u8]) -> Vec<bool> {
    let mut v = vec![false; code.len()];
    let mut i = 0;
    while i < code.len() {
        match code[i] {
            0x5b => v[i] = true,
            o @ 0x60..=0x7f => i += (o - 0x5f) as usize,
            _ => {}
        }
        i += 1;
    }
    v
}

enum Flow {
    Next,
    Jump(usize),
    Done(R, Bytes),
}

impl Model {
    pub fn new(sc: &Scenario) -> Self {
        let (mc, mi) = max_sizes(sc.spec, sc.max_code, sc.max_initcode);
        let mut m = Self::raw(sc.spec, sc.world.clone(), sc.block.clone(), sc.limits, Some(sc.salt_mode), sc.oracle.clone(), sc.chain_id, mc, mi, false);
        m.no_fees = sc.no_fees;
        m.over = sc.over.filter(|o| o.active(sc.spec));
        if let Some(o) = &m.over {
            m.precompiles.insert(o.addr);
        }
        m
    }
    #[allow(clippy::too_many_arguments)]
    fn raw(spec: MegaSpecId, base: Arc<World>, block: BlockSpec, limits: Limits, salt_mode: Option<u64>, oracle: Arc<BTreeMap<U256, U256>>, chain_id: u64, max_code: usize, max_initcode: usize, sandbox: bool) -> Self {
        let pre = mega_evm::op_revm::precompiles::isthmus();
        Self {
            spec,
            mr: spec >= MegaSpecId::MINI_REX,
            rex: spec >= MegaSpecId::REX,
            rex1: spec >= MegaSpecId::REX1,
            rex2: spec >= MegaSpecId::REX2,
            rex3: spec >= MegaSpecId::REX3,
            base,
            block,
            limits,
            salt_mode,
            oracle,
            chain_id,
            max_code,
            max_initcode,
            sandbox,
            no_fees: false,
            over: None,
            precompiles: pre.addresses().copied().collect(),
            sticky_compute_limit: limits.compute,
            buckets: BTreeSet::new(),
            hints: vec![],
            hashes_read: BTreeSet::new(),
            acc: HashMap::new(),
            transient: HashMap::new(),
            logs: vec![],
            preload: HashSet::new(),
            frames: vec![],
            data: 0,
            kv: 0,
            growth: 0,
            compute: 0,
            compute_limit: limits.compute,
            exceeded: None,
            rescued: 0,
            vflags: 0,
            vcap: None,
            origin: Address::ZERO,
            eff_price: 0,
            cached_l1: None,
            output_unknown: false,
            trace: vec![],
            trace_on: true,
            reach: Reach::default(),
            steps: 0,
        }
    }
    /// Replace the pre-state (used between transactions of a sequence).
    pub fn set_world(&mut self, w: Arc<World>) {
        self.base = w;
    }
    pub fn world(&self) -> Arc<World> {
        self.base.clone()
    }
    pub fn new_block(&mut self, b: BlockSpec) {
        self.block = b;
        self.buckets.clear();
    }
    pub fn set_salt_mode(&mut self, m: u64) {
        self.salt_mode = Some(m);
    }
    pub fn set_limits(&mut self, l: Limits) {
        self.limits = l;
        self.sticky_compute_limit = l.compute;
    }

    // ---------------------------------------------------------------- state
    fn fresh(&self, a: Address, cold: bool) -> JA {
        match self.base.get(&a) {
            Some(x) => JA { balance: x.balance, nonce: x.nonce, code: x.code.clone(), storage: HashMap::new(), cold, prewarm: false, created: false, destroyed: false, in_db: true, touched: false },
            None => JA { balance: U256::ZERO, nonce: 0, code: Bytes::new(), storage: HashMap::new(), cold, prewarm: false, created: false, destroyed: false, in_db: false, touched: false },
        }
    }
    /// Loads (warms) an account, returns whether it was cold.
    fn load(&mut self, a: Address) -> bool {
        if let Some(x) = self.acc.get_mut(&a) {
            return std::mem::replace(&mut x.cold, false);
        }
        let pre = self.preload.contains(&a);
        let mut j = self.fresh(a, false);
        j.prewarm = pre;
        self.acc.insert(a, j);
        !pre
    }
    /// Looks at an account without warming it (it becomes known, and cold).
    fn inspect(&mut self, a: Address) {
        if !self.acc.contains_key(&a) {
            if self.preload.contains(&a) {
                self.reach.hit("inspect_preloaded");
            }
            let j = self.fresh(a, true);
            self.acc.insert(a, j);
        }
    }
    fn inspect_delegated_empty(&mut self, a: Address) -> bool {
        self.inspect(a);
        if let Some(d) = is_7702(&self.acc[&a].code) {
            self.inspect(d);
            if self.acc[&d].empty() {
                self.reach.hit("inspect_delegate_empty");
            }
            return self.acc[&d].empty();
        }
        self.acc[&a].empty()
    }
    fn base_slot(&self, a: Address, k: U256) -> U256 {
        self.base.get(&a).and_then(|x| x.storage.get(&k).copied()).unwrap_or_default()
    }
    fn slot(&mut self, a: Address, k: U256, warm: bool) -> (U256, U256, bool) {
        let b = if self.acc[&a].created { U256::ZERO } else { self.base_slot(a, k) };
        let s = self.acc.get_mut(&a).unwrap().storage.entry(k).or_insert(Slot { orig: b, present: b, cold: true });
        let was = s.cold;
        if warm {
            s.cold = false;
        }
        (s.orig, s.present, was)
    }
    fn snap(&self) -> Snap {
        Snap { acc: self.acc.clone(), transient: self.transient.clone(), logs: self.logs.len() }
    }
    fn revert(&mut self, s: Snap) {
        self.transient = s.transient;
        self.logs.truncate(s.logs);
        let cur = std::mem::replace(&mut self.acc, s.acc);
        for (a, j) in cur {
            if !self.acc.contains_key(&a) {
                let mut f = self.fresh(a, !j.prewarm);
                f.prewarm = j.prewarm;
                self.acc.insert(a, f);
            }
            let created = self.acc[&a].created;
            for (k, sl) in j.storage {
                let b = if created { U256::ZERO } else { sl.orig };
                self.acc.get_mut(&a).unwrap().storage.entry(k).or_insert(Slot { orig: b, present: b, cold: true });
            }
        }
    }
    fn a(&mut self, a: Address) -> &mut JA {
        self.acc.get_mut(&a).unwrap()
    }
    fn materialize(&self) -> World {
        let mut w = (*self.base).clone();
        for (a, j) in &self.acc {
            if j.destroyed {
                w.remove(a);
                continue;
            }
            let e = w.entry(*a).or_default();
            if j.created {
                e.storage.clear();
            }
            e.balance = j.balance;
            e.nonce = j.nonce;
            e.code = j.code.clone();
            for (k, s) in &j.storage {
                e.storage.insert(*k, s.present);
            }
        }
        normalize(&mut w);
        w
    }

    // ---------------------------------------------------------------- ledger
    fn check(&mut self) -> bool {
        if !self.mr {
            return false;
        }
        if self.exceeded.is_some() {
            return true;
        }
        let cl = |x: i64| if x < 0 { 0 } else { x as u64 };
        let l = self.limits;
        self.exceeded = if cl(self.data) > l.data {
            Some((LimitKind::Data, l.data, cl(self.data)))
        } else if cl(self.kv) > l.kv {
            Some((LimitKind::Kv, l.kv, cl(self.kv)))
        } else if self.compute > self.compute_limit {
            Some((LimitKind::Compute, self.compute_limit, self.compute))
        } else if cl(self.growth) > l.growth {
            Some((LimitKind::Growth, l.growth, cl(self.growth)))
        } else {
            None
        };
        if let Some((k, _, _)) = self.exceeded {
            self.reach.hit(match k {
                LimitKind::Data => "exceed_data",
                LimitKind::Kv => "exceed_kv",
                LimitKind::Compute => "exceed_compute",
                LimitKind::Growth => "exceed_growth",
            });
            if self.frames.len() > 1 {
                self.reach.hit("exceed_nested");
            }
        }
        self.exceeded.is_some()
    }
    fn rec(&mut self, d: i64, k: i64, g: i64) {
        self.data += d;
        self.kv += k;
        self.growth += g;
        if let Some(f) = self.frames.last_mut() {
            f.d += d;
            f.k += k;
            f.g += g;
        }
    }
    fn rec_compute(&mut self, c: u64) -> bool {
        self.compute = self.compute.saturating_add(c);
        self.check()
    }
    /// end of a frame: keep or drop what it produced, then check and collect unused gas
    fn finish(&mut self, mut o: Out) -> Out {
        if !self.mr {
            return o;
        }
        let f = self.frames.pop().expect("ledger frame");
        if o.res == R::Ok {
            if let Some(p) = self.frames.last_mut() {
                p.d += f.d;
                p.k += f.k;
                p.g += f.g;
            }
        } else {
            if f.d != 0 || f.g != 0 {
                self.reach.hit("ledger_discard");
            }
            if f.g < 0 || f.d < 0 {
                self.reach.hit("ledger_discard_negative");
            }
            self.data -= f.d;
            self.kv -= f.k;
            self.growth -= f.g;
        }
        if self.check() {
            self.rescued += o.gas;
            o.res = R::Err;
        }
        o
    }
    fn mark(&mut self, f: u16) {
        self.vflags |= f;
        let l = if f == V_ORACLE { self.limits.cap_oracle } else { self.limits.cap_block };
        self.vcap = Some(self.vcap.map_or(l, |c| c.min(l)));
    }
    fn mark_acct(&mut self, a: Address) {
        if a == self.block.beneficiary {
            self.mark(V_BENEFICIARY);
            self.reach.hit("volatile_beneficiary");
        }
    }
    fn mult(&mut self, b: BucketId) -> u64 {
        match self.salt_mode {
            None => 1,
            Some(m) => {
                self.buckets.insert(b);
                let x = multiplier_of(m, b);
                if x > 1 {
                    self.reach.hit("multiplier_gt1");
                }
                x
            }
        }
    }
    fn acct_gas(&mut self, a: Address) -> u64 {
        let m = self.mult(acct_bucket(a));
        self.reach.hit("new_account_storage_gas");
        if self.rex { 25_000 * (m - 1) } else { 2_000_000 * m }
    }
    fn create_gas(&mut self, a: Address) -> u64 {
        let m = self.mult(acct_bucket(a));
        self.reach.hit("create_storage_gas");
        if self.rex { 32_000 * (m - 1) } else { 2_000_000 * m }
    }
    fn slot_gas(&mut self, a: Address, k: U256) -> u64 {
        let m = self.mult(slot_bucket(a, k));
        self.reach.hit("sstore_storage_gas");
        if self.rex { 20_000 * (m - 1) } else { 2_000_000 * m }
    }

    // ---------------------------------------------------------------- frames
    fn do_call(&mut self, c: CallIn, depth: u64) -> Out {
        let gas0 = c.gas;
        let ret = move |res, gas, data| Out { res, gas, refund: 0, data, addr: None };
        if self.mr && !self.rex3 && c.caller != SYSTEM && c.target == ORACLE {
            self.mark(V_ORACLE);
            self.reach.hit("oracle_call_mark");
            if let Some(l) = self.vcap {
                self.compute_limit = self.compute_limit.min(l);
            }
        }
        if self.rex2 && c.target == ORACLE {
            if let Some((t, d)) = decode_hint(&c.input) {
                self.hints.push((c.caller, t, d));
                self.reach.hit("hint");
            }
        }
        if self.rex2 && !self.sandbox && depth == 0 && c.target == KEYLESS && !self.check() {
            if let Some((raw, over)) = decode_keyless(&c.input) {
                return self.keyless(c, raw, over);
            }
        }
        let transfer = c.transfers && !c.value.is_zero();
        if self.mr {
            let parent_upd = self.frames.last().map(|f| f.upd);
            self.frames.push(Lf { d: 0, k: 0, g: 0, upd: transfer });
            if transfer {
                if parent_upd == Some(false) {
                    self.rec(40, 1, 0);
                }
                self.rec(40, 1, 0);
            }
            let e = self.inspect_delegated_empty(c.target);
            if e && transfer {
                self.rec(0, 0, 1);
                self.reach.hit("growth_account");
            }
            if self.check() {
                return self.finish(ret(R::Err, gas0, Bytes::new()));
            }
        }
        if depth > 1024 {
            self.reach.hit("call_too_deep");
            return self.finish2(ret(R::SoftHalt, gas0, Bytes::new()));
        }
        self.load(c.code_addr);
        if let Some(d) = is_7702(&self.a(c.code_addr).code.clone()) {
            self.load(d);
        }
        let snap = self.snap();
        if c.transfers {
            if !c.value.is_zero() {
                self.load(c.caller);
            }
            self.load(c.target);
            self.a(c.target).touched = true;
            if !c.value.is_zero() {
                if self.a(c.caller).balance < c.value {
                    self.revert(snap);
                    self.reach.hit("call_out_of_funds");
                    return self.finish2(ret(R::SoftHalt, gas0, Bytes::new()));
                }
                self.a(c.caller).touched = true;
                self.a(c.caller).balance -= c.value;
                let nb = self.a(c.target).balance + c.value;
                self.a(c.target).balance = nb;
            }
        }
        if self.precompiles.contains(&c.code_addr) {
            let (ok, used, out) = self.precompile(c.code_addr, &c.input, gas0);
            if self.mr {
                self.rec_compute(if ok { used } else { 0 });
            }
            if !ok {
                self.revert(snap);
                self.reach.hit("precompile_fail");
                return self.finish2(ret(R::Err, gas0, Bytes::new()));
            }
            self.reach.hit("precompile_ok");
            return self.finish2(ret(R::Ok, gas0 - used, out));
        }
        self.load(c.code_addr);
        let mut code = self.a(c.code_addr).code.clone();
        if let Some(d) = is_7702(&code) {
            self.load(d);
            code = self.a(d).code.clone();
            self.reach.hit("delegated_code_run");
        }
        if code.is_empty() {
            return self.finish2(ret(R::Ok, gas0, Bytes::new()));
        }
        let o = self.run(code, c.input, c.target, c.caller, c.value, c.is_static, gas0, depth);
        if o.res != R::Ok {
            self.revert(snap);
            self.reach.hit("frame_revert");
        }
        self.finish2(o)
    }
    fn finish2(&mut self, o: Out) -> Out {
        self.finish(o)
    }
    fn precompile(&mut self, a: Address, input: &[u8], gas: u64) -> (bool, u64, Bytes) {
        use mega_evm::revm::precompile;
        if let Some(o) = self.over.filter(|o| o.addr == a) {
            self.reach.hit("override_called");
            return o.run(input, gas).map_or((false, 0, Bytes::new()), |(g, b)| (true, g, b));
        }
        let r = if self.mr && a == precompile::u64_to_address(5) {
            precompile::modexp::osaka_run(input, gas)
        } else if self.mr && a == precompile::u64_to_address(10) {
            if gas < 100_000 {
                return (false, 0, Bytes::new());
            }
            match precompile::kzg_point_evaluation::run(input, gas) {
                Ok(o) => {
                    self.reach.hit("kzg_verified");
                    return (true, 100_000, o.bytes);
                }
                Err(_) => return (false, 0, Bytes::new()),
            }
        } else {
            let p = mega_evm::op_revm::precompiles::isthmus().get(&a).copied().expect("precompile");
            p(input, gas)
        };
        match r {
            Ok(o) => {
                if a == precompile::u64_to_address(0x100) && !o.bytes.is_empty() {
                    self.reach.hit("p256_verified");
                }
                if a > precompile::u64_to_address(0x0a) && a < precompile::u64_to_address(0x12) {
                    self.reach.hit("bls_ok");
                }
                (true, o.gas_used, o.bytes)
            }
            Err(_) => (false, 0, Bytes::new()),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn do_create(&mut self, caller: Address, salt: Option<U256>, value: U256, init: Bytes, gas0: u64, depth: u64) -> Out {
        let ret = move |res, gas| Out { res, gas, refund: 0, data: Bytes::new(), addr: None };
        if self.mr {
            let parent_upd = self.frames.last().map(|f| f.upd);
            self.frames.push(Lf { d: 0, k: 0, g: 0, upd: true });
            if parent_upd == Some(false) {
                self.rec(40, 1, 0);
            }
            self.rec(0, 0, 1);
            if self.check() {
                if depth == 0 {
                    self.reach.hit("create_halted_before_frame");
                    self.load(caller);
                    let n = &mut self.a(caller).nonce;
                    *n = n.saturating_add(1);
                }
                return self.finish(ret(R::Err, gas0));
            }
        }
        if depth > 1024 {
            return self.finish2(ret(R::SoftHalt, gas0));
        }
        self.load(caller);
        if self.a(caller).balance < value {
            self.reach.hit("create_out_of_funds");
            return self.finish2(ret(R::SoftHalt, gas0));
        }
        let nonce = self.a(caller).nonce;
        if nonce == u64::MAX {
            self.reach.hit("create_nonce_overflow");
            return self.finish2(ret(R::Ok, gas0));
        }
        self.a(caller).nonce = nonce + 1;
        let created = match salt {
            None => caller.create(nonce),
            Some(s) => caller.create2(s.to_be_bytes::<32>(), keccak256(&init)),
        };
        self.load(created);
        let snap = self.snap();
        let t = self.a(created);
        if !t.code.is_empty() || t.nonce != 0 {
            self.reach.hit("create_collision");
            return self.finish2(ret(R::Err, gas0));
        }
        t.created = true;
        t.touched = true;
        t.nonce = 1;
        t.balance += value;
        self.a(caller).balance -= value;
        if self.mr {
            self.rec(40, 1, 0);
        }
        let mut o = self.run(init, Bytes::new(), created, caller, value, false, gas0, depth);
        if self.mr {
            if o.res == R::Ok {
                let c = 10_000 * o.data.len() as u64;
                if o.gas < c {
                    o.res = R::Err;
                    self.reach.hit("deposit_storage_oog");
                } else {
                    o.gas -= c;
                }
            }
            if self.exceeded.is_none() {
                self.rec(o.data.len() as i64, 0, 0);
                if self.check() {
                    o.res = R::Err;
                }
            } else {
                o.res = R::Err;
            }
        }
        let before = o.gas;
        if o.res == R::Ok {
            if o.data.first() == Some(&0xef) {
                o.res = R::Err;
                self.reach.hit("create_ef");
            } else if o.data.len() > self.max_code {
                o.res = R::Err;
                self.reach.hit("create_too_large");
            } else if o.gas < 200 * o.data.len() as u64 {
                o.res = R::Err;
                self.reach.hit("deposit_oog");
            } else {
                o.gas -= 200 * o.data.len() as u64;
            }
        }
        if o.res == R::Ok {
            let code = o.data.clone();
            self.a(created).code = code;
            o.addr = Some(created);
            self.reach.hit("create_ok");
        } else {
            self.revert(snap);
            self.reach.hit("create_fail");
        }
        if self.mr && self.rec_compute(before - o.gas) {
            if o.res == R::Ok {
                self.reach.hit("exceed_after_create_commit");
            }
            o.res = R::Err;
        }
        if o.res == R::Revert || o.res == R::Ok {
            // address reported also for reverted creations: irrelevant to callers
        }
        self.finish2(o)
    }

    // ---------------------------------------------------------------- interpreter
    #[allow(clippy::too_many_arguments)]
    fn run(&mut self, code: Bytes, input: Bytes, me: Address, caller: Address, value: U256, is_static: bool, gas: u64, depth: u64) -> Out {
        let mut f = Fr { stack: Vec::with_capacity(32), mem: vec![], gas, refund: 0, pc: 0, ret: Bytes::new() };
        let err = |f: &Fr| Out { res: R::Err, gas: f.gas, refund: 0, data: Bytes::new(), addr: None };
        if self.check() {
            return err(&f);
        }
        let jd = jumpdests(&code);
        loop {
            let op = code.get(f.pc).copied().unwrap_or(0);
            self.steps += 1;
            if self.trace_on && self.trace.len() < TRACE_CAP {
                self.trace.push(Step { depth: depth as u16, pc: f.pc as u32, op, gas: f.gas });
            }
            self.reach.ops.insert(op);
            match self.step(&mut f, op, &code, &jd, &input, me, caller, value, is_static, depth) {
                Err(()) => return err(&f),
                Ok(Flow::Next) => f.pc += 1,
                Ok(Flow::Jump(p)) => f.pc = p,
                Ok(Flow::Done(res, data)) => return Out { res, gas: f.gas, refund: f.refund, data, addr: None },
            }
        }
    }
    /// after a successful opcode: account its compute gas
    fn post(&mut self, used: u64) -> E<()> {
        if self.mr && self.rec_compute(used) {
            return Err(());
        }
        Ok(())
    }
    fn detain(&mut self) {
        if self.mr {
            if let Some(l) = self.vcap {
                if l < self.compute_limit {
                    self.reach.hit("volatile_cap_applied");
                }
                self.compute_limit = self.compute_limit.min(l);
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn step(&mut self, f: &mut Fr, op: u8, code: &[u8], jd: &[bool], input: &[u8], me: Address, caller: Address, value: U256, is_static: bool, depth: u64) -> E<Flow> {
        let g0 = f.gas;
        let mut volatile = false;
        macro_rules! bin {
            ($g:expr, |$x:ident, $y:ident| $e:expr) => {{
                f.charge($g)?;
                let $x = f.pop()?;
                let $y = f.pop()?;
                f.push($e)?;
            }};
        }
        let b = |x: bool| if x { U256::from(1) } else { U256::ZERO };
        match op {
            0x00 => {
                self.post(0)?;
                return Ok(Flow::Done(R::Ok, Bytes::new()));
            }
            0x01 => bin!(3, |x, y| x.wrapping_add(y)),
            0x02 => bin!(5, |x, y| x.wrapping_mul(y)),
            0x03 => bin!(3, |x, y| x.wrapping_sub(y)),
            0x04 => bin!(5, |x, y| if y.is_zero() { y } else { x / y }),
            0x05 => bin!(5, |x, y| if y.is_zero() {
                y
            } else {
                let q = abs(x) / abs(y);
                if neg(x) != neg(y) { q.wrapping_neg() } else { q }
            }),
            0x06 => bin!(5, |x, y| if y.is_zero() { y } else { x % y }),
            0x07 => bin!(5, |x, y| if y.is_zero() {
                y
            } else {
                let r = abs(x) % abs(y);
                if neg(x) { r.wrapping_neg() } else { r }
            }),
            0x08 | 0x09 => {
                f.charge(8)?;
                let (x, y, m) = (f.pop()?, f.pop()?, f.pop()?);
                f.push(if op == 8 { x.add_mod(y, m) } else { x.mul_mod(y, m) })?;
            }
            0x0a => {
                let (x, y) = (f.pop()?, f.pop()?);
                let bytes = (y.bit_len() as u64 + 7) / 8;
                f.charge(10 + 50 * bytes)?;
                f.push(x.wrapping_pow(y))?;
            }
            0x0b => bin!(5, |x, y| if x < U256::from(31) {
                let bit = x.to::<usize>() * 8 + 7;
                let mask = (U256::from(1) << bit) - U256::from(1);
                if y.bit(bit) { y | !mask } else { y & mask }
            } else {
                y
            }),
            0x10 => bin!(3, |x, y| b(x < y)),
            0x11 => bin!(3, |x, y| b(x > y)),
            0x12 => bin!(3, |x, y| b(if neg(x) != neg(y) { neg(x) } else { x < y })),
            0x13 => bin!(3, |x, y| b(if neg(x) != neg(y) { neg(y) } else { x > y })),
            0x14 => bin!(3, |x, y| b(x == y)),
            0x15 => {
                f.charge(3)?;
                let x = f.pop()?;
                f.push(b(x.is_zero()))?;
            }
            0x16 => bin!(3, |x, y| x & y),
            0x17 => bin!(3, |x, y| x | y),
            0x18 => bin!(3, |x, y| x ^ y),
            0x19 => {
                f.charge(3)?;
                let x = f.pop()?;
                f.push(!x)?;
            }
            0x1a => bin!(3, |x, y| if x < U256::from(32) { U256::from(y.to_be_bytes::<32>()[x.to::<usize>()]) } else { U256::ZERO }),
            0x1b => bin!(3, |x, y| if x < U256::from(256) { y << x.to::<usize>() } else { U256::ZERO }),
            0x1c => bin!(3, |x, y| if x < U256::from(256) { y >> x.to::<usize>() } else { U256::ZERO }),
            0x1d => bin!(3, |x, y| {
                let fill = if neg(y) { U256::MAX } else { U256::ZERO };
                if x >= U256::from(256) {
                    fill
                } else {
                    let s = x.to::<usize>();
                    let r = y >> s;
                    if s > 0 && neg(y) { r | (U256::MAX << (256 - s)) } else { r }
                }
            }),
            0x20 => {
                let (o, l) = (f.pop()?, u(f.pop()?)?);
                f.charge(30u64.checked_add(words(l).checked_mul(6).ok_or(())?).ok_or(())?)?;
                let h = if l == 0 {
                    keccak256([])
                } else {
                    let o = u(o)?;
                    f.expand(o, l)?;
                    keccak256(f.slice(o, l))
                };
                f.push(h.into())?;
            }
            0x30 => {
                f.charge(2)?;
                f.push(word_of(me))?;
            }
            0x31 => {
                let a = addr_of(f.pop()?);
                self.mark_acct(a);
                let cold = self.load(a);
                f.charge(if cold { 2600 } else { 100 })?;
                f.push(self.a(a).balance)?;
                volatile = true;
            }
            0x32 => {
                f.charge(2)?;
                f.push(word_of(self.origin))?;
            }
            0x33 => {
                f.charge(2)?;
                f.push(word_of(caller))?;
            }
            0x34 => {
                f.charge(2)?;
                f.push(value)?;
            }
            0x35 => {
                f.charge(3)?;
                let o = f.pop()?;
                let mut w = [0u8; 32];
                if o < U256::from(input.len()) {
                    let o = o.to::<usize>();
                    for i in 0..32 {
                        w[i] = input.get(o + i).copied().unwrap_or(0);
                    }
                }
                f.push(U256::from_be_bytes(w))?;
            }
            0x36 => {
                f.charge(2)?;
                f.push(U256::from(input.len()))?;
            }
            0x37 | 0x39 => {
                let (d, s, l) = (f.pop()?, f.pop()?, u(f.pop()?)?);
                f.charge(3u64.checked_add(words(l).checked_mul(3).ok_or(())?).ok_or(())?)?;
                if l > 0 {
                    let d = u(d)?;
                    f.expand(d, l)?;
                    f.put(d, s, l, if op == 0x37 { input } else { code });
                }
            }
            0x38 => {
                f.charge(2)?;
                f.push(U256::from(code.len()))?;
            }
            0x3a => {
                f.charge(2)?;
                f.push(U256::from(self.eff_price))?;
            }
            0x3b => {
                let a = addr_of(f.pop()?);
                self.mark_acct(a);
                let cold = self.load(a);
                f.charge(if cold { 2600 } else { 100 })?;
                f.push(U256::from(self.a(a).code.len()))?;
                volatile = true;
            }
            0x3c => {
                let (a, d, s, l) = (addr_of(f.pop()?), f.pop()?, f.pop()?, f.pop()?);
                self.mark_acct(a);
                let cold = self.load(a);
                let l = u(l)?;
                f.charge((if cold { 2600u64 } else { 100 }).checked_add(words(l).checked_mul(3).ok_or(())?).ok_or(())?)?;
                if l > 0 {
                    let d = u(d)?;
                    f.expand(d, l)?;
                    let c = self.a(a).code.clone();
                    f.put(d, s, l, &c);
                }
                volatile = true;
            }
            0x3d => {
                f.charge(2)?;
                f.push(U256::from(f.ret.len()))?;
            }
            0x3e => {
                let (d, s, l) = (f.pop()?, f.pop()?, u(f.pop()?)?);
                if s.saturating_add(U256::from(l)) > U256::from(f.ret.len()) {
                    return Err(());
                }
                f.charge(3u64.checked_add(words(l).checked_mul(3).ok_or(())?).ok_or(())?)?;
                if l > 0 {
                    let d = u(d)?;
                    f.expand(d, l)?;
                    let r = f.ret.clone();
                    f.put(d, s, l, &r);
                }
            }
            0x3f => {
                let a = addr_of(f.pop()?);
                self.mark_acct(a);
                let cold = self.load(a);
                f.charge(if cold { 2600 } else { 100 })?;
                let j = self.a(a);
                let h = if j.empty() { B256::ZERO } else { keccak256(&j.code) };
                f.push(h.into())?;
                volatile = true;
            }
            0x40 => {
                f.charge(20)?;
                let n = f.pop()?;
                self.mark(V_NUMBER);
                let cur = U256::from(self.block.number);
                let mut r = U256::ZERO;
                if n < cur && cur - n <= U256::from(256) {
                    self.mark(V_BLOCK_HASH);
                    self.reach.hit("volatile_blockhash");
                    r = block_hash_of(n.to::<u64>()).into();
                    self.hashes_read.insert(n.to::<u64>());
                }
                f.push(r)?;
                volatile = true;
            }
            0x41..=0x45 | 0x48 | 0x4a => {
                f.charge(2)?;
                let bk = &self.block;
                let (fl, v) = match op {
                    0x41 => (V_COINBASE, word_of(bk.beneficiary)),
                    0x42 => (V_TIMESTAMP, U256::from(bk.timestamp)),
                    0x43 => (V_NUMBER, U256::from(bk.number)),
                    0x44 => (V_PREV_RANDAO, bk.prevrandao.into()),
                    0x45 => (V_GAS_LIMIT, U256::from(bk.gas_limit)),
                    0x48 => (V_BASE_FEE, U256::from(bk.basefee)),
                    _ => (V_BLOB_BASE_FEE, U256::from(bk.blob_price)),
                };
                self.mark(fl);
                self.reach.hit("volatile_block_env");
                f.push(v)?;
                volatile = true;
            }
            0x46 => {
                f.charge(2)?;
                f.push(U256::from(self.chain_id))?;
            }
            0x47 => {
                f.charge(5)?;
                self.mark_acct(me);
                f.push(self.a(me).balance)?;
            }
            0x49 => {
                f.charge(3)?;
                let _ = f.pop()?;
                self.mark(V_BLOB_HASH);
                f.push(U256::ZERO)?;
                volatile = true;
            }
            0x50 => {
                f.charge(2)?;
                f.pop()?;
            }
            0x51 => {
                f.charge(3)?;
                let o = u(f.pop()?)?;
                f.expand(o, 32)?;
                f.push(U256::from_be_slice(&f.slice(o, 32)))?;
            }
            0x52 => {
                f.charge(3)?;
                let (o, v) = (f.pop()?, f.pop()?);
                let o = u(o)?;
                f.expand(o, 32)?;
                f.mem[o as usize..o as usize + 32].copy_from_slice(&v.to_be_bytes::<32>());
            }
            0x53 => {
                f.charge(3)?;
                let (o, v) = (f.pop()?, f.pop()?);
                let o = u(o)?;
                f.expand(o, 1)?;
                f.mem[o as usize] = v.byte(0);
            }
            0x54 => {
                let k = f.pop()?;
                let or = self.mr && me == ORACLE;
                if or && self.rex3 && self.origin != SYSTEM {
                    self.mark(V_ORACLE);
                    self.reach.hit("oracle_sload_mark");
                }
                let (v, cold) = match (or, self.oracle.get(&k)) {
                    (true, Some(v)) => {
                        self.reach.hit("oracle_sload_env");
                        (*v, true)
                    }
                    _ => {
                        let (_, p, c) = self.slot(me, k, true);
                        if or {
                            self.reach.hit("oracle_sload_state");
                        }
                        (p, c || or)
                    }
                };
                f.charge(if cold { 2100 } else { 100 })?;
                f.push(v)?;
                volatile = self.rex3;
            }
            0x55 => return self.sstore(f, me, is_static),
            0x56 => {
                f.charge(8)?;
                let t = f.pop()?;
                let t = usize::try_from(t).map_err(|_| ())?;
                if !jd.get(t).copied().unwrap_or(false) {
                    return Err(());
                }
                self.post(8)?;
                return Ok(Flow::Jump(t));
            }
            0x57 => {
                f.charge(10)?;
                let (t, c) = (f.pop()?, f.pop()?);
                if !c.is_zero() {
                    let t = usize::try_from(t).map_err(|_| ())?;
                    if !jd.get(t).copied().unwrap_or(false) {
                        return Err(());
                    }
                    self.post(10)?;
                    return Ok(Flow::Jump(t));
                }
            }
            0x58 => {
                f.charge(2)?;
                f.push(U256::from(f.pc))?;
            }
            0x59 => {
                f.charge(2)?;
                f.push(U256::from(f.mem.len()))?;
            }
            0x5a => {
                f.charge(2)?;
                f.push(U256::from(f.gas))?;
            }
            0x5b => f.charge(1)?,
            0x5c => {
                f.charge(100)?;
                let k = f.pop()?;
                let v = self.transient.get(&(me, k)).copied().unwrap_or_default();
                f.push(v)?;
            }
            0x5d => {
                if is_static {
                    return Err(());
                }
                f.charge(100)?;
                let (k, v) = (f.pop()?, f.pop()?);
                self.transient.insert((me, k), v);
            }
            0x5e => {
                let (d, s, l) = (f.pop()?, f.pop()?, u(f.pop()?)?);
                f.charge(3u64.checked_add(words(l).checked_mul(3).ok_or(())?).ok_or(())?)?;
                if l > 0 {
                    let (d, s) = (u(d)?, u(s)?);
                    f.expand(d.max(s), l)?;
                    f.mem.copy_within(s as usize..(s + l) as usize, d as usize);
                }
            }
            0x5f => {
                f.charge(2)?;
                f.push(U256::ZERO)?;
            }
            0x60..=0x7f => {
                f.charge(3)?;
                let n = (op - 0x5f) as usize;
                let mut w = [0u8; 32];
                for i in 0..n {
                    w[32 - n + i] = code.get(f.pc + 1 + i).copied().unwrap_or(0);
                }
                f.push(U256::from_be_bytes(w))?;
                self.post(3)?;
                return Ok(Flow::Jump(f.pc + 1 + n));
            }
            0x80..=0x8f => {
                f.charge(3)?;
                let x = f.peek((op - 0x80) as usize).ok_or(())?;
                f.push(x)?;
            }
            0x90..=0x9f => {
                f.charge(3)?;
                let n = f.stack.len();
                let i = (op - 0x90) as usize + 1;
                if n < i + 1 {
                    return Err(());
                }
                f.stack.swap(n - 1, n - 1 - i);
            }
            0xa0..=0xa4 => {
                let n = (op - 0xa0) as u64;
                let mut g = g0;
                if self.mr {
                    let l = u(f.peek(1).ok_or(())?)?;
                    let c = l.checked_mul(80).and_then(|c| c.checked_add(3750 * n)).ok_or(())?;
                    f.charge(c)?;
                    g = f.gas;
                }
                if is_static {
                    return Err(());
                }
                let (o, l) = (f.pop()?, u(f.pop()?)?);
                f.charge(l.checked_mul(8).and_then(|c| c.checked_add(375 + 375 * n)).ok_or(())?)?;
                let data = if l == 0 {
                    Bytes::new()
                } else {
                    let o = u(o)?;
                    f.expand(o, l)?;
                    f.slice(o, l)
                };
                if (f.stack.len() as u64) < n {
                    return Err(());
                }
                let topics: Vec<B256> = (0..n).map(|_| f.pop().unwrap().into()).collect();
                self.logs.push(Log { address: me, data: LogData::new(topics, data).unwrap() });
                self.reach.hit("log");
                self.post(g - f.gas)?;
                if self.mr {
                    self.rec(32 * n as i64 + l as i64, 0, 0);
                    if self.check() {
                        return Err(());
                    }
                }
                return Ok(Flow::Next);
            }
            0xf0 | 0xf5 => return self.op_create(f, op == 0xf5, me, is_static, depth),
            0xf1 | 0xf2 | 0xf4 | 0xfa => {
                let s = match op {
                    0xf1 => Scheme::Call,
                    0xf2 => Scheme::CallCode,
                    0xf4 => Scheme::Delegate,
                    _ => Scheme::Static,
                };
                return self.op_call(f, s, me, caller, value, is_static, depth);
            }
            0xf3 | 0xfd => {
                let (o, l) = (f.pop()?, u(f.pop()?)?);
                let mut out = Bytes::new();
                if l > 0 {
                    let o = u(o)?;
                    f.expand(o, l)?;
                    out = f.slice(o, l);
                }
                self.post(g0 - f.gas)?;
                return Ok(Flow::Done(if op == 0xf3 { R::Ok } else { R::Revert }, out));
            }
            0xff => {
                if self.mr && !self.rex2 {
                    self.reach.hit("selfdestruct_disabled");
                    return Err(());
                }
                if is_static {
                    return Err(());
                }
                let t = addr_of(f.pop()?);
                let cold = self.load(t);
                let t_empty = self.a(t).empty();
                let bal = self.a(me).balance;
                let created = self.a(me).created;
                let mut c = 5000;
                if !bal.is_zero() && t_empty && t != me {
                    c += 25000;
                }
                // a self-target is never empty unless it has no code, nonce and balance
                if t == me && !bal.is_zero() && t_empty {
                    c += 25000;
                }
                if cold {
                    c += 2600;
                }
                f.charge(c)?;
                if t != me {
                    let nb = self.a(t).balance + bal;
                    self.a(t).balance = nb;
                    self.a(t).touched = true;
                    self.a(me).balance = U256::ZERO;
                }
                if created {
                    let m = self.a(me);
                    m.destroyed = true;
                    m.balance = U256::ZERO;
                    self.reach.hit("selfdestruct_created");
                } else {
                    self.reach.hit("selfdestruct_existing");
                }
                self.post(c)?;
                return Ok(Flow::Done(R::Ok, Bytes::new()));
            }
            _ => return Err(()),
        }
        self.post(g0 - f.gas)?;
        if volatile {
            self.detain();
        }
        Ok(Flow::Next)
    }
    fn sstore(&mut self, f: &mut Fr, me: Address, is_static: bool) -> E<Flow> {
        let mut pre = None;
        if self.mr {
            let k = f.peek(0).ok_or(())?;
            let (o, p, _) = self.slot(me, k, false);
            let n = f.peek(1).ok_or(())?;
            if o.is_zero() && p.is_zero() && !n.is_zero() {
                let c = self.slot_gas(me, k);
                f.charge(c)?;
            }
            pre = Some((o, p, n));
        }
        let g = f.gas;
        if is_static {
            return Err(());
        }
        let (k, n) = (f.pop()?, f.pop()?);
        let (o, p, cold) = self.slot(me, k, true);
        if f.gas <= 2300 {
            self.reach.hit("sstore_sentry");
            return Err(());
        }
        let mut c = if n == p {
            100
        } else if o == p && o.is_zero() {
            20000
        } else if o == p {
            2900
        } else {
            100
        };
        if cold {
            c += 2100;
        }
        f.charge(c)?;
        if n != p {
            if o == p && n.is_zero() {
                f.refund += 4800;
            } else {
                if !o.is_zero() {
                    if p.is_zero() {
                        f.refund -= 4800;
                    } else if n.is_zero() {
                        f.refund += 4800;
                    }
                }
                if o == n {
                    f.refund += if o.is_zero() { 19900 } else { 2800 };
                }
            }
        }
        self.a(me).storage.get_mut(&k).unwrap().present = n;
        self.post(g - f.gas)?;
        if let Some((o, p, n)) = pre {
            match (o.is_zero(), p.is_zero(), n.is_zero()) {
                (true, true, false) => self.rec(0, 0, 1),
                (true, false, true) => {
                    self.rec(0, 0, -1);
                    self.reach.hit("growth_undo");
                }
                _ => {}
            }
            if o == p && o != n {
                self.rec(40, 1, 0);
                self.reach.hit("sstore_write");
            } else if o != p && o == n {
                self.rec(-40, -1, 0);
                self.reach.hit("sstore_reset");
            }
            if self.check() {
                return Err(());
            }
        }
        Ok(Flow::Next)
    }
    fn cap98(&mut self, f: &mut Fr, forwarded: u64) -> u64 {
        let p = f.gas as u128 + forwarded as u128;
        let cap = (p - p * 2 / 100) as u64;
        let capped = forwarded.min(cap);
        if capped < forwarded {
            self.reach.hit("cap98_bites");
        }
        f.gas += forwarded - capped;
        capped
    }
    fn op_create(&mut self, f: &mut Fr, two: bool, me: Address, is_static: bool, depth: u64) -> E<Flow> {
        if self.mr {
            let nonce = self.a(me).nonce;
            let addr = if two {
                let (o, l) = (f.peek(1).ok_or(())?, f.peek(2).ok_or(())?);
                let l = u(l)?;
                let mut v = vec![];
                if l > 0 {
                    let o = u(o)?;
                    if (f.mem.len() as u64).saturating_sub(o) < l {
                        self.reach.hit("create2_unexpanded_memory");
                        if l > self.max_initcode as u64 {
                            self.reach.hit("initcode_too_large");
                            return Err(());
                        }
                        if f.gas < 32_000 + 6 * words(l) {
                            return Err(());
                        }
                    }
                    v.resize(l as usize, 0);
                    for (i, x) in v.iter_mut().enumerate() {
                        *x = usize::try_from(o).ok().and_then(|o| o.checked_add(i)).and_then(|i| f.mem.get(i).copied()).unwrap_or(0);
                    }
                }
                let s = f.peek(3).ok_or(())?;
                me.create2(s.to_be_bytes::<32>(), keccak256(&v))
            } else {
                me.create(nonce)
            };
            let c = if self.rex { self.create_gas(addr) } else { self.acct_gas(addr) };
            f.charge(c)?;
        }
        let g = f.gas;
        if is_static {
            return Err(());
        }
        let (v, o, l) = (f.pop()?, f.pop()?, u(f.pop()?)?);
        let mut init = Bytes::new();
        if l > 0 {
            if l > self.max_initcode as u64 {
                self.reach.hit("initcode_too_large");
                return Err(());
            }
            f.charge(2 * words(l))?;
            let o = u(o)?;
            f.expand(o, l)?;
            init = f.slice(o, l);
        }
        let salt = if two {
            let s = f.pop()?;
            f.charge(32000 + 6 * words(l))?;
            Some(s)
        } else {
            f.charge(32000)?;
            None
        };
        let mut child = f.gas - f.gas / 64;
        f.gas -= child;
        self.post((g - f.gas).saturating_sub(child))?;
        if self.mr {
            child = self.cap98(f, child);
        }
        let out = self.do_create(me, salt, v, init, child, depth + 1);
        f.ret = if out.res == R::Revert { out.data } else { Bytes::new() };
        let mut r = U256::ZERO;
        match out.res {
            R::Ok => {
                f.gas += out.gas;
                f.refund += out.refund;
                r = out.addr.map(word_of).unwrap_or_default();
            }
            R::Revert | R::SoftHalt => f.gas += out.gas,
            R::Err => {}
        }
        f.push(r)?;
        if self.check() {
            return Err(());
        }
        Ok(Flow::Next)
    }
    #[allow(clippy::too_many_arguments)]
    fn op_call(&mut self, f: &mut Fr, s: Scheme, me: Address, caller: Address, value: U256, is_static: bool, depth: u64) -> E<Flow> {
        let has_value = matches!(s, Scheme::Call | Scheme::CallCode);
        let ext = self.mr && (self.rex || s == Scheme::Call);
        if ext {
            let to = addr_of(f.peek(1).ok_or(())?);
            let e = self.inspect_delegated_empty(to);
            if has_value {
                let v = f.peek(2).ok_or(())?;
                if e && !v.is_zero() {
                    let c = self.acct_gas(to);
                    f.charge(c)?;
                }
            }
        }
        let g = f.gas;
        let want = f.pop()?;
        let want = u64::try_from(want).unwrap_or(u64::MAX);
        let to = addr_of(f.pop()?);
        let v = if has_value { f.pop()? } else { U256::ZERO };
        if s == Scheme::Call && is_static && !v.is_zero() {
            return Err(());
        }
        let (io, il, oo, ol) = (f.pop()?, f.pop()?, f.pop()?, f.pop()?);
        let il = u(il)?;
        let io = if il > 0 {
            let io = u(io)?;
            f.expand(io, il)?;
            io
        } else {
            0
        };
        let ol = u(ol)?;
        let oo = if ol > 0 {
            let oo = u(oo)?;
            f.expand(oo, ol)?;
            oo
        } else {
            0
        };
        self.mark_acct(to);
        let cold = self.load(to);
        let mut c = if cold { 2600 } else { 100 };
        if let Some(d) = is_7702(&self.a(to).code.clone()) {
            c += if self.load(d) { 2600 } else { 100 };
        }
        if !v.is_zero() {
            c += 9000;
            if s == Scheme::Call && self.a(to).empty() {
                c += 25000;
            }
        }
        f.charge(c)?;
        let fwd = want.min(f.gas - f.gas / 64);
        f.gas -= fwd;
        let stipend = if v.is_zero() { 0 } else { 2300 };
        self.post((g - f.gas).saturating_sub(fwd + stipend))?;
        let mut child = fwd;
        if ext {
            child = self.cap98(f, fwd);
        }
        let input = f.slice(io, il);
        let ci = match s {
            Scheme::Call => CallIn { input, gas: child + stipend, target: to, caller: me, code_addr: to, value: v, transfers: true, is_static, scheme: s },
            Scheme::CallCode => CallIn { input, gas: child + stipend, target: me, caller: me, code_addr: to, value: v, transfers: true, is_static, scheme: s },
            Scheme::Delegate => CallIn { input, gas: child, target: me, caller, code_addr: to, value, transfers: false, is_static, scheme: s },
            Scheme::Static => CallIn { input, gas: child, target: to, caller: me, code_addr: to, value: U256::ZERO, transfers: true, is_static: true, scheme: s },
        };
        let out = self.do_call(ci, depth + 1);
        f.ret = out.data.clone();
        let mut r = U256::ZERO;
        match out.res {
            R::Ok => {
                f.gas += out.gas;
                f.refund += out.refund;
                r = U256::from(1);
            }
            R::Revert | R::SoftHalt => f.gas += out.gas,
            R::Err => {}
        }
        if out.res != R::Err {
            let n = ol.min(out.data.len() as u64);
            if n > 0 {
                f.put(oo, U256::ZERO, n, &out.data);
            }
        }
        f.push(r)?;
        if self.check() {
            return Err(());
        }
        Ok(Flow::Next)
    }

    // ---------------------------------------------------------------- transactions
    pub fn tx(&mut self, tx: &TxSpec) -> Outcome {
        self.reset_tx();
        let o = self.tx_inner(tx);
        self.sticky_compute_limit = self.compute_limit;
        o
    }
    /// A pre-block system call: 30M gas, no validation, no fees, no nonce.
    pub fn system_call(&mut self, to: Address, input: Bytes) -> Outcome {
        self.reset_tx();
        let caller = mega_evm::alloy_primitives::address!("fffffffffffffffffffffffffffffffffffffffe");
        self.origin = caller;
        if caller == self.block.beneficiary || to == self.block.beneficiary {
            self.mark(V_BENEFICIARY);
        }
        if self.mr {
            self.data = 110 + input.len() as i64 + 40;
            self.kv = 1;
            self.check();
        }
        let o = self.do_call(CallIn { input, gas: 30_000_000, target: to, caller, code_addr: to, value: U256::ZERO, transfers: true, is_static: false, scheme: Scheme::Call }, 0);
        self.sticky_compute_limit = self.compute_limit;
        let st = match o.res {
            R::Ok => Status::Success,
            R::Revert => Status::Revert,
            _ => Status::Halt,
        };
        self.outcome(st, 0, 0, Bytes::new(), None)
    }
    fn reset_tx(&mut self) {
        self.acc.clear();
        self.transient.clear();
        self.logs.clear();
        self.preload.clear();
        self.frames.clear();
        self.trace.clear();
        self.data = 0;
        self.kv = 0;
        self.growth = 0;
        self.compute = 0;
        self.exceeded = None;
        self.rescued = 0;
        self.vflags = 0;
        self.vcap = None;
        self.output_unknown = false;
        self.compute_limit = if self.rex1 { self.limits.compute } else { self.sticky_compute_limit };
    }
    fn fail(&mut self, tx: &TxSpec, deposit: bool, msg: &str) -> Outcome {
        self.acc.clear();
        self.logs.clear();
        let mut st = Status::Err(msg.to_string());
        let mut gas = 0;
        if deposit {
            self.load(tx.caller);
            let m = if tx.ty == TxType::Deposit { tx.mint } else { 0 };
            let c = self.a(tx.caller);
            c.nonce = c.nonce.saturating_add(1);
            c.balance = c.balance.saturating_add(U256::from(m));
            st = Status::FailedDeposit;
            gas = tx.gas_limit;
            self.reach.hit("failed_deposit");
        }
        self.outcome(st, gas, 0, Bytes::new(), None)
    }
    fn outcome(&mut self, status: Status, gas_used: u64, refunded: u64, output: Bytes, created: Option<Address>) -> Outcome {
        let cl = |x: i64| if x < 0 { 0 } else { x as u64 };
        let ok = status == Status::Success;
        Outcome {
            gas_used,
            refunded,
            output: if self.output_unknown { None } else { Some(output) },
            created,
            logs: if ok { std::mem::take(&mut self.logs) } else { vec![] },
            data: cl(self.data),
            kv: cl(self.kv),
            compute: self.compute,
            growth: cl(self.growth),
            flags: self.vflags,
            world: self.materialize(),
            status,
        }
    }
    fn tx_inner(&mut self, tx: &TxSpec) -> Outcome {
        let mut deposit = tx.ty == TxType::Deposit;
        let mut price = tx.gas_price;
        if self.mr && tx.caller == SYSTEM {
            if tx.ty != TxType::Legacy || tx.to != Some(ORACLE) {
                self.reach.hit("system_tx_rejected");
                return self.fail(tx, false, "whitelist");
            }
            deposit = true;
            price = 0;
            self.reach.hit("system_tx");
        }
        self.origin = tx.caller;
        // volatile marks at transaction level
        if tx.caller == self.block.beneficiary || tx.to == Some(self.block.beneficiary) {
            self.mark(V_BENEFICIARY);
            self.reach.hit("volatile_tx_level");
        }
        if self.mr {
            let mut d = 110 + tx.input.len() as i64;
            if tx.ty != TxType::Legacy && tx.ty != TxType::Deposit {
                for (_, ks) in &tx.access_list {
                    d += 20 + 32 * ks.len() as i64;
                }
            }
            let na = if tx.ty == TxType::SetCode { tx.auths.len() } else { 0 };
            d += 101 * na as i64;
            let recovered = if tx.ty == TxType::SetCode { tx.auths.iter().filter(|a| a.authority.is_some()).count() as i64 } else { 0 };
            self.data = d + 40 * recovered + 40;
            self.kv = recovered + 1;
            self.check();
        }
        // --- validation of the environment
        let basefee = self.block.basefee as u128;
        let dynamic = matches!(tx.ty, TxType::Dynamic | TxType::SetCode);
        if tx.ty == TxType::Deposit && tx.prio == crate::env::SYSTEM_DEPOSIT {
            self.reach.hit("system_deposit_rejected");
            return self.fail(tx, deposit, "system deposit");
        }
        if !deposit {
            if tx.gas_limit > self.block.gas_limit {
                return self.fail(tx, deposit, "gas limit > block");
            }
            if dynamic && tx.prio > price {
                return self.fail(tx, deposit, "prio");
            }
            if price < basefee {
                return self.fail(tx, deposit, "basefee");
            }
            if tx.to.is_none() && tx.input.len() > self.max_initcode {
                self.reach.hit("tx_initcode_too_large");
                return self.fail(tx, deposit, "initcode");
            }
            if tx.ty == TxType::SetCode && tx.auths.is_empty() {
                return self.fail(tx, deposit, "no auths");
            }
        }
        // --- intrinsic gas
        let tk = tokens(&tx.input);
        let (al, keys) = if matches!(tx.ty, TxType::Legacy | TxType::Deposit) {
            (0, 0)
        } else {
            (tx.access_list.len() as u64, tx.access_list.iter().map(|x| x.1.len() as u64).sum::<u64>())
        };
        let na = if tx.ty == TxType::SetCode { tx.auths.len() as u64 } else { 0 };
        let mut init = 4 * tk + 2400 * al + 1900 * keys + 25000 * na;
        init += if tx.to.is_none() { 53000 + 2 * words(tx.input.len() as u64) } else { 21000 };
        let mut floor = 21000 + 10 * tk;
        if init > tx.gas_limit || floor > tx.gas_limit {
            return self.fail(tx, deposit, "intrinsic gas");
        }
        if self.mr {
            self.rec_compute(init);
            init += 40 * tk;
            floor += 100 * tk;
            if self.rex {
                init += 39_000;
            }
            if init > tx.gas_limit {
                self.reach.hit("intrinsic_storage_too_low");
                return self.fail(tx, deposit, "mega intrinsic gas");
            }
            match tx.to {
                None => {
                    let a = tx.caller.create(tx.nonce);
                    init += if self.rex { self.create_gas(a) } else { self.acct_gas(a) };
                }
                Some(a) => {
                    if !tx.value.is_zero() && self.base.get(&a).is_none_or(|x| x.is_empty()) {
                        init += self.acct_gas(a);
                    }
                }
            }
        }
        // --- sender
        let mut l1_cost = U256::ZERO;
        let mut op_fee = (U256::ZERO, U256::ZERO); // scalar, constant
        if !deposit {
            let mut db = MonDb::new(self.base.clone());
            let mut info = L1BlockInfo::try_fetch(&mut db, U256::from(self.block.number), mega_evm::op_revm::OpSpecId::ISTHMUS).unwrap();
            l1_cost = match self.cached_l1 {
                Some(c) => c,
                None => info.calculate_tx_l1_cost(&tx.enveloped, mega_evm::op_revm::OpSpecId::ISTHMUS),
            };
            // a deposit envelope has no L1 cost or operator fee
            if tx.enveloped.is_empty() || tx.enveloped[0] != 0x7e {
                op_fee = (info.operator_fee_scalar.unwrap_or_default(), info.operator_fee_constant.unwrap_or_default());
            }
        }
        let op_charge = |gas: u64| U256::from(gas) * op_fee.0 / U256::from(1_000_000) + op_fee.1;
        let eff = if dynamic { price.min(basefee + tx.prio) } else { price };
        self.eff_price = eff;
        self.load(tx.caller);
        {
            let c = self.acc[&tx.caller].clone();
            if !deposit {
                if !c.code.is_empty() && is_7702(&c.code).is_none() {
                    return self.fail(tx, deposit, "eip3607");
                }
                if c.nonce == u64::MAX || c.nonce != tx.nonce {
                    return self.fail(tx, deposit, "nonce");
                }
            }
            let mint = if tx.ty == TxType::Deposit { tx.mint } else { 0 };
            let mut bal = c.balance.saturating_add(U256::from(mint));
            let gl = U256::from(tx.gas_limit);
            let extra = if deposit { U256::ZERO } else { l1_cost + op_charge(tx.gas_limit) };
            if !deposit {
                let max = (gl * U256::from(price)).checked_add(tx.value);
                match max {
                    None => return self.fail(tx, deposit, "overflow"),
                    Some(m) => {
                        if m.saturating_add(extra) > bal {
                            return self.fail(tx, deposit, "funds");
                        }
                    }
                }
            } else if (gl * U256::from(price)).checked_add(tx.value).is_none() {
                return self.fail(tx, deposit, "overflow");
            }
            bal = bal.saturating_sub(gl * U256::from(eff) + extra);
            let m = self.a(tx.caller);
            m.balance = bal;
            m.touched = true;
            if tx.to.is_some() {
                m.nonce = m.nonce.saturating_add(1);
            }
        }
        // --- warm sets
        self.preload.extend(self.precompiles.iter().copied());
        self.preload.insert(self.block.beneficiary);
        if !matches!(tx.ty, TxType::Legacy | TxType::Deposit) {
            for (a, ks) in &tx.access_list {
                if ks.is_empty() {
                    self.preload.insert(*a);
                } else {
                    self.load(*a);
                    for k in ks {
                        self.slot(*a, U256::from_be_bytes(k.0), true);
                    }
                }
            }
        }
        // --- EIP-7702
        let mut auth_refund = 0u64;
        if tx.ty == TxType::SetCode {
            for au in &tx.auths {
                if au.chain_id != 0 && au.chain_id != self.chain_id {
                    continue;
                }
                if au.nonce == u64::MAX {
                    continue;
                }
                let Some(who) = au.authority else { continue };
                self.load(who);
                let j = self.a(who);
                if !j.code.is_empty() && is_7702(&j.code).is_none() {
                    continue;
                }
                if j.nonce != au.nonce {
                    continue;
                }
                if !(j.empty() && !j.in_db && !j.touched) {
                    auth_refund += 1;
                }
                j.code = if au.delegate.is_zero() {
                    Bytes::new()
                } else {
                    let mut v = vec![0xef, 0x01, 0x00];
                    v.extend_from_slice(au.delegate.as_slice());
                    v.into()
                };
                j.nonce += 1;
                j.touched = true;
                self.reach.hit("auth_applied");
            }
        }
        // --- execution
        let mut spent;
        let mut refund = 0i64;
        let res;
        let mut soft = false;
        let mut data = Bytes::new();
        let mut created = None;
        if tx.gas_limit < init {
            self.reach.hit("tx_storage_gas_oog");
            if tx.to.is_none() {
                self.reach.hit("create_tx_storage_gas_oog");
                self.load(tx.caller);
                let n = &mut self.a(tx.caller).nonce;
                *n = n.saturating_add(1);
            }
            spent = tx.gas_limit;
            res = R::Err;
        } else {
            let g = tx.gas_limit - init;
            self.cached_l1 = if deposit { None } else { Some(l1_cost) };
            let o = match tx.to {
                Some(to) => self.do_call(CallIn { input: tx.input.clone(), gas: g, target: to, caller: tx.caller, code_addr: to, value: tx.value, transfers: true, is_static: false, scheme: Scheme::Call }, 0),
                None => self.do_create(tx.caller, None, tx.value, tx.input.clone(), g, 0),
            };
            self.cached_l1 = None;
            spent = tx.gas_limit;
            match o.res {
                R::Ok => {
                    spent -= o.gas;
                    refund = o.refund;
                    created = o.addr;
                    data = o.data;
                }
                R::Revert => {
                    spent -= o.gas;
                    data = o.data;
                }
                R::SoftHalt => {
                    spent -= o.gas;
                    soft = true;
                }
                R::Err => {}
            }
            spent -= self.rescued;
            res = o.res;
        }
        // --- settlement
        let mut ref_final = ((refund + 12500 * auth_refund as i64).max(0) as u64).min(spent / 5);
        if ref_final > 0 {
            self.reach.hit("refund_applied");
        }
        if spent - ref_final < floor {
            self.reach.hit("floor_applied");
            spent = floor.min(tx.gas_limit);
            ref_final = 0;
        }
        let used = spent - ref_final;
        {
            let back = U256::from(eff) * U256::from(tx.gas_limit - used);
            let opback = if deposit { U256::ZERO } else { op_charge(tx.gas_limit) - op_charge(used) };
            let c = self.a(tx.caller);
            c.balance = c.balance.saturating_add(back).saturating_add(opback);
        }
        if !deposit && !self.no_fees {
            let tip = eff.saturating_sub(basefee);
            let cb = self.block.beneficiary;
            for (a, v) in [
                (cb, U256::from(tip) * U256::from(used)),
                (L1_VAULT, l1_cost),
                (BASE_VAULT, U256::from(basefee) * U256::from(used)),
                (OPERATOR_VAULT, op_charge(used)),
            ] {
                self.load(a);
                let j = self.a(a);
                j.balance = j.balance.saturating_add(v);
            }
        }
        let is_halt = matches!(res, R::Err) || soft;
        if deposit && is_halt {
            let lim = self.exceeded;
            let o = self.fail(tx, true, "halted deposit");
            if lim.is_some() {
                self.reach.hit("failed_deposit_limit");
            }
            return o;
        }
        let status = match res {
            R::Ok => Status::Success,
            R::Revert => Status::Revert,
            R::SoftHalt => Status::Halt,
            R::Err => match self.exceeded {
                None => Status::Halt,
                Some((kind, limit, actual)) => match self.vcap {
                    Some(c) if self.compute > c => {
                        self.reach.hit("volatile_halt");
                        Status::Volatile { flags: self.vflags, limit: c, actual: self.compute }
                    }
                    _ => {
                        self.reach.hit("limit_halt");
                        Status::Limit { kind, limit, actual }
                    }
                },
            },
        };
        let out = if matches!(res, R::Ok | R::Revert) { data } else { Bytes::new() };
        self.outcome(status, used, ref_final, out, created)
    }

    // ---------------------------------------------------------------- keyless deploy
    fn keyless(&mut self, c: CallIn, raw: Bytes, over: U256) -> Out {
        use mega_evm::alloy_consensus::{transaction::RlpEcdsaDecodableTx, SignableTransaction, TxLegacy};
        let _ = TxLegacy::default().encoded_for_signing();
        self.reach.hit("keyless_call");
        let mk = |res, gas, data: Vec<u8>| Out { res, gas, refund: 0, data: data.into(), addr: None };
        if c.gas < 100_000 {
            self.reach.hit("keyless_oog");
            return mk(R::Err, 0, vec![]);
        }
        let gas = c.gas - 100_000;
        if self.rex3 && self.rec_compute(100_000) {
            return mk(R::Err, 0, vec![]);
        }
        let sel = |s: &str| keccak256(s.as_bytes())[..4].to_vec();
        let w = |x: U256| x.to_be_bytes::<32>().to_vec();
        let o = (|| -> Result<Out, Vec<u8>> {
            if !c.value.is_zero() {
                return Err(sel("NoEtherTransfer()"));
            }
            let mut buf: &[u8] = &raw;
            let signed = TxLegacy::rlp_decode_signed(&mut buf).map_err(|_| sel("MalformedEncoding()"))?;
            let t = signed.tx();
            if !t.to.is_create() {
                return Err(sel("NotContractCreation()"));
            }
            if t.chain_id.is_some() {
                return Err(sel("NotPreEIP155()"));
            }
            if t.nonce != 0 {
                return Err([sel("NonZeroTxNonce(uint64)"), w(U256::from(t.nonce))].concat());
            }
            let over = u64::try_from(over).unwrap_or(u64::MAX);
            if over < t.gas_limit {
                return Err([sel("GasLimitTooLow(uint64,uint64)"), w(U256::from(t.gas_limit)), w(U256::from(over))].concat());
            }
            let signer = signed.recover_signer().map_err(|_| sel("InvalidSignature()"))?;
            let daddr = signer.create(0);
            let nonce = match self.acc.get(&signer) {
                Some(j) => j.nonce,
                None => self.base.get(&signer).map(|a| a.nonce).unwrap_or(0),
            };
            if nonce > 1 {
                return Err([sel("SignerNonceTooHigh(uint64)"), w(U256::from(nonce))].concat());
            }
            if self.base.get(&daddr).is_some_and(|a| !a.code.is_empty()) {
                return Err(sel("ContractAlreadyExists()"));
            }
            let mut world = self.materialize();
            if let Some(s) = world.get_mut(&signer) {
                s.nonce = 0;
            }
            let bal = world.get(&signer).map(|a| a.balance).unwrap_or_default();
            let need = (U256::from(over) * U256::from(t.gas_price)).checked_add(t.value);
            if need.is_none_or(|n| bal < n) {
                self.reach.hit("keyless_poor");
                return Err(sel("InsufficientBalance()"));
            }
            normalize(&mut world);
            let (mc, mi) = max_sizes(self.spec, None, None);
            let mut m = Model::raw(self.spec, Arc::new(world), self.block.clone(), lim_default(self.spec), None, Arc::new(BTreeMap::new()), 1, mc, mi, true);
            m.trace_on = false;
            m.cached_l1 = self.cached_l1;
            let stx = TxSpec { ty: TxType::Legacy, caller: signer, to: None, value: t.value, input: t.input.clone(), gas_limit: over, gas_price: t.gas_price, prio: 0, nonce: 0, access_list: vec![], auths: vec![], mint: 0, enveloped: raw.clone(), auto_nonce: false };
            let so = m.tx(&stx);
            self.hashes_read.extend(m.hashes_read.iter().copied());
            self.reach.merge(&m.reach);
            let abi = |gas_used: u64, a: Address, e: Vec<u8>| {
                let mut v = [w(U256::from(gas_used)), w(word_of(a)), w(U256::from(96)), w(U256::from(e.len()))].concat();
                v.extend_from_slice(&e);
                while v.len() % 32 != 0 {
                    v.push(0);
                }
                v
            };
            let (addr, err) = match &so.status {
                Status::Err(_) => {
                    self.reach.hit("keyless_internal_error");
                    self.output_unknown = true;
                    return Err(vec![]);
                }
                Status::Success => match so.created {
                    Some(a) => {
                        if so.output.as_ref().is_some_and(|o| o.is_empty()) {
                            (None, [sel("EmptyCodeDeployed(uint64)"), w(U256::from(so.gas_used))].concat())
                        } else {
                            (Some(a), vec![])
                        }
                    }
                    None => return Err(sel("NoContractCreated()")),
                },
                Status::Revert => {
                    let out = so.output.clone().unwrap_or_default();
                    let mut v = [sel("ExecutionReverted(uint64,bytes)"), w(U256::from(so.gas_used)), w(U256::from(64)), w(U256::from(out.len()))].concat();
                    v.extend_from_slice(&out);
                    while (v.len() - 4) % 32 != 0 {
                        v.push(0);
                    }
                    (None, v)
                }
                _ => (None, [sel("ExecutionHalted(uint64)"), w(U256::from(so.gas_used))].concat()),
            };
            // adopt the sandbox state
            let mut all: BTreeSet<Address> = so.world.keys().copied().collect();
            all.extend(m.acc.keys().copied());
            for a in all {
                let new = so.world.get(&a).cloned().unwrap_or_default();
                self.load(a);
                let old_slots: Vec<U256> = self.base.get(&a).map(|x| x.storage.keys().copied().collect()).unwrap_or_default();
                for k in old_slots.into_iter().chain(new.storage.keys().copied()) {
                    self.slot(a, k, true);
                    let v = new.storage.get(&k).copied().unwrap_or_default();
                    self.a(a).storage.get_mut(&k).unwrap().present = v;
                }
                let j = self.a(a);
                j.balance = new.balance;
                j.nonce = new.nonce;
                j.code = new.code;
                j.touched = true;
            }
            if let Some(a) = addr {
                self.logs.extend(so.logs);
                self.reach.hit("keyless_deployed");
                Ok(mk(R::Ok, gas, abi(so.gas_used, a, vec![])))
            } else {
                self.reach.hit("keyless_exec_failed");
                Ok(mk(R::Ok, gas, abi(so.gas_used, Address::ZERO, err)))
            }
        })();
        let mut o = match o {
            Ok(o) => o,
            Err(e) => {
                self.reach.hit("keyless_rejected");
                mk(R::Revert, gas, e)
            }
        };
        if self.check() {
            o.res = R::Err;
        }
        o
    }
}

fn word(b: &[u8], i: usize) -> Option<U256> {
    b.get(i..i.checked_add(32)?).map(U256::from_be_slice)
}
fn dyn_bytes(b: &[u8], head: usize) -> Option<Bytes> {
    let off = usize::try_from(word(b, head)?).ok()?;
    let len = usize::try_from(word(b, off)?).ok()?;
    let s = off.checked_add(32)?;
    Some(Bytes::copy_from_slice(b.get(s..s.checked_add(len)?)?))
}
/// sendHint(bytes32,bytes)
pub fn decode_hint(input: &[u8]) -> Option<(B256, Bytes)> {
    if input.len() < 4 || input[..4] != keccak256(b"sendHint(bytes32,bytes)")[..4] {
        return None;
    }
    let b = &input[4..];
    let t = word(b, 0)?;
    Some((t.into(), dyn_bytes(b, 32)?))
}
/// keylessDeploy(bytes,uint256)
pub fn decode_keyless(input: &[u8]) -> Option<(Bytes, U256)> {
    if input.len() < 4 || input[..4] != keccak256(b"keylessDeploy(bytes,uint256)")[..4] {
        return None;
    }
    let b = &input[4..];
    Some((dyn_bytes(b, 0)?, word(b, 32)?))
}
