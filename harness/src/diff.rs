//! Online comparison of the real EVM (plain and with a recording inspector) against the reference model.
use crate::env::*;
use crate::model::{Model, Outcome, Reach, Status, Step};
use crate::real::{make, recorder, RealOut};
use std::collections::BTreeSet;
use mega_evm::alloy_evm::Evm as _;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum F {
    Status,
    Gas,
    Refund,
    Output,
    Created,
    Logs,
    Data,
    Kv,
    Compute,
    Growth,
    Flags,
    World,
    Buckets,
    Hints,
    Trace,
    /// with and without an inspector the result differs
    Inspector,
    /// value is created or destroyed
    Ether,
    Panic,
}
#[derive(Clone, Debug)]
pub struct Diff {
    pub field: F,
    pub tx: usize,
    pub text: String,
    /// the transaction ended (in reality or in the model) because of a resource limit
    pub limit_halt: bool,
}
impl Diff {
    fn new(field: F, tx: usize, text: String) -> Self {
        Diff { field, tx, text, limit_halt: false }
    }
}
#[derive(Clone, Debug, Default)]
pub struct Stat {
    pub txs: u64,
    pub steps: u64,
    pub statuses: std::collections::BTreeMap<String, u64>,
    pub reach: Reach,
    pub skipped: u64,
    /// fingerprints of distinct observed outcomes
    pub seen: BTreeSet<u64>,
    pub samples: Vec<String>,
}
impl Stat {
    pub fn note(&mut self, fingerprint: &str) {
        if self.seen.len() < 1_000_000 {
            self.seen.insert(fnv(fingerprint.as_bytes()));
        }
    }
    pub fn hit(&mut self, k: &'static str) {
        self.reach.hit(k);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    pub fn merge(&mut self, o: &Stat) {
        self.txs += o.txs;
        self.steps += o.steps;
        self.skipped += o.skipped;
        for (k, v) in &o.statuses {
            *self.statuses.entry(k.clone()).or_default() += v;
        }
        self.reach.merge(&o.reach);
        self.seen.extend(o.seen.iter().copied());
        self.samples.extend(o.samples.iter().cloned());
    }
}
pub fn status_class(s: &Status) -> String {
    match s {
        Status::Limit { kind, .. } => format!("Limit::{kind:?}"),
        Status::Volatile { .. } => "Volatile".into(),
        Status::Err(e) => format!("Rejected {e}"),
        s => format!("{s:?}"),
    }
}
pub fn world_diff(a: &World, b: &World) -> Option<String> {
    let keys: BTreeSet<_> = a.keys().chain(b.keys()).copied().collect();
    for k in keys {
        let (x, y) = (a.get(&k), b.get(&k));
        if x != y {
            return Some(format!("account {k}: real {:?} model {:?}", x.map(short), y.map(short)));
        }
    }
    None
}
fn short(a: &Acct) -> String {
    format!("bal={} nonce={} codelen={} storage={:?}", a.balance, a.nonce, a.code.len(), a.storage)
}
pub fn total(w: &World) -> mega_evm::alloy_primitives::U512 {
    w.values().fold(Default::default(), |s, a| s + mega_evm::alloy_primitives::U512::from(a.balance))
}

fn cmp<T: PartialEq + std::fmt::Debug>(out: &mut Vec<Diff>, field: F, tx: usize, real: T, model: T) {
    if real != model {
        out.push(Diff::new(field, tx, format!("real {real:?} model {model:?}")));
    }
}
pub fn compare(i: usize, r: &RealOut, m: &Outcome, model: &Model, hints0: usize, out: &mut Vec<Diff>) {
    let o = &r.o;
    if o.status.coarse() != m.status.coarse() {
        out.push(Diff::new(F::Status, i, format!("real {:?} {} model {:?}", o.status, r.halt, m.status)));
    }
    let err = matches!(o.status, Status::Err(_)) || matches!(m.status, Status::Err(_));
    if !err {
        cmp(out, F::Gas, i, o.gas_used, m.gas_used);
        if o.status == Status::Success {
            cmp(out, F::Refund, i, o.refunded, m.refunded);
        }
        if let Some(x) = &m.output {
            cmp(out, F::Output, i, o.output.clone().unwrap_or_default(), x.clone());
        }
        cmp(out, F::Created, i, o.created, m.created);
        cmp(out, F::Logs, i, &o.logs, &m.logs);
        cmp(out, F::Data, i, o.data, m.data);
        cmp(out, F::Kv, i, o.kv, m.kv);
        cmp(out, F::Compute, i, o.compute, m.compute);
        cmp(out, F::Growth, i, o.growth, m.growth);
        cmp(out, F::Flags, i, o.flags, m.flags);
        if let Some(d) = world_diff(&o.world, &m.world) {
            out.push(Diff::new(F::World, i, d));
        }
        cmp(out, F::Hints, i, &r.hints[..], &model.hints[hints0..]);
        cmp(out, F::Buckets, i, &r.buckets, &model.buckets);
    }
}
pub fn trace_diff(real: &[Step], model: &[Step]) -> Option<String> {
    let n = real.len().min(model.len());
    for k in 0..n {
        if real[k] != model[k] {
            let lo = k.saturating_sub(3);
            return Some(format!("step {k}: real {:x?} model {:x?}", &real[lo..(k + 2).min(real.len())], &model[lo..(k + 2).min(model.len())]));
        }
    }
    if real.len() != model.len() {
        return Some(format!("length real {} model {} last real {:x?} last model {:x?}", real.len(), model.len(), real.last(), model.last()));
    }
    None
}
pub struct Opts {
    pub trace: bool,
    pub max_steps: u64,
}
/// Runs every transaction of the scenario in sequence on one EVM instance (and one with the recorder) and
/// compares each with the model.  State is committed between transactions.
pub fn run(sc: &Scenario, opts: &Opts, st: &mut Stat) -> Vec<Diff> {
    let mut out = vec![];
    let mut model = Model::new(sc);
    let mut plain = make(sc);
    let mut traced = make(sc).with_inspector(recorder());
    let mut w = sc.world.clone();
    for (i, t) in sc.txs.iter().enumerate() {
        let mut t = t.clone();
        if t.auto_nonce {
            t.nonce = w.get(&t.caller).map_or(0, |a| a.nonce);
        }
        let t = &t;
        let h0 = model.hints.len();
        model.steps = 0;
        let destroyed0 = model.reach.n.get("selfdestruct_created").copied().unwrap_or(0);
        let m = model.tx(t);
        if model.steps > opts.max_steps {
            st.skipped += 1;
            break;
        }
        let r = plain.tx(t);
        compare(i, &r, &m, &model, h0, &mut out);
        // the published classifiers agree with how the transaction is to be treated
        {
            let mt = crate::real::mega_tx(t, sc.chain_id);
            let from = t.caller == mega_evm::MEGA_SYSTEM_ADDRESS;
            let sys = from && t.ty == TxType::Legacy && t.to == Some(crate::model::ORACLE);
            let got = (mega_evm::sent_from_mega_system_address(&mt), mega_evm::is_mega_system_transaction(&mt), mega_evm::is_deposit_like_transaction(&mt));
            let want = (from, sys, sys || t.ty == TxType::Deposit);
            if got != want {
                out.push(Diff::new(F::Status, i, format!("system-transaction classification {got:?}, expected {want:?}")));
            }
        }
        // a keyless deployment's error can be decoded from the output that carries it
        if let (Some(crate::model::KEYLESS), Status::Revert, Some(o)) = (t.to, &r.o.status, &r.o.output) {
            let known = [
                "MalformedEncoding()",
                "NotContractCreation()",
                "NotPreEIP155()",
                "NonZeroTxNonce(uint64)",
                "NoEtherTransfer()",
                "InvalidSignature()",
                "InsufficientBalance()",
                "ContractAlreadyExists()",
                "SignerNonceTooHigh(uint64)",
                "ExecutionReverted(uint64,bytes)",
                "ExecutionHalted(uint64)",
                "EmptyCodeDeployed(uint64)",
                "GasLimitTooLow(uint64,uint64)",
                "NotIntercepted()",
            ];
            if let Some(n) = known.iter().find(|n| o.len() >= 4 && o[..4] == mega_evm::alloy_primitives::keccak256(n)[..4]) {
                let e = mega_evm::sandbox::decode_error_result(o);
                let name = format!("{e:?}");
                if !name.contains(n.split('(').next().unwrap()) || e.is_none_or(|e| mega_evm::sandbox::encode_error_result(e) != *o) {
                    out.push(Diff::new(F::Output, i, format!("keyless error {o} ({n}) is decoded as {name}")));
                }
            }
        }
        // ether is conserved: the only source is the mint of a deposit, the only sink an account created in
        // the same transaction that destroys itself (independent of the model's arithmetic)
        if !matches!(r.o.status, Status::Err(_)) {
            use mega_evm::alloy_primitives::U512;
            let before = total(&w) + U512::from(if t.ty == TxType::Deposit { t.mint } else { 0 });
            let after = total(&r.o.world);
            let burn = model.reach.n.get("selfdestruct_created").copied().unwrap_or(0) != destroyed0;
            // (a deposit carries no gas price; the envelope with one only exists to exercise the handler)
            let odd = t.ty == TxType::Deposit && t.gas_price != 0;
            if !odd && (after > before || (after < before && !burn && !sc.no_fees)) {
                out.push(Diff::new(F::Ether, i, format!("total balance {before} became {after}")));
            }
            st.hit("ether_sum_checked");
        }
        if opts.trace {
            *traced.evm.inspector_mut() = recorder();
            let rt = traced.tx(t);
            let mut d2 = vec![];
            same(i, &r, &rt, &mut d2);
            out.extend(d2);
            if !matches!(r.o.status, Status::Err(_)) {
                if let Some(d) = trace_diff(&traced.evm.inspector().trace, &model.trace) {
                    out.push(Diff::new(F::Trace, i, d));
                }
            }
        }
        st.txs += 1;
        st.steps += model.steps;
        *st.statuses.entry(status_class(&m.status)).or_default() += 1;
        if model.steps > 0 || !matches!(m.status, Status::Success) {
            st.note(&format!("{:?}|{}|{}|{}|{}|{}|{}", sc.spec, status_class(&m.status), m.gas_used, m.compute, m.data, m.kv, model.trace.len()));
        }
        if model.steps > 20 {
            st.sample(|| format!("{} tx {i}: {:?} {:?} {:?}->{:?} gas {} => {} gas_used {} compute {} data {} kv {} growth {} steps {}", sc.tag, sc.spec, t.ty, t.caller, t.to, t.gas_limit, status_class(&m.status), m.gas_used, m.compute, m.data, m.kv, m.growth, model.steps));
        }
        if !out.is_empty() {
            let lim = |s: &Status| matches!(s, Status::Limit { .. } | Status::Volatile { .. });
            let l = lim(&m.status) || lim(&r.o.status);
            out.iter_mut().for_each(|d| d.limit_halt = l);
            break;
        }
        w = Arc::new(m.world);
        model.set_world(w.clone());
        plain.set_world(w.clone());
        if opts.trace {
            traced.set_world(w.clone());
        }
    }
    let _ = w;
    st.reach.merge(&model.reach);
    out
}
/// Two real runs of the same transaction must be indistinguishable.
pub fn same(i: usize, a: &RealOut, b: &RealOut, out: &mut Vec<Diff>) {
    let f = |o: &RealOut| {
        (
            format!("{:?}", o.o.status),
            o.o.gas_used,
            o.o.refunded,
            o.o.output.clone(),
            o.o.created,
            o.o.logs.clone(),
            (o.o.data, o.o.kv, o.o.compute, o.o.growth, o.o.flags),
            o.buckets.clone(),
            o.hints.clone(),
            o.halt.clone(),
        )
    };
    let (x, y) = (f(a), f(b));
    if x != y {
        out.push(Diff::new(F::Inspector, i, format!("{x:?} vs {y:?}")));
    } else if let Some(d) = world_diff(&a.o.world, &b.o.world) {
        out.push(Diff::new(F::Inspector, i, d));
    }
}
