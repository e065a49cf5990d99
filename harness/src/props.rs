//! Which workload and which oracles decide each property.
use crate::diff::{self, Diff, Opts, Stat, F};
use crate::gen::{self, Profile, MEGA_SPECS, SPECS};
use crate::report::{Ctx, Module};
use mega_evm::MegaSpecId as S;

fn base() -> Profile {
    Profile::default()
}
fn mega() -> Profile {
    Profile { specs: MEGA_SPECS.to_vec(), ..base() }
}
pub struct Work {
    pub name: &'static str,
    pub p: Profile,
    pub fields: &'static [F],
    /// only transactions that ended in a resource limit / volatile halt count for these fields
    pub only_limit: &'static [F],
    pub trace: bool,
    pub quick: u64,
    pub share: u64,
}
pub const ALL: &[F] = &[
    F::Status, F::Gas, F::Refund, F::Output, F::Created, F::Logs, F::Data, F::Kv, F::Compute, F::Growth, F::Flags, F::World, F::Buckets, F::Hints, F::Trace, F::Ether, F::Panic,
];
/// The model-differential workloads of a property.
pub fn works(prop: &str) -> Vec<Work> {
    use F::*;
    let wk = |name, p, fields| Work { name, p, fields, only_limit: &[], trace: true, quick: 400_000, share: 100 };
    match prop {
        "C01" => vec![wk("model", Profile { specs: vec![S::EQUIVALENCE], tx_7702: 12, tx_deposit: 14, destroy: 4, ..base() }, ALL)],
        "C02" => vec![
            Work { share: 60, ..wk("model", mega(), &[Status, Gas, Refund, Trace]) },
            Work { share: 40, ..wk("storage", Profile { sstore: 24, create: 14, call: 20, log: 12, tx_create: 30, tight: 5, tight_compute: 5, tight_caps: 0, env: 1, low_gas: 35, ..mega() }, &[Status, Gas, Refund, Trace]) },
        ],
        "C03" => vec![wk("model", Profile { salt: 100, sstore: 20, create: 14, call: 22, tx_create: 25, tx_keyless: 1, tight: 10, tight_compute: 5, tight_caps: 5, max_txs: 4, ..mega() }, &[Status, Gas, Trace, Buckets])],
        "C04" => vec![wk("model", Profile { tight_compute: 30, precompile: 6, burn: 6, create: 10, low_gas: 35, ..mega() }, &[Status, Compute])],
        "C05" => vec![wk("model", Profile { sstore: 24, create: 10, log: 8, stop: 6, tx_7702: 20, tx_create: 20, tight: 20, tight_compute: 5, tight_caps: 5, env: 1, ..mega() }, &[Status, Data, Kv, Growth])],
        "C06" => vec![wk("model", Profile { tight: 75, tight_compute: 40, tight_caps: 20, sstore: 18, create: 9, log: 7, ..mega() }, &[Status, World, Logs, Created, Ether])],
        "C07" => vec![Work { only_limit: &[Gas, World, Refund], ..wk("model", Profile { tight: 75, tight_compute: 45, tight_caps: 35, call: 24, create: 10, env: 8, oracle: 5, low_gas: 10, ..mega() }, &[Status, Gas, World, Refund]) }],
        "C08" => vec![wk("model", Profile { call: 40, create: 14, burn: 6, tight: 8, tight_compute: 5, tight_caps: 0, low_gas: 40, ..mega() }, &[Status, Trace, Gas])],
        "C09" => vec![wk("model", Profile { env: 14, acct: 8, oracle: 14, sload: 8, burn: 10, call: 22, tight: 10, tight_compute: 20, tight_caps: 85, hot_beneficiary: 65, tx_system: 10, tx_oracle: 12, max_txs: 4, ..mega() }, &[Status, Flags, Compute, World])],
        "C10" => vec![wk("model", Profile { oracle: 40, sload: 12, sstore: 10, call: 12, tx_oracle: 30, tx_system: 12, tight: 10, tight_caps: 15, ..mega() }, &[Status, Hints, Trace, Output, World, Gas])],
        "C11" => vec![wk("model", Profile { specs: SPECS.to_vec(), tx_system: 60, tx_bad: 8, tight: 15, tight_caps: 15, max_txs: 4, ..base() }, &[Status, World, Gas, Logs, Ether])],
        "C12" => vec![wk("model", Profile { specs: vec![S::REX1, S::REX2, S::REX2, S::REX3, S::REX3, S::REX4, S::REX4], tx_keyless: 25, tight: 20, tight_compute: 10, max_txs: 4, destroy: 4, log: 8, ..base() }, ALL)],
        "C13" => vec![wk("model", Profile { specs: SPECS.to_vec(), destroy: 20, create: 14, tx_create: 25, tight: 12, max_txs: 3, ..base() }, &[Status, World, Gas, Trace, Logs, Refund, Ether])],
        "C14" => vec![wk("model", Profile { specs: SPECS.to_vec(), stop: 7, sstore: 16, create: 10, destroy: 4, tx_deposit: 15, tx_7702: 12, ..base() }, &[Status, World, Logs, Output, Created, Ether])],
        "C15" => vec![wk("model", Profile { specs: SPECS.to_vec(), max_txs: 7, tx_bad: 18, tight: 45, tight_caps: 45, env: 8, oracle: 6, tx_system: 10, tx_deposit: 14, ..base() }, ALL)],
        "C16" => vec![wk("inspector", Profile { specs: SPECS.to_vec(), max_txs: 4, tx_bad: 8, ..base() }, &[Inspector])],
        "C23" => vec![wk("model", Profile { specs: SPECS.to_vec(), sizes: 85, create: 30, tx_create: 45, sstore: 4, call: 6, tight: 8, tight_compute: 4, tight_caps: 0, env: 1, ..base() }, &[Status, Gas, World, Created, Trace])],
        "C24" => vec![
            Work { share: 40, ..wk("overrides", Profile { specs: SPECS.to_vec(), over: 100, tx_keyless: 0, precompile: 40, call: 6, create: 3, sstore: 4, tight: 5, tight_compute: 15, tight_caps: 0, env: 1, low_gas: 30, ..base() }, &[Status, Gas, Compute, Trace, Output, World]) },
            wk("model", Profile { specs: SPECS.to_vec(), precompile: 50, call: 6, create: 3, sstore: 4, tight: 10, tight_compute: 20, tight_caps: 0, env: 1, low_gas: 40, ..base() }, &[Status, Gas, Compute, Trace, Output, World])],
        _ => vec![],
    }
}
fn relevant(w: &Work, d: &Diff) -> bool {
    w.fields.contains(&d.field) && (d.limit_halt || !w.only_limit.contains(&d.field))
}
pub fn run_works(c: &Ctx, secs: u64) {
    for w in works(&c.prop) {
        let tag = format!("{}/{}", c.prop, w.name);
        let m = Module {
            name: w.name,
            quick: w.quick * w.share / 100,
            thorough: w.quick * w.share / 100 * 60,
            quick_secs: (secs * w.share / 100).max(1),
            thorough_secs: (secs * w.share / 100).max(1) * 30,
            rule: "seeded random worlds, contracts and transaction sequences biased to the property; every transaction is executed by the real EVM (with and without a recording inspector) and by the reference model, and all of status, gas, usages, state, logs, hints, buckets and the opcode-by-opcode gas trace are compared; distinct = different (spec, outcome, gas, usages, trace length) with executed code or a failure",
        };
        c.par(&m, |i, st| case(c.seed, i, &w, &tag, st));
    }
}
pub fn case(seed: u64, i: u64, w: &Work, tag: &str, st: &mut Stat) -> Vec<String> {
    let sc = gen::scenario(seed, i, &w.p, tag);
    let ds = diff::run(&sc, &Opts { trace: w.trace, max_steps: 200_000 }, st);
    let hit: Vec<_> = ds.iter().filter(|d| relevant(w, d)).collect();
    if hit.is_empty() {
        if !ds.is_empty() {
            st.hit("difference_outside_property");
        }
        return vec![];
    }
    let t = &sc.txs[hit[0].tx];
    let mut out = vec![format!("spec {:?} tx {} of {}: {:?} {:?}->{:?} value {} gas {} limits {:?} beneficiary {:?}", sc.spec, hit[0].tx, sc.txs.len(), t.ty, t.caller, t.to, t.value, t.gas_limit, sc.limits, sc.block.beneficiary)];
    for d in ds {
        let mut s = format!("  {:?}: {}", d.field, d.text);
        if s.len() > 1500 {
            s = s.chars().take(1500).collect();
        }
        out.push(s);
    }
    out
}
