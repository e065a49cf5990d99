//! C19: schedules, published limits and their enforcement at exactly the published values; C23: code sizes at the
//! published boundaries on every construction path; C03: new blocks on a living instance.
use crate::diff::{self, compare, Opts, Stat};
use crate::env::*;
use crate::gen::{con, eoa, eth, Asm, Profile, MEGA_SPECS, SPECS};
use crate::model::{lim_default, Model, Status};
use crate::real::{block_env, make};
use crate::report::{Ctx, Module};
use crate::rng::Rng;
use mega_evm::alloy_evm::Evm as _;
use mega_evm::alloy_hardforks::{EthereumHardfork, EthereumHardforks, ForkCondition};
use mega_evm::alloy_op_hardforks::{OpHardfork, OpHardforks};
use mega_evm::alloy_primitives::{Bytes, B256, U256};
use mega_evm::{BlockLimits, EvmTxRuntimeLimits, MegaHardfork as H, MegaHardforkConfig, MegaHardforks, MegaSpecId as S};
use std::sync::Arc;

pub const FORKS: [H; 8] = [H::MiniRex, H::MiniRex1, H::MiniRex2, H::Rex, H::Rex1, H::Rex2, H::Rex3, H::Rex4];
pub const FORK_SPEC: [S; 8] = [S::MINI_REX, S::EQUIVALENCE, S::MINI_REX, S::REX, S::REX1, S::REX2, S::REX3, S::REX4];

fn cond(t: Option<u64>) -> ForkCondition {
    t.map_or(ForkCondition::Never, ForkCondition::Timestamp)
}
/// What the schedule says, written from the documentation.
fn want_fork(at: &[Option<u64>; 8], ts: u64) -> Option<usize> {
    (0..8).rev().find(|i| at[*i].is_some_and(|t| ts >= t))
}
fn active(c: &MegaHardforkConfig, i: usize, ts: u64) -> bool {
    match i {
        0 => c.is_mini_rex_active_at_timestamp(ts),
        1 => c.is_mini_rex_1_active_at_timestamp(ts),
        2 => c.is_mini_rex_2_active_at_timestamp(ts),
        3 => c.is_rex_active_at_timestamp(ts),
        4 => c.is_rex_1_active_at_timestamp(ts),
        5 => c.is_rex_2_active_at_timestamp(ts),
        6 => c.is_rex_3_active_at_timestamp(ts),
        _ => c.is_rex_4_active_at_timestamp(ts),
    }
}
fn check_config(c: MegaHardforkConfig, at: &[Option<u64>; 8], how: &str, ts: &[u64], inherited: bool, st: &mut Stat) -> Option<String> {
    for (i, f) in FORKS.iter().enumerate() {
        let want = cond(at[i]);
        if c.mega_fork_activation(*f) != want {
            return Some(format!("{how}: activation of {f:?} is {:?}, configured {want:?} in {at:?}", c.mega_fork_activation(*f)));
        }
        let got = c.get(*f).copied();
        if got.unwrap_or(ForkCondition::Never) != want {
            return Some(format!("{how}: get({f:?}) is {got:?}, configured {want:?} in {at:?}"));
        }
    }
    for &t in ts {
        let w = want_fork(at, t);
        let ws = w.map_or(S::EQUIVALENCE, |i| FORK_SPEC[i]);
        if c.spec_id(t) != ws {
            return Some(format!("{how}: spec at {t} is {:?}, expected {ws:?} for {at:?}", c.spec_id(t)));
        }
        if c.hardfork(t) != w.map(|i| FORKS[i]) {
            return Some(format!("{how}: hardfork at {t} is {:?}, expected {:?} for {at:?}", c.hardfork(t), w.map(|i| FORKS[i])));
        }
        if c.hardfork(t).map_or(S::EQUIVALENCE, |h| h.spec_id()) != ws {
            return Some(format!("{how}: spec of the hardfork in force at {t} is not {ws:?}"));
        }
                for i in 0..8 {
            let a = at[i].is_some_and(|x| t >= x);
            if active(&c, i, t) != a {
                return Some(format!("{how}: {:?} active at {t}: {}, expected {a} for {at:?}", FORKS[i], !a));
            }
            // activation is monotone
            if a && t < u64::MAX && !active(&c, i, t + 1) {
                return Some(format!("{how}: {:?} active at {t} but not at the next second", FORKS[i]));
            }
            for (pt, n) in [(t.saturating_sub(1), 1u64), (t.saturating_sub(1), 2), (t, 7), (t.saturating_sub(5), 9)] {
                let w = a && (n == 1 || !at[i].is_some_and(|x| pt >= x));
                if c.first_hardfork_block(FORKS[i], pt, (n, t)) != w {
                    return Some(format!("{how}: first block of {:?} (parent {pt}, block {n} at {t}): {}, expected {w} for {at:?}", FORKS[i], !w));
                }
            }
        }
        st.hit(match w {
            None => "spec_none",
            Some(0) => "spec_minirex",
            Some(1) => "spec_minirex1",
            Some(2) => "spec_minirex2",
            Some(3) => "spec_rex",
            Some(4) => "spec_rex1",
            Some(5) => "spec_rex2",
            Some(6) => "spec_rex3",
            _ => "spec_rex4",
        });
        if inherited {
            let eth_ok = c.ethereum_fork_activation(EthereumHardfork::Prague).active_at_timestamp(t)
                && c.ethereum_fork_activation(EthereumHardfork::Cancun).active_at_timestamp(t)
                && c.ethereum_fork_activation(EthereumHardfork::Shanghai).active_at_timestamp(t)
                && c.ethereum_fork_activation(EthereumHardfork::London).active_at_block(0)
                && !c.ethereum_fork_activation(EthereumHardfork::Osaka).active_at_timestamp(t);
            let op_ok = [OpHardfork::Regolith, OpHardfork::Canyon, OpHardfork::Ecotone, OpHardfork::Fjord, OpHardfork::Granite, OpHardfork::Holocene, OpHardfork::Isthmus]
                .into_iter()
                .all(|f| c.op_fork_activation(f).active_at_timestamp(t))
                && !c.op_fork_activation(OpHardfork::Interop).active_at_timestamp(t);
            if !eth_ok || !op_ok {
                return Some(format!("{how}: the inherited forks changed ({eth_ok} {op_ok}) for {at:?}"));
            }
        }
    }
    None
}
pub fn schedules(c: &Ctx, secs: u64) {
    let m = Module {
        name: "schedules",
        quick: 65_536 + 30_000,
        thorough: 65_536 + 4_000_000,
        quick_secs: secs,
        thorough_secs: secs * 20,
        rule: "all 4^8 schedules over {never, 0, 5, 10} (including out-of-order ones), then random ones; each is built five ways (with in order, insert in random order over stale values, all activated then removed and re-added, removal of absent forks, from an iterator) and asked for spec, hardfork, activation and first-block at timestamps around every boundary; distinct = different schedules",
    };
    c.par(&m, |i, st| {
        let mut r = Rng::stream(c.seed, "schedule", i);
        let mut at = [None; 8];
        let mut ts: Vec<u64> = vec![0, 1, 4, 5, 6, 9, 10, 11, u64::MAX - 1, u64::MAX];
        if i < 65_536 {
            for (k, a) in at.iter_mut().enumerate() {
                // (an odd factor permutes the schedules, so that a run that is cut short has seen all forks)
                *a = [None, Some(0), Some(5), Some(10)][((i * 40_503 + c.seed) % 65_536 >> (2 * k)) as usize & 3];
            }
        } else {
            let sorted = r.pct(60);
            let big = r.pct(20);
            for a in at.iter_mut() {
                if r.pct(80) {
                    *a = Some(match r.below(10) {
                        0 => 0,
                        1 => u64::MAX,
                        _ if big => r.next(),
                        _ => 1_700_000_000 + r.below(40),
                    });
                }
            }
            if sorted {
                let mut v: Vec<u64> = at.iter().flatten().copied().collect();
                v.sort_unstable();
                let mut k = 0;
                for a in at.iter_mut().flatten() {
                    *a = v[k];
                    k += 1;
                }
            }
            for a in at.iter().flatten() {
                ts.extend([a.saturating_sub(1), *a, a.saturating_add(1)]);
            }
        }
        st.note(&format!("{at:?}"));
        st.txs += 1;
        // in order; a fork that is never active is given explicitly or left out
        let mut a = MegaHardforkConfig::new();
        for k in 0..8 {
            if at[k].is_some() || r.pct(50) {
                a = a.with(FORKS[k], cond(at[k]));
            }
        }
        // random order over stale values
        let mut b = MegaHardforkConfig::default();
        let mut order: Vec<usize> = (0..8).collect();
        for k in (1..8).rev() {
            order.swap(k, r.below(k as u64 + 1) as usize);
        }
        for k in &order {
            if r.pct(60) {
                b.insert(FORKS[*k], ForkCondition::Timestamp(r.below(20)));
            }
        }
        for k in order.iter().rev() {
            b.insert(FORKS[*k], cond(at[*k]));
        }
        // everything on, then changed one by one
        let mut d = MegaHardforkConfig::new().with_all_activated();
        for k in &order {
            d = match at[*k] {
                None => d.without(FORKS[*k]),
                Some(0) if r.pct(50) => d,
                Some(t) if r.pct(50) => d.without(FORKS[*k]).with(FORKS[*k], ForkCondition::Timestamp(t)),
                Some(t) => d.with(FORKS[*k], ForkCondition::Timestamp(t)),
            };
        }
        // removing what is not there, and removing in between
        let mut e = MegaHardforkConfig::new();
        for k in &order {
            e = e.without(FORKS[*k]);
            if let Some(t) = at[*k] {
                e = e.with(FORKS[*k], ForkCondition::Timestamp(t));
            }
        }
        let f = MegaHardforkConfig::from(order.iter().filter_map(|k| at[*k].map(|t| (FORKS[*k], ForkCondition::Timestamp(t)))).collect::<Vec<_>>().into_iter());
        for (x, how, inh) in [(a, "with", true), (b, "insert", true), (d, "all_activated", true), (e, "without", true), (f, "from", false)] {
            if let Some(v) = check_config(x, &at, how, &ts, inh, st) {
                return vec![v];
            }
        }
        vec![]
    });
}
/// Published limits of every hardfork and spec.
pub fn tables(c: &Ctx) {
    let m = Module { name: "published-limits", quick: 8, thorough: 8, quick_secs: 30, thorough_secs: 30, rule: "the limits the library gives for each spec and hardfork against the published tables; names round-trip; distinct = hardforks" };
    c.par(&m, |i, st| {
        let mut d = vec![];
        let f = FORKS[i as usize];
        let spec = FORK_SPEC[i as usize];
        st.note(&format!("{f:?}"));
        st.txs += 1;
        let l = lim_default(spec);
        if EvmTxRuntimeLimits::from_spec(spec) != crate::real::rt_limits(l) {
            d.push(format!("transaction limits of {spec:?}: {:?}, published {l:?}", EvmTxRuntimeLimits::from_spec(spec)));
        }
        for gas in [0, 1, 30_000_000, u64::MAX] {
            let b = BlockLimits::from_hardfork_and_block_gas_limit(f, gas);
            let mini = f != H::MiniRex1;
            let w = BlockLimits {
                tx_gas_limit: u64::MAX,
                block_gas_limit: gas,
                tx_encode_size_limit: u64::MAX,
                block_txs_encode_size_limit: u64::MAX,
                tx_da_size_limit: u64::MAX,
                block_da_size_limit: u64::MAX,
                tx_data_limit: l.data,
                block_txs_data_limit: if mini { 13_107_200 } else { u64::MAX },
                tx_kv_update_limit: l.kv,
                block_kv_update_limit: if mini { 500_000 } else { u64::MAX },
                tx_compute_gas_limit: l.compute,
                block_compute_gas_limit: u64::MAX,
                tx_state_growth_limit: l.growth,
                block_state_growth_limit: if i >= 3 { 1000 } else { u64::MAX },
                block_env_access_compute_gas_limit: l.cap_block,
                oracle_access_compute_gas_limit: l.cap_oracle,
            };
            if b != w {
                d.push(format!("block limits of {f:?}: {b:?}, published {w:?}"));
            }
            if b.to_evm_tx_runtime_limits() != crate::real::rt_limits(l) {
                d.push(format!("transaction limits out of the block limits of {f:?}: {:?}", b.to_evm_tx_runtime_limits()));
            }
        }
        for (k, s) in SPECS.iter().enumerate() {
            use std::str::FromStr;
            if S::from_str(&s.to_string()) != Ok(*s) {
                d.push(format!("the name of {s:?} does not parse back"));
            }
            for (j, t) in SPECS.iter().enumerate() {
                if s.is_enabled(*t) != (j <= k) {
                    d.push(format!("{s:?}.is_enabled({t:?}) is not {}", j <= k));
                }
            }
        }
        d
    });
}
/// A bare scenario: one sender, one contract.
pub fn plain(spec: S, code: Vec<u8>, path: u8) -> Scenario {
    let mut w = World::default();
    w.insert(eoa(0), Acct { balance: eth(1_000_000), nonce: 1, ..Default::default() });
    w.insert(con(0), Acct { nonce: 1, code: code.into(), ..Default::default() });
    // the oracle contract answers every call by reading its slot 0
    w.insert(crate::model::ORACLE, Acct { nonce: 1, code: Bytes::from_static(&[0x5f, 0x54, 0x5f, 0x52, 0x60, 0x20, 0x5f, 0xf3]), ..Default::default() });
    Scenario {
        spec,
        world: Arc::new(w),
        block: BlockSpec { number: 1000, beneficiary: crate::gen::none(9), timestamp: 1_700_000_000, gas_limit: 10_000_000_000, basefee: 0, prevrandao: B256::ZERO, blob_price: 1 },
        limits: lim_default(spec),
        salt_mode: 0,
        oracle: Arc::default(),
        chain_id: 1,
        max_code: None,
        max_initcode: None,
        txs: vec![],
        lazy_code: false,
        path,
        no_fees: false,
        flags: None,
        over: None,
        tag: String::new(),
    }
}
fn expand(words: u64) -> u64 {
    3 * words + words * words / 512
}
/// Code that uses about `gas`, by one memory expansion.
fn burn_to(a: &mut Asm, gas: u64) {
    let (mut lo, mut hi) = (0u64, 1 << 22);
    while lo + 1 < hi {
        let m = (lo + hi) / 2;
        if expand(m) <= gas {
            lo = m
        } else {
            hi = m
        }
    }
    if lo > 0 {
        a.n((lo - 1) * 32).op(0x51).op(0x50);
    }
}
pub const KINDS: [&str; 6] = ["compute", "data", "kv", "growth", "block_env_cap", "oracle_cap"];
fn limit_code(spec: S, kind: usize, pad: usize, size: u64, n: u64) -> Vec<u8> {
    let l = lim_default(spec);
    let mut a = Asm::default();
    match kind {
        0 | 4 | 5 => {
            let target = [l.compute, 0, 0, 0, l.cap_block, l.cap_oracle][kind];
            if kind == 4 {
                a.op(0x42).op(0x50);
            }
            if kind == 5 {
                a.n(0).n(0).n(0).n(0).a(crate::model::ORACLE).op(0x5a).op(0xfa).op(0x50);
            }
            burn_to(&mut a, target.saturating_sub(80_000));
            a.code.extend(std::iter::repeat_n(0x5b, pad));
        }
        1 => {
            // LOG0 of 100 kB pieces, then one of `size`
            for _ in 0..n {
                a.n(102_400).n(0).op(0xa0);
            }
            a.n(size).n(0).op(0xa0);
        }
        _ => {
            // a loop that sets slots n..1 to 2
            a.n(n);
            let top = a.code.len() as u64;
            a.op(0x5b).n(2).op(0x81).op(0x55).n(1).op(0x90).op(0x03).op(0x80).n(top).op(0x57);
        }
    }
    a.op(0x00);
    a.code
}
/// The published limits in force by default: a transaction that uses exactly the limit succeeds, one unit more fails.
pub fn defaults(c: &Ctx, secs: u64) {
    let m = Module {
        name: "published-limits-enforced",
        quick: 6 * 6 * 3,
        thorough: 6 * 6 * 8 * 2,
        quick_secs: secs,
        thorough_secs: secs * 6,
        rule: "for every spec from MiniRex on and every limit it publishes, transactions whose usage is exactly the published limit, one below and one above, on an EVM built without explicit limits (rotating through all construction paths), compared with the reference and with the boundary itself; distinct = (spec, limit, usage)",
    };
    c.par(&m, |i, st| {
        let spec = MEGA_SPECS[(i % 6) as usize];
        let kind = ((i / 6) % 6) as usize;
        let path = (1 + 2 * (i / 36 + c.seed * 3)) as u8 | ((i as u8).wrapping_mul(7) << 4);
        let l = lim_default(spec);
        let rex = spec >= S::REX;
        // every key-value update is also 40 bytes of data: the published key-value limit cannot be reached before the data one
        if (kind == 3 && !rex) || kind == 2 {
            return vec![];
        }
        let mut out = vec![];
        // calibrate on the reference without limits
        let off = Limits { compute: u64::MAX, data: u64::MAX, kv: u64::MAX, growth: u64::MAX, cap_block: u64::MAX, cap_oracle: u64::MAX };
        let limit = [l.compute, l.data, l.kv, l.growth, l.cap_block, l.cap_oracle][kind];
        let n = match kind {
            1 => (limit - 300_000) / 102_400,
            2 => limit - 8,
            3 => limit - 8,
            _ => 0,
        };
        let build = |pad: usize, size: u64, n: u64| {
            let mut sc = plain(spec, limit_code(spec, kind, pad, size, n), path);
            if kind == 2 {
                let mut w = (*sc.world).clone();
                let a = w.get_mut(&con(0)).unwrap();
                for k in 1..=n + 20 {
                    a.storage.insert(U256::from(k), U256::from(1));
                }
                sc.world = Arc::new(w);
            }
            sc.txs = vec![TxSpec { gas_limit: 9_000_000_000, ..TxSpec::call(eoa(0), con(0), 9_000_000_000) }];
            sc
        };
        let usage = |sc: &Scenario| {
            let mut s = sc.clone();
            s.limits = off;
            let mut m = Model::new(&s);
            m.trace_on = false;
            let mut t = s.txs[0].clone();
            t.nonce = 1;
            let o = m.tx(&t);
            [o.compute, o.data, o.kv, o.growth, o.compute, o.compute][kind]
        };
        let base = usage(&build(0, 0, n));
        if base > limit {
            panic!("INTERNAL calibration {spec:?} {} base {base} limit {limit}", KINDS[kind]);
        }
        for delta in [0i64, -1, 1] {
            let want = (limit as i64 + delta - base as i64) as u64;
            let sc = match kind {
                1 => build(0, want, n),
                2 | 3 => build(0, 0, n + want),
                _ => build(want as usize, 0, 0),
            };
            // the caps count from the access on in none of the specs: they are absolute
            let got = usage(&sc);
            if got as i64 != limit as i64 + delta {
                panic!("INTERNAL calibration {spec:?} {} wanted {limit}{delta:+} got {got}", KINDS[kind]);
            }
            let mut model = Model::new(&sc);
            model.trace_on = false;
            let mut t = sc.txs[0].clone();
            t.nonce = 1;
            let m = model.tx(&t);
            let r = make(&sc).tx(&t);
            let mut d = vec![];
            compare(0, &r, &m, &model, 0, &mut d);
            st.txs += 1;
            st.note(&format!("{spec:?}{kind}{delta}"));
            let halted = matches!(r.o.status, Status::Limit { .. } | Status::Volatile { .. });
            st.hit(if halted { "over_the_limit" } else { "within_the_limit" });
            if halted != (delta > 0) {
                out.push(format!("{spec:?}: usage {} {got} with the published limit {limit}: {:?} {} (path {path})", KINDS[kind], r.o.status, r.halt));
            }
            out.extend(d.into_iter().map(|x| format!("{spec:?} {} {got}/{limit} path {path}: {:?} {}", KINDS[kind], x.field, x.text.chars().take(400).collect::<String>())));
            if !out.is_empty() {
                break;
            }
        }
        out
    });
}
/// Contract and init code sizes at the published boundaries.
pub fn sizes(c: &Ctx, secs: u64, only: &'static [crate::diff::F]) {
    let m = Module {
        name: "size-boundaries",
        quick: 7 * 3 * 2 * 32,
        thorough: 7 * 3 * 2 * 512,
        quick_secs: secs,
        thorough_secs: secs * 10,
        rule: "deployed code and init code of exactly the published sizes, one byte less and one byte more (and the standard sizes, which must be refused under Equivalence and accepted from MiniRex on, and arbitrary sizes between), through creation transactions, CREATE and CREATE2, on all construction paths, real EVM against the reference and against the boundary itself; distinct = (spec, way, size)",
    };
    c.par(&m, |i, st| {
        let spec = SPECS[(i % 7) as usize];
        let way = (i / 7) % 3;
        let init = (i / 21) % 2 == 1;
        let path = ((i / 42 + c.seed) * 2 + (i & 1)) as u8 | ((i as u8).wrapping_mul(5) << 4);
        let mega = spec >= S::MINI_REX;
        let bound: u64 = match (mega, init) {
            (true, false) => 524_288,
            (false, false) => 24_576,
            (true, true) => 548_864,
            (false, true) => 49_152,
        };
        let mut out = vec![];
        let mut sizes = vec![bound, bound + 1, bound - 1];
        if mega {
            sizes.extend(if init { [49_152, 49_153] } else { [24_576, 24_577] });
            let mut r = crate::rng::Rng::stream(c.seed, "sizes", i);
            sizes.extend([r.below(24_576), 24_577 + r.below(499_700)]);
        }
        for size in sizes {
            let mut sc = plain(spec, vec![], path);
            // init code that returns `size` zero bytes, or init code of `size` bytes that returns nothing
            let mut ic = Asm::default();
            if init {
                ic.op(0x00);
                ic.code.resize(size as usize, 0x5b);
            } else {
                ic.n(size).n(0).op(0xf3);
            }
            let ic = ic.code;
            let t = if way == 0 {
                TxSpec { to: None, input: ic.into(), ..TxSpec::call(eoa(0), con(0), 9_900_000_000) }
            } else {
                // the factory contract creates from its calldata and stores whether it got an address
                let mut f = Asm::default();
                f.op(0x36).n(0).n(0).op(0x37);
                if way == 1 {
                    f.op(0x36).n(0).n(0).op(0xf0);
                } else {
                    f.n(7).op(0x36).n(0).n(0).op(0xf5);
                }
                f.op(0x15).op(0x15).n(1).op(0x01).n(0).op(0x55).op(0x00);
                let mut w = (*sc.world).clone();
                w.get_mut(&con(0)).unwrap().code = f.code.into();
                sc.world = Arc::new(w);
                TxSpec { input: ic.into(), ..TxSpec::call(eoa(0), con(0), 9_900_000_000) }
            };
            // 548,864 non-zero bytes of calldata do not fit into the data limit's neighbourhood: lift the resource limits
            sc.limits = if mega { Limits { compute: 2_000_000_000, ..lim_default(spec) } } else { lim_default(spec) };
            let mut model = Model::new(&sc);
            model.trace_on = false;
            let mut t = t;
            t.nonce = 1;
            let m = model.tx(&t);
            let r = make(&sc).tx(&t);
            let mut d = vec![];
            compare(0, &r, &m, &model, 0, &mut d);
            st.txs += 1;
            st.note(&format!("{spec:?}{way}{init}{size}"));
            let ok = size <= bound;
            st.hit(if ok { "size_accepted" } else { "size_refused" });
            let ret = if init { 0 } else { size as usize };
            let deployed = match way {
                0 => matches!(r.o.status, Status::Success) && r.o.created.is_some_and(|a| r.o.world.get(&a).is_some_and(|x| x.code.len() == ret)),
                // CREATE with too much init code halts the frame; a failed deployment pushes zero
                _ => r.o.world.get(&con(0)).and_then(|a| a.storage.get(&U256::ZERO)) == Some(&U256::from(2)),
            };
            d.retain(|x| only.is_empty() || only.contains(&x.field));
            if deployed != ok && only.is_empty() {
                out.push(format!("{spec:?} way {way} {} of {size} bytes (bound {bound}): deployed {deployed}, status {:?} {} (path {path})", if init { "init code" } else { "code" }, r.o.status, r.halt));
            }
            out.extend(d.into_iter().map(|x| format!("{spec:?} way {way} init {init} size {size} path {path}: {:?} {}", x.field, x.text.chars().take(400).collect::<String>())));
            if !out.is_empty() {
                break;
            }
        }
        out
    });
}
/// Several blocks on one EVM instance, with SALT capacities that change between them.
pub fn new_blocks(c: &Ctx, secs: u64) {
    let p = Profile { specs: MEGA_SPECS.to_vec(), salt: 100, sstore: 20, create: 12, call: 20, tx_create: 20, tx_keyless: 1, tight: 5, tight_compute: 5, tight_caps: 5, max_txs: 6, ..Default::default() };
    let m = Module {
        name: "new-blocks",
        quick: 60_000,
        thorough: 4_000_000,
        quick_secs: secs,
        thorough_secs: secs * 40,
        rule: "transaction sequences on one EVM instance on which the block is replaced between transactions (also by a block of the same number) while the capacities of the SALT environment change: prices follow the block, reported buckets are those priced since it began; distinct = different (spec, outcome, gas, usages)",
    };
    let tag = format!("{}/new-blocks", c.prop);
    c.par(&m, |i, st| {
        let sc = crate::gen::scenario(c.seed, i, &p, &tag);
        let mut r = Rng::stream(c.seed, "nb", i);
        let mut model = Model::new(&sc);
        model.trace_on = false;
        let mut real = make(&sc);
        let mut w = sc.world.clone();
        let mut block = sc.block.clone();
        let mut d = vec![];
        for (k, t) in sc.txs.iter().enumerate() {
            if k > 0 && r.pct(50) {
                if r.pct(80) {
                    block.number += r.below(3);
                }
                block.timestamp += r.below(3);
                let mode = 1 + r.below(6);
                real.salt.mode.set(mode);
                use mega_evm::revm::{context_interface::ContextSetters, handler::EvmTr};
                match r.below(3) {
                    0 => real.evm.ctx_mut().set_block(block_env(&block)),
                    1 => mega_evm::revm::ExecuteEvm::set_block(&mut real.evm, block_env(&block)),
                    // the used context moves on into a new instance
                    _ if sc.over.is_none() => {
                        let c = real.evm.into_inner().ctx.with_block(block_env(&block));
                        real.evm = mega_evm::MegaEvm::new(c);
                        st.hit("context_reused");
                    }
                    _ => real.evm.ctx_mut().set_block(block_env(&block)),
                }
                model.new_block(block.clone());
                model.set_salt_mode(mode);
                st.hit("new_block");
            }
            let mut t = t.clone();
            if t.auto_nonce {
                t.nonce = w.get(&t.caller).map_or(0, |a| a.nonce);
            }
            let h0 = model.hints.len();
            model.steps = 0;
            let m = model.tx(&t);
            if model.steps > 60_000 {
                st.skipped += 1;
                break;
            }
            let o = real.tx(&t);
            compare(k, &o, &m, &model, h0, &mut d);
            st.txs += 1;
            if model.steps > 0 {
                st.note(&format!("{:?}|{}|{}|{}", sc.spec, diff::status_class(&m.status), m.gas_used, m.compute));
            }
            if !d.is_empty() {
                break;
            }
            w = Arc::new(m.world);
            model.set_world(w.clone());
            real.set_world(w.clone());
        }
        st.reach.merge(&model.reach);
        d.into_iter().map(|x| format!("{:?}: {:?} {}", sc.spec, x.field, x.text.chars().take(900).collect::<String>())).collect()
    });
    let _ = Opts { trace: false, max_steps: 0 };
}
