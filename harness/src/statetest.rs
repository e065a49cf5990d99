//! The state-test tool (crates/state-test) as a black box: generated suites, whose expectations are computed by the
//! reference model and an independent trie, run through the real binary; its verdicts and JSON records are checked.
use crate::diff::Stat;
use crate::env::*;
use crate::gen::{self, Profile};
use crate::model::{lim_default, Model, Outcome, Status};
use crate::report::{Ctx, Module};
use crate::rng::Rng;
use mega_evm::alloy_primitives::{keccak256, Address, Bytes, B256, U256};
use mega_evm::MegaSpecId as S;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

// ---- RLP and the Merkle-Patricia trie
fn rlp_len(n: usize, base: u8, out: &mut Vec<u8>) {
    if n < 56 {
        out.push(base + n as u8);
    } else {
        let b = n.to_be_bytes();
        let s = b.iter().position(|x| *x != 0).unwrap();
        out.push(base + 55 + (8 - s) as u8);
        out.extend_from_slice(&b[s..]);
    }
}
fn rlp_str(b: &[u8]) -> Vec<u8> {
    if b.len() == 1 && b[0] < 0x80 {
        return b.to_vec();
    }
    let mut o = vec![];
    rlp_len(b.len(), 0x80, &mut o);
    o.extend_from_slice(b);
    o
}
fn rlp_int(v: U256) -> Vec<u8> {
    let b = v.to_be_bytes::<32>();
    let s = b.iter().position(|x| *x != 0).unwrap_or(32);
    rlp_str(&b[s..])
}
fn rlp_list(items: &[Vec<u8>]) -> Vec<u8> {
    let body = items.concat();
    let mut o = vec![];
    rlp_len(body.len(), 0xc0, &mut o);
    o.extend_from_slice(&body);
    o
}
fn hex_prefix(n: &[u8], leaf: bool) -> Vec<u8> {
    let mut v = vec![];
    let f = if leaf { 0x20 } else { 0 };
    let rest = if n.len() % 2 == 1 {
        v.push(f | 0x10 | n[0]);
        &n[1..]
    } else {
        v.push(f);
        n
    };
    v.extend(rest.chunks(2).map(|c| c[0] << 4 | c[1]));
    v
}
fn node(items: &[(Vec<u8>, Vec<u8>)], d: usize) -> Vec<u8> {
    if items.len() == 1 {
        return rlp_list(&[rlp_str(&hex_prefix(&items[0].0[d..], true)), rlp_str(&items[0].1)]);
    }
    let (a, z) = (&items[0].0, &items[items.len() - 1].0);
    let p = (d..64).take_while(|i| a[*i] == z[*i]).count();
    let refer = |e: Vec<u8>| if e.len() < 32 { e } else { rlp_str(keccak256(&e).as_slice()) };
    if p > 0 {
        return rlp_list(&[rlp_str(&hex_prefix(&a[d..d + p], false)), refer(node(items, d + p))]);
    }
    let mut kids = vec![];
    for x in 0..16u8 {
        let lo = items.partition_point(|i| i.0[d] < x);
        let hi = items.partition_point(|i| i.0[d] <= x);
        kids.push(if lo == hi { vec![0x80] } else { refer(node(&items[lo..hi], d + 1)) });
    }
    kids.push(vec![0x80]);
    rlp_list(&kids)
}
fn trie(kv: impl Iterator<Item = (B256, Vec<u8>)>) -> B256 {
    let mut v: Vec<_> = kv.map(|(k, v)| (k.iter().flat_map(|b| [b >> 4, b & 15]).collect::<Vec<u8>>(), v)).collect();
    if v.is_empty() {
        return keccak256([0x80]);
    }
    v.sort();
    keccak256(node(&v, 0))
}
const BASE_FEE_VAULT: Address = mega_evm::alloy_primitives::address!("4200000000000000000000000000000000000019");
fn state_root(w: &World) -> B256 {
    trie(w.iter().filter(|(a, x)| **a != BASE_FEE_VAULT && !x.is_empty()).map(|(a, x)| {
        let st = trie(x.storage.iter().filter(|s| !s.1.is_zero()).map(|(k, v)| (keccak256(k.to_be_bytes::<32>()), rlp_int(*v))));
        (keccak256(a), rlp_list(&[rlp_int(U256::from(x.nonce)), rlp_int(x.balance), rlp_str(st.as_slice()), rlp_str(keccak256(&x.code).as_slice())]))
    }))
}
fn logs_hash(l: &[mega_evm::alloy_primitives::Log]) -> B256 {
    let v: Vec<_> = l
        .iter()
        .map(|l| rlp_list(&[rlp_str(l.address.as_slice()), rlp_list(&l.topics().iter().map(|t| rlp_str(t.as_slice())).collect::<Vec<_>>()), rlp_str(&l.data.data)]))
        .collect();
    keccak256(rlp_list(&v))
}

// ---- keys
fn secret(k: u64) -> B256 {
    B256::from(U256::from(k))
}
fn key_addr(k: u64) -> Address {
    let s = k256::ecdsa::SigningKey::from_slice(secret(k).as_slice()).unwrap();
    Address::from_slice(&keccak256(&s.verifying_key().to_encoded_point(false).as_bytes()[1..])[12..])
}
/// The key that stands in for an address of the generator.
fn key_of(a: Address) -> u64 {
    1 + fnv(a.as_slice()) % 40
}
fn auth_json(a: &AuthSpec, key: u64, r: &mut Rng) -> Value {
    let mut m = vec![5u8];
    m.extend(rlp_list(&[rlp_int(U256::from(a.chain_id)), rlp_str(a.delegate.as_slice()), rlp_int(U256::from(a.nonce))]));
    let s = k256::ecdsa::SigningKey::from_slice(secret(key).as_slice()).unwrap();
    let (sig, rec) = s.sign_prehash_recoverable(keccak256(m).as_slice()).unwrap();
    let b = sig.to_bytes();
    let (mut rr, ss) = (U256::from_be_slice(&b[..32]), U256::from_be_slice(&b[32..]));
    if a.authority.is_none() {
        rr = U256::ZERO;
    }
    let mut o = Map::new();
    o.insert("chainId".into(), hx(U256::from(a.chain_id)));
    o.insert("address".into(), json!(a.delegate));
    o.insert("nonce".into(), hx(U256::from(a.nonce)));
    let p = hx(U256::from(rec.is_y_odd() as u8));
    match r.below(3) {
        0 => drop(o.insert("v".into(), p)),
        1 => drop(o.insert("yParity".into(), p)),
        _ => {
            o.insert("v".into(), p.clone());
            o.insert("yParity".into(), p);
        }
    }
    o.insert("r".into(), hx(rr));
    o.insert("s".into(), hx(ss));
    if a.authority.is_some() && r.pct(50) {
        o.insert("signer".into(), json!(key_addr(key)));
    }
    Value::Object(o)
}
fn hx(v: U256) -> Value {
    json!(format!("{v:#x}"))
}
fn hb(b: &[u8]) -> Value {
    json!(Bytes::copy_from_slice(b))
}
fn fake_exponential(excess: u64) -> u128 {
    // EIP-4844 with the Cancun fraction
    let (num, den) = (U256::from(excess), U256::from(3_338_477u64));
    let (mut i, mut out, mut acc) = (U256::from(1), U256::ZERO, den);
    while !acc.is_zero() {
        out += acc;
        acc = acc * num / (den * i);
        i += U256::from(1);
    }
    (out / den).to()
}

/// One test of a unit and what the tool has to say about it.
struct Expect {
    pass: bool,
    /// whether it reaches execution (a record is printed)
    runs: bool,
    has_output: bool,
    record: Value,
}
struct Unit {
    name: String,
    json: Value,
    tests: Vec<Expect>,
    /// what was made wrong
    wrong: Vec<String>,
}
/// name, spec, not run; in the order the tool runs them
const FORKS: &[(&str, S, bool)] = &[
    ("Frontier", S::EQUIVALENCE, false),
    ("FrontierToHomesteadAt5", S::EQUIVALENCE, false),
    ("Homestead", S::EQUIVALENCE, false),
    ("HomesteadToDaoAt5", S::EQUIVALENCE, false),
    ("HomesteadToEIP150At5", S::EQUIVALENCE, false),
    ("EIP150", S::EQUIVALENCE, false),
    ("EIP158", S::EQUIVALENCE, false),
    ("EIP158ToByzantiumAt5", S::EQUIVALENCE, false),
    ("Byzantium", S::EQUIVALENCE, false),
    ("ByzantiumToConstantinopleAt5", S::EQUIVALENCE, false),
    ("ByzantiumToConstantinopleFixAt5", S::EQUIVALENCE, false),
    ("Constantinople", S::EQUIVALENCE, true),
    ("ConstantinopleFix", S::EQUIVALENCE, false),
    ("Istanbul", S::EQUIVALENCE, false),
    ("Berlin", S::EQUIVALENCE, false),
    ("BerlinToLondonAt5", S::EQUIVALENCE, false),
    ("London", S::EQUIVALENCE, false),
    ("Paris", S::EQUIVALENCE, false),
    ("Merge", S::EQUIVALENCE, false),
    ("Shanghai", S::EQUIVALENCE, false),
    ("Cancun", S::EQUIVALENCE, false),
    ("Prague", S::EQUIVALENCE, false),
    ("Osaka", S::EQUIVALENCE, false),
    ("MiniRex", S::MINI_REX, false),
];
fn unit(seed: u64, idx: u64, name: String, faulty: bool, st: &mut Stat) -> Option<Unit> {
    let mini = Rng::stream(seed, "st-mini", idx).pct(50);
    let p = Profile {
        specs: vec![if mini { S::MINI_REX } else { S::EQUIVALENCE }],
        max_txs: 1,
        tx_keyless: 0,
        tx_deposit: 0,
        tx_system: 5,
        tx_7702: 20,
        tx_bad: 12,
        tx_create: 20,
        log: 10,
        env: 8,
        salt: 0,
        sizes: 0,
        tight: 0,
        tight_compute: 0,
        tight_caps: 0,
        recreate: 0,
        deep: 0,
        gas_hi: 1_000_000,
        ..Profile::default()
    };
    let mut sc = gen::scenario(seed, idx, &p, "C26/unit");
    let mut r = Rng::stream(seed, "st-unit", idx);
    let mut t = sc.txs[0].clone();
    if t.ty == TxType::Deposit {
        t.ty = TxType::Legacy;
    }
    let mut world = (*sc.world).clone();
    world.retain(|_, a| !a.is_empty());
    for a in world.values_mut() {
        a.storage.retain(|_, v| !v.is_zero());
    }
    // the sender: given by address, or by its key; the authorities of delegations always have keys
    let rename = |a: Address, world: &mut World| {
        let k = key_of(a);
        let n = key_addr(k);
        if let Some(x) = world.get(&a).cloned() {
            world.entry(n).or_insert(x);
        }
        (n, k)
    };
    let mut key = 1 + r.below(1 << 40);
    let by_key = t.caller != crate::model::SYSTEM && r.pct(50);
    if by_key {
        (t.caller, key) = rename(t.caller, &mut world);
        t.nonce = if t.auto_nonce { world.get(&t.caller).map_or(0, |a| a.nonce) } else { t.nonce };
    } else if t.auto_nonce {
        t.nonce = world.get(&t.caller).map_or(0, |a| a.nonce);
    }
    t.auto_nonce = false;
    let mut keys = vec![];
    for a in t.auths.iter_mut() {
        match a.authority {
            Some(x) => {
                let (n, k) = rename(x, &mut world);
                a.authority = Some(n);
                keys.push(k);
            }
            None => keys.push(1),
        }
    }
    if r.pct(15) {
        world.entry(BASE_FEE_VAULT).or_insert(Acct { balance: U256::from(5), nonce: 1, ..Default::default() });
        if r.pct(30) && t.to.is_some() && t.caller != crate::model::SYSTEM {
            t.to = Some(BASE_FEE_VAULT);
        }
    }
    sc.world = Arc::new(world);
    sc.oracle = Default::default();
    (sc.salt_mode, sc.no_fees, sc.over, sc.max_code, sc.max_initcode) = (0, false, None, None, None);
    t.enveloped = Bytes::new();
    t.mint = 0;
    // --- the environment
    let mut env = Map::new();
    env.insert("currentCoinbase".into(), json!(sc.block.beneficiary));
    env.insert("currentGasLimit".into(), hx(U256::from(sc.block.gas_limit)));
    env.insert("currentNumber".into(), hx(U256::from(sc.block.number)));
    env.insert("currentTimestamp".into(), hx(U256::from(sc.block.timestamp)));
    if r.pct(70) {
        env.insert("currentDifficulty".into(), hx(U256::from(r.below(1 << 20))));
    }
    if sc.block.basefee != 0 || r.pct(50) {
        env.insert("currentBaseFee".into(), hx(U256::from(sc.block.basefee)));
    }
    if r.pct(70) {
        env.insert("currentRandom".into(), hx(U256::from_be_bytes(sc.block.prevrandao.0)));
    } else {
        sc.block.prevrandao = B256::ZERO;
    }
    if r.pct(50) {
        sc.chain_id = *r.pick(&[1u64, 10, 6342]);
        let mut id = U256::from(sc.chain_id);
        if r.pct(5) {
            // too large to be one: the default
            id = U256::from(1) << 64usize;
            sc.chain_id = 6342;
        }
        env.insert("currentChainID".into(), hx(id));
    } else {
        sc.chain_id = 6342;
    }
    match r.below(3) {
        0 => {
            let e = r.below(40_000_000);
            env.insert("currentExcessBlobGas".into(), hx(U256::from(e)));
            sc.block.blob_price = fake_exponential(e);
        }
        1 => {
            let (e, u) = (r.below(40_000_000), r.below(1 << 20));
            env.insert("parentExcessBlobGas".into(), hx(U256::from(e)));
            env.insert("parentBlobGasUsed".into(), hx(U256::from(u)));
            let target = if r.pct(50) {
                let t = r.below(1 << 21);
                env.insert("parentTargetBlobsPerBlock".into(), hx(U256::from(t)));
                t
            } else {
                393_216
            };
            sc.block.blob_price = fake_exponential((e + u).saturating_sub(target));
        }
        _ => sc.block.blob_price = 1,
    }
    if r.pct(30) {
        env.insert("previousHash".into(), json!(B256::repeat_byte(7)));
    }
    // --- the transaction parts
    if matches!(t.ty, TxType::SetCode | TxType::Dynamic) && r.pct(10) {
        t.to = None;
    }
    let typed = r.pct(30) && !(t.ty == TxType::SetCode && t.to.is_none());
    let dynamic = matches!(t.ty, TxType::Dynamic | TxType::SetCode);
    let mut tx = Map::new();
    let mut datas = vec![t.input.clone()];
    let mut gases = vec![t.gas_limit];
    let mut values = vec![t.value];
    if r.pct(50) {
        datas.push(if t.to.is_none() || r.pct(50) { Bytes::new() } else { r.bytes(40).into() });
    }
    if r.pct(40) {
        gases.insert(r.below(2) as usize, *r.pick(&[21_000u64, 60_000, 100_000, 400_000, if t.caller == crate::model::SYSTEM { 70_000 } else { u64::MAX }]));
    }
    if r.pct(40) {
        values.insert(r.below(2) as usize, U256::from(r.below(3)));
    }
    let mut lists: Vec<Option<Vec<(Address, Vec<B256>)>>> = vec![None; datas.len()];
    if t.ty != TxType::Legacy {
        lists[0] = (t.ty == TxType::Access || !t.access_list.is_empty() || r.pct(50)).then(|| t.access_list.clone());
        if lists.len() > 1 && r.pct(50) {
            lists[1] = Some(vec![(gen::con(1), vec![B256::with_last_byte(1)])]);
        }
    }
    if t.ty == TxType::Access && lists.len() > 1 && r.pct(40) {
        lists.swap(0, 1);
    }
    tx.insert("data".into(), json!(datas));
    tx.insert("gasLimit".into(), json!(gases.iter().map(|g| hx(if *g == u64::MAX { U256::from(1) << 70usize } else { U256::from(*g) })).collect::<Vec<_>>()));
    tx.insert("value".into(), json!(values.iter().map(|g| hx(*g)).collect::<Vec<_>>()));
    tx.insert("nonce".into(), hx(U256::from(t.nonce)));
    tx.insert("to".into(), t.to.map_or(json!(""), |a| json!(a)));
    tx.insert("secretKey".into(), json!(secret(key)));
    if !by_key {
        tx.insert("sender".into(), json!(t.caller));
    }
    if dynamic {
        tx.insert("maxFeePerGas".into(), hx(U256::from(t.gas_price)));
        tx.insert("maxPriorityFeePerGas".into(), hx(U256::from(t.prio)));
    } else {
        tx.insert("gasPrice".into(), hx(U256::from(t.gas_price)));
    }
    if lists.iter().any(|l| l.is_some()) {
        let l: Vec<Value> = lists
            .iter()
            .map(|l| match l {
                None => Value::Null,
                Some(l) => json!(l.iter().map(|(a, k)| json!({"address": a, "storageKeys": k})).collect::<Vec<_>>()),
            })
            .collect();
        tx.insert("accessLists".into(), json!(l));
    }
    if t.ty == TxType::SetCode {
        tx.insert("authorizationList".into(), json!(t.auths.iter().zip(&keys).map(|(a, k)| auth_json(a, *k, &mut r)).collect::<Vec<_>>()));
    }
    let blob = t.ty == TxType::Dynamic && r.pct(8);
    if blob {
        tx.insert("maxFeePerBlobGas".into(), hx(U256::from(1u64 << 60)));
        if r.pct(50) {
            tx.insert("blobVersionedHashes".into(), json!([B256::repeat_byte(*r.pick(&[0u8, 2, 0xff]))]));
        }
    }
    if typed {
        tx.insert("type".into(), json!(match t.ty { TxType::Legacy => 0, TxType::Access => 1, TxType::Dynamic => if blob { 3 } else { 2 }, _ => 4 }));
    }
    // --- the tests
    let nf = 1 + r.below(3);
    let mut forks: BTreeMap<usize, usize> = BTreeMap::new();
    for _ in 0..nf {
        let f = if r.pct(40) { FORKS.len() - if mini { 1 } else { 3 } } else { r.below(FORKS.len() as u64) as usize };
        *forks.entry(f).or_default() += 1 + r.below(3) as usize;
    }
    let total: usize = forks.values().sum();
    let bad_at = faulty.then(|| r.below(total as u64) as usize);
    let mut post = Map::new();
    let mut tests = vec![];
    let mut wrong = vec![];
    let mut k = 0;
    let mut out_ref: Option<Bytes> = None;
    for (f, n) in forks {
        let (fname, spec, skipped) = FORKS[f];
        let mut arr = vec![];
        for _ in 0..n {
            let (d, g, v) = (r.below(datas.len() as u64) as usize, r.below(gases.len() as u64) as usize, r.below(values.len() as u64) as usize);
            let mut tt = t.clone();
            (tt.input, tt.gas_limit, tt.value) = (datas[d].clone(), gases[g], values[v]);
            tt.access_list = lists[d].clone().unwrap_or_default();
            if !typed {
                tt.ty = if t.ty == TxType::SetCode {
                    TxType::SetCode
                } else if dynamic {
                    TxType::Dynamic
                } else if lists[d].is_some() {
                    TxType::Access
                } else {
                    TxType::Legacy
                };
            }
            // a set-code transaction without recipient cannot be built at all
            let unbuildable = !typed && (tt.ty == TxType::SetCode || blob) && tt.to.is_none();
            let mut s2 = sc.clone();
            s2.spec = spec;
            s2.limits = lim_default(spec);
            s2.txs = vec![tt.clone()];
            let mut m = Model::new(&s2);
            let o: Outcome = m.tx(&tt);
            if m.steps > 200_000 {
                st.skipped += 1;
                return None;
            }
            let failed = matches!(o.status, Status::Err(_)) || unbuildable || blob;
            let world: &World = if failed { &sc.world } else { &o.world };
            let root = state_root(world);
            let logs = if failed { vec![] } else { o.logs.clone() };
            let lh = logs_hash(&logs);
            let out = match o.status {
                Status::Success | Status::Revert if !failed => o.output.clone(),
                _ => Some(Bytes::new()),
            };
            let has_output = !failed && matches!(o.status, Status::Success | Status::Revert);
            let (mut hash, mut lhash, mut exc) = (root, lh, failed);
            let mut pass = true;
            if bad_at == Some(k) {
                let how = r.below(12);
                let mut what = "";
                let mut w2 = world.clone();
                let keysv: Vec<Address> = w2.keys().copied().filter(|a| *a != BASE_FEE_VAULT && !w2[a].is_empty()).collect();
                let a = *r.pick(&keysv);
                match how {
                    0 => {
                        exc = !exc;
                        what = "exception";
                    }
                    1 => {
                        let mut b = lhash.0;
                        b[r.below(32) as usize] ^= 1 << r.below(8);
                        lhash = b.into();
                        what = "logs byte";
                    }
                    2 if logs.len() > 1 => {
                        let mut l = logs.clone();
                        let n = l.len();
                        l.swap(0, n - 1);
                        lhash = logs_hash(&l);
                        what = "logs order";
                    }
                    2 | 3 if !logs.is_empty() => {
                        lhash = logs_hash(&logs[..logs.len() - 1]);
                        what = "log missing";
                    }
                    4 => {
                        let mut b = hash.0;
                        b[r.below(32) as usize] ^= 1 << r.below(8);
                        hash = b.into();
                        what = "root byte";
                    }
                    5 => {
                        hash = state_root(&sc.world);
                        what = "root of the pre-state";
                    }
                    6 if has_output && out.as_ref().is_some_and(|o| out_ref.is_none() || Some(o) == out_ref.as_ref()) => {
                        let mut b = out.clone().unwrap().to_vec();
                        if b.is_empty() || r.pct(30) {
                            b.push(0);
                        } else if r.pct(50) {
                            b.pop();
                        } else {
                            let n = b.len();
                            b[r.below(n as u64) as usize] ^= 1;
                        }
                        out_ref = Some(b.into());
                        what = "output";
                    }
                    7 => {
                        w2.get_mut(&a).unwrap().nonce ^= 1;
                        what = "nonce";
                    }
                    8 => {
                        w2.remove(&a);
                        what = "account missing";
                    }
                    9 => {
                        w2.entry(gen::addr(0x77, 7)).or_default().balance += U256::from(1);
                        what = "account too many";
                    }
                    10 => {
                        let b = &mut w2.get_mut(&a).unwrap().storage;
                        let e = b.entry(U256::from(r.below(4))).or_default();
                        *e = if r.pct(50) && !e.is_zero() { U256::ZERO } else { *e + U256::from(1) };
                        what = "slot";
                    }
                    _ => {
                        w2.get_mut(&a).unwrap().balance ^= U256::from(1);
                        what = "balance";
                    }
                }
                if how >= 7 || what == "balance" {
                    hash = state_root(&w2);
                }
                // what counts is whether the expectation is really wrong
                let differs = if exc != failed {
                    true
                } else if failed {
                    false
                } else {
                    hash != root || lhash != lh || what == "output"
                };
                pass = !differs;
                wrong.push(format!("{fname}[{}] {what}{}", arr.len(), if differs { "" } else { " (no difference)" }));
            } else if out_ref.is_none() && has_output && out.is_some() && r.pct(10) {
                out_ref = out.clone();
            }
            let mut e = json!({"indexes": {"data": d, "gas": g, "value": v}, "hash": hash, "logs": lhash});
            if exc {
                e["expectException"] = json!("TransactionException.SOMETHING");
            }
            if r.pct(30) {
                e["txbytes"] = hb(&r.bytes(5));
            }
            arr.push(e);
            if skipped {
                pass = true;
            } else {
                st.txs += 1;
                st.steps += m.steps;
                *st.statuses.entry(crate::diff::status_class(&o.status)).or_default() += 1;
                st.note(&format!("{spec:?}|{}|{}|{root}", crate::diff::status_class(&o.status), o.gas_used));
                let mut rec = json!({"stateRoot": root, "logsRoot": lh, "postLogsHash": lh, "gasUsed": if failed { 0 } else { o.gas_used }, "pass": pass, "d": d, "g": g, "v": v, "test": name});
                if let Some(o) = out {
                    rec["output"] = json!(o);
                }
                tests.push(Expect { pass, runs: !unbuildable, has_output, record: rec });
            }
            k += 1;
        }
        post.insert(fname.into(), json!(arr));
    }
    // an expected output applies to every test of the unit
    let mut unit = json!({"env": env, "transaction": tx, "post": post});
    let mut pre = Map::new();
    for (a, x) in sc.world.iter() {
        let s: Map<String, Value> = x.storage.iter().map(|(k, v)| (format!("{k:#x}"), hx(*v))).collect();
        pre.insert(a.to_string(), json!({"balance": hx(x.balance), "nonce": hx(U256::from(x.nonce)), "code": x.code, "storage": s}));
    }
    unit["pre"] = json!(pre);
    if let Some(o) = out_ref {
        if tests.iter().any(|t| t.has_output && t.record.get("output").is_none()) {
            st.skipped += 1;
            return None;
        }
        unit["out"] = json!(o);
        for t in tests.iter_mut() {
            // tests without output (exceptions, halts) do not look at it
            if t.has_output && t.record["output"] != json!(o) {
                t.pass = false;
            }
            t.record["pass"] = json!(t.pass);
        }
    }
    if r.pct(50) {
        unit["_info"] = json!({"comment": "generated"});
    }
    Some(Unit { name, json: unit, tests, wrong })
}

/// Suites the tool leaves out by name.
const SKIPPED: &[&str] = &[
    "CreateTransactionHighNonce",
    "RevertInCreateInInit_Paris",
    "RevertInCreateInInit",
    "dynamicAccountOverwriteEmpty",
    "dynamicAccountOverwriteEmpty_Paris",
    "RevertInCreateInInitCreate2Paris",
    "create2collisionStorage",
    "RevertInCreateInInitCreate2",
    "create2collisionStorageParis",
    "InitCollision",
    "InitCollisionParis",
    "ValueOverflow",
    "ValueOverflowParis",
    "Call50000_sha256",
    "static_Call50000_sha256",
    "loopMul",
    "CALLBlake2f_MaxRounds",
];
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn tool() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("state-test")
}
fn exec(args: &[String], cwd: &Path) -> (i32, String, String) {
    let mut c = std::process::Command::new(tool());
    let o = c.args(args).current_dir(cwd).env("RUST_BACKTRACE", "0").stdin(std::process::Stdio::null()).output().expect("the state-test binary cannot be started");
    (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).into(), String::from_utf8_lossy(&o.stderr).into())
}
fn case(seed: u64, i: u64, st: &mut Stat) -> Vec<String> {
    EMPTY_DB_HASHES.with(|x| x.set(true));
    let mut r = Rng::stream(seed, "st-case", i);
    let dir = Scratch(std::env::temp_dir().join(format!("mega-monitor-st-{}-{i}", std::process::id())));
    std::fs::create_dir_all(dir.0.join("a/b")).expect("scratch directory");
    let nfiles = 1 + r.below(6);
    let all_good = r.pct(45);
    let mut files: Vec<(PathBuf, Vec<Unit>, bool)> = vec![];
    for f in 0..nfiles {
        let mut units = vec![];
        let nu = 1 + r.below(3);
        for u in 0..nu {
            let faulty = !all_good && r.pct(30);
            let name = format!("unit-{i}-{f}-{}", r.below(9) * 10 + u);
            if let Some(x) = unit(seed, i * 64 + f * 4 + u, name, faulty, st) {
                units.push(x);
            }
        }
        units.sort_by(|a, b| a.name.cmp(&b.name));
        let skip = r.pct(6);
        let fname = if skip {
            format!("{}.json", r.pick(SKIPPED))
        } else if r.pct(20) {
            // names close to the skipped ones
            let n = *r.pick(SKIPPED);
            match r.below(4) {
                0 => format!("{n}2.json"),
                1 => format!("x{n}.json"),
                2 => format!("{}.json", n.to_uppercase()),
                _ => format!("{}.json", &n[..n.len() - 1]),
            }
        } else {
            format!("f{f}.json")
        };
        let skip = SKIPPED.iter().any(|n| fname.strip_suffix(".json") == Some(n));
        let p = dir.0.join(*r.pick(&["", "a", "a/b"])).join(fname);
        if p.exists() {
            continue;
        }
        let m: Map<String, Value> = units.iter().map(|u| (u.name.clone(), u.json.clone())).collect();
        std::fs::write(&p, serde_json::to_vec(&Value::Object(m)).unwrap()).expect("scratch file");
        files.push((p, units, skip));
    }
    if r.pct(30) {
        std::fs::write(dir.0.join("a/readme.md"), "{ not a test").unwrap();
    }
    let broken = r.pct(5);
    if broken {
        let mut text = "{ not a test".to_string();
        if let Some(u) = files.iter().flat_map(|f| &f.1).next() {
            let mut j = u.json.clone();
            let first = j["post"].as_object().unwrap().keys().next().unwrap().clone();
            match r.below(6) {
                0 => {
                    let t = j["post"][&first].clone();
                    j["post"]["Rex77"] = t;
                }
                1 => j["post"]["Prague"] = json!([{"indexes": {"data": 0, "gas": 7, "value": 0}, "hash": B256::ZERO, "logs": B256::ZERO}]),
                2 if u.tests.first().is_some_and(|t| t.runs) => j["transaction"]["nonce"] = json!("0x10000000000000000"),
                3 => {
                    j["transaction"].as_object_mut().unwrap().remove("sender");
                    j["transaction"]["secretKey"] = json!(B256::ZERO);
                    j["post"] = json!({"Prague": [{"indexes": {"data": 0, "gas": 0, "value": 0}, "hash": B256::ZERO, "logs": B256::ZERO}]});
                }
                4 => drop(j.as_object_mut().unwrap().remove("pre")),
                _ => j["transaction"]["to"] = json!("0x12"),
            }
            if r.pct(80) {
                text = json!({"unit-broken": j}).to_string();
            }
        }
        std::fs::write(dir.0.join("a/zz.json"), text).unwrap();
        st.hit("malformed_suite");
    }
    let mut args: Vec<String> = vec![];
    let by_file = r.pct(30);
    if by_file {
        args.extend(files.iter().map(|f| f.0.to_string_lossy().into_owned()));
    } else {
        args.push(dir.0.to_string_lossy().into_owned());
    }
    let missing = r.pct(3);
    if missing {
        args.insert(r.below(args.len() as u64 + 1) as usize, dir.0.join("nothing").to_string_lossy().into_owned());
        st.hit("missing_path");
    }
    let (mut keep, mut outcome, mut trace) = (false, false, false);
    if r.pct(50) {
        args.push("--keep-going".into());
        keep = true;
    }
    match r.below(6) {
        0 | 1 => {
            args.push("--json-outcome".into());
            outcome = true;
        }
        2 => {
            args.push("--json".into());
            (outcome, trace) = (true, true);
        }
        3 => args.push("-s".into()),
        _ => {}
    }
    let bad: Vec<String> = files.iter().filter(|f| !f.2).flat_map(|f| f.1.iter()).filter(|u| u.tests.iter().any(|t| !t.pass)).map(|u| format!("{}: {}", u.name, u.wrong.join(", "))).collect();
    let want_ok = bad.is_empty() && !missing && (!broken || by_file);
    let (code, out, err) = exec(&args, &dir.0);
    let mut d = vec![];
    st.sample(|| format!("case {i}: state-test {} => exit {code}; {} files, {} tests, wrong: {bad:?}", args.join(" "), files.len(), files.iter().flat_map(|f| &f.1).map(|u| u.tests.len()).sum::<usize>()));
    st.hit(if want_ok { "suite_accepted" } else { "suite_rejected" });
    if trace {
        st.hit("traced");
    }
    if (code == 0) != want_ok {
        d.push(format!("state-test {} exited with {code}; wrong expectations planted: {bad:?}{}{}", args.join(" "), if missing { ", a missing path" } else { "" }, if broken { ", a malformed suite" } else { "" }));
    }
    if want_ok != out.contains("All tests passed!") && !missing && (!by_file || files.len() == 1) {
        d.push(format!("the summary does not match the verdict: {}", out.chars().take(200).collect::<String>()));
    }
    let mut err = err;
    if !d.is_empty() && !outcome && !missing && !broken {
        // the records say where
        args.extend(["--json-outcome".to_string()]);
        (_, _, err) = exec(&args, &dir.0);
        outcome = true;
    }
    if outcome {
        // records by unit, in order
        let mut recs: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        for l in err.lines().filter(|l| l.starts_with('{') && l.contains("\"postLogsHash\"")) {
            match serde_json::from_str::<Value>(l) {
                Ok(v) => recs.entry(v["test"].as_str().unwrap_or("").to_string()).or_default().push(v),
                Err(e) => d.push(format!("record is not JSON: {e}: {l}")),
            }
        }
        let mut failed_seen = false;
        for (p, units, skip) in &files {
            let mut stop = *skip;
            for u in units {
                let got = recs.remove(&u.name).unwrap_or_default();
                let mut want = vec![];
                for t in &u.tests {
                    if stop {
                        break;
                    }
                    if t.runs {
                        want.push(&t.record);
                    }
                    stop = !t.pass;
                }
                failed_seen |= got.iter().any(|g| g["pass"] == json!(false));
                for (g, w) in got.iter().zip(&want) {
                    for (k, v) in w.as_object().unwrap() {
                        if g[k] != *v {
                            d.push(format!("{} {}: record says {k} = {}, expected {v}", p.display(), u.name, g[k]));
                        }
                    }
                    st.hit("record_checked");
                }
                // a run that stops at the first failure may leave later files out; the tool always stops at the first path that failed
                if got.len() > want.len() || (got.len() < want.len() && (keep && (!by_file || files.len() == 1) || want_ok)) && !missing && !broken {
                    d.push(format!("{} {}: {} records, expected {}", p.display(), u.name, got.len(), want.len()));
                }
            }
        }
        recs.remove("unit-broken");
        if let Some(x) = recs.keys().next() {
            d.push(format!("a record of {x:?}, which was not to be run"));
        }
        if !bad.is_empty() && !failed_seen && !missing && !broken && files.iter().all(|f| f.1.iter().all(|u| u.tests.iter().all(|t| t.runs || t.pass))) {
            d.push("no record of the failed test".into());
        }
    }
    if !d.is_empty() {
        d.push(format!("command: state-test {}", args.join(" ")));
        for f in &files {
            d.push(format!("{}: {}", f.0.display(), f.1.iter().map(|u| format!("{{{:?}:{}}}", u.name, u.json)).collect::<Vec<_>>().join("\n").chars().take(6000).collect::<String>()));
        }
    }
    d
}
pub fn suites(c: &Ctx, secs: u64) {
    let m = Module {
        name: "suites",
        quick: 10_000_000,
        thorough: 1_000_000_000,
        quick_secs: secs,
        thorough_secs: secs * 40,
        rule: "directories of generated state-test suites (several files, units, forks, d/g/v combinations, senders by address or key, signed authorizations, blob settings), right or with one wrong expectation (root, logs, exception, output, account, slot), run through the state-test binary with each option; the exit code, the JSON record of each test (root, logs hash, gas, output, verdict) are compared with the reference model and an independent trie; distinct = different (spec, outcome, gas, root)",
    };
    c.par(&m, |i, st| case(c.seed, i, st));
}
