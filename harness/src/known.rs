//! The genuine defects recorded in known-findings.txt, each as one deterministic history on the real
//! code. The reference model reproduces exactly these behaviours, so that any other deviation of the
//! same property is still reported. Nothing here is added to at run time: a defect that is observed
//! but not listed in the file is a violation.
use crate::env::*;
use crate::forks::plain;
use crate::gen::{con, eoa, eth, keyless_calldata, keyless_raw, none, Asm, L1BLOCK};
use crate::model::{lim_default, Status, KEYLESS};
use crate::real::{self, RealOut};
use mega_evm::alloy_primitives::{Address, Bytes, U256};
use mega_evm::MegaSpecId as S;
use std::sync::Arc;

fn run(sc: &Scenario, t: TxSpec) -> RealOut {
    let mut e = real::make(sc);
    let t = crate::extra::resolve(&t, &sc.world);
    e.tx(&t)
}
fn halted(o: &RealOut) -> bool {
    matches!(o.o.status, Status::Limit { .. } | Status::Volatile { .. })
}
fn with(sc: &mut Scenario, f: impl FnOnce(&mut World)) {
    let mut w = (*sc.world).clone();
    f(&mut w);
    sc.world = Arc::new(w);
}
fn vcall(a: &mut Asm, to: Address, value: u64, gas: u64) {
    a.op(0x5f).op(0x5f).op(0x5f).op(0x5f).n(value).a(to).n(gas).op(0xf1).op(0x50);
}
fn tx() -> TxSpec {
    TxSpec::call(eoa(0), con(0), 10_000_000)
}

/// (property, id, still observed?)
pub fn all() -> Vec<(&'static str, &'static str, fn() -> bool)> {
    vec![
        ("C05", "caller-counted-again", || {
            let kv = |n: usize| {
                let mut a = Asm::default();
                (0..n).for_each(|_| vcall(&mut a, eoa(1), 1, 0));
                let mut sc = plain(S::REX3, a.build(), 0);
                with(&mut sc, |w| {
                    w.get_mut(&con(0)).unwrap().balance = eth(1);
                    w.insert(eoa(1), Acct { balance: eth(1), ..Default::default() });
                });
                run(&sc, tx()).o.kv
            };
            // the contract's own account is already counted by its first transfer
            kv(2) - kv(1) == 2
        }),
        ("C06", "top-level-create-keeps-state", || {
            let mut sc = plain(S::REX3, vec![], 0);
            let t = TxSpec { to: None, input: vec![0x61, 0x04, 0x00, 0x5f, 0xf3].into(), ..TxSpec::call(eoa(0), con(0), 20_000_000) };
            let full = run(&sc, t.clone()).o.compute;
            sc.limits = Limits { compute: full - 1, ..lim_default(S::REX3) };
            let o = run(&sc, t);
            halted(&o) && o.o.world.contains_key(&eoa(0).create(1))
        }),
        ("C06", "top-level-precompile-keeps-value", || {
            let mut sc = plain(S::REX3, vec![], 0);
            let sha = Address::with_last_byte(2);
            with(&mut sc, |w| {
                w.insert(sha, Acct { balance: eth(1), ..Default::default() });
            });
            let t = TxSpec { to: Some(sha), value: U256::from(7), ..tx() };
            let full = run(&sc, t.clone()).o.compute;
            sc.limits = Limits { compute: full - 1, ..lim_default(S::REX3) };
            let o = run(&sc, t);
            halted(&o) && o.o.world[&sha].balance == eth(1) + U256::from(7)
        }),
        ("C14", "top-level-create-keeps-state", || seen("C06", "top-level-create-keeps-state")),
        ("C14", "top-level-precompile-keeps-value", || seen("C06", "top-level-precompile-keeps-value")),
        ("C02", "empty-delegate-charged-as-new-account", || {
            // 2,600 for loading the delegate are due, the storage gas of a new account is not
            let (o, p) = (delegate_call(S::MINI_REX), existing_call(S::MINI_REX));
            o.o.gas_used > p.o.gas_used + 100_000
        }),
        ("C05", "empty-delegate-counted-as-new-account", || delegate_call(S::REX3).o.growth == 1 && existing_call(S::REX3).o.growth == 0),
        ("C02", "preloaded-address-charged-cold", || {
            let f = |touch: bool| {
                let mut a = Asm::default();
                if touch {
                    a.a(eoa(1)).op(0x31).op(0x50);
                }
                vcall(&mut a, eoa(1), 1, 0);
                let mut sc = plain(S::REX3, a.build(), 0);
                sc.block.beneficiary = eoa(1);
                with(&mut sc, |w| {
                    w.get_mut(&con(0)).unwrap().balance = eth(1);
                    w.insert(eoa(1), Acct { balance: eth(1), ..Default::default() });
                });
                run(&sc, tx()).o.gas_used
            };
            // the beneficiary is warm from the start: looking at it first can only add gas
            f(false) > f(true)
        }),
        ("C03", "deposit-create-wrong-bucket", || {
            let mut sc = plain(S::REX3, vec![], 0);
            sc.salt_mode = 3;
            with(&mut sc, |w| w.get_mut(&eoa(0)).unwrap().nonce = 5);
            let t = TxSpec { ty: TxType::Deposit, to: None, auto_nonce: false, ..TxSpec::call(eoa(0), con(0), 10_000_000) };
            let o = run(&sc, t);
            o.buckets.contains(&acct_bucket(eoa(0).create(0))) && !o.buckets.contains(&acct_bucket(eoa(0).create(5)))
        }),
        ("C07", "forwarded-gas-burned-at-limit", || {
            let mut a = Asm::default();
            vcall(&mut a, con(1), 0, 5_000_000);
            let mut sc = plain(S::REX3, a.build(), 0);
            with(&mut sc, |w| {
                w.insert(con(1), Acct { nonce: 1, code: vec![0x00].into(), ..Default::default() });
            });
            let full = run(&sc, tx());
            (1..3000).any(|k| {
                sc.limits = Limits { compute: full.o.compute - k, ..lim_default(S::REX3) };
                let o = run(&sc, tx());
                halted(&o) && o.o.gas_used > full.o.gas_used
            })
        }),
        ("C09", "beneficiary-sender-not-capped-at-once", || {
            // burns 30M gas by memory expansion, without any volatile opcode
            let mut a = Asm::default();
            a.n(120_000 * 32).op(0x51);
            let mut sc = plain(S::REX3, a.build(), 0);
            sc.block.beneficiary = eoa(0);
            let o = run(&sc, TxSpec { gas_limit: 100_000_000, ..tx() });
            o.o.status == Status::Success && o.o.flags != 0 && o.o.compute > sc.limits.cap_block
        }),
        ("C20", "pre-block-call-out-of-storage-gas", crate::block::history_call_lost),
        ("C12", "sandbox-chain-id", || {
            // init code: return CHAINID
            let (o, d) = keyless(77, 0, vec![0x46, 0x5f, 0x52, 0x60, 0x20, 0x5f, 0xf3]);
            o.o.status == Status::Success && o.o.world.get(&d).is_some_and(|a| a.code.last() == Some(&1))
        }),
        ("C12", "signer-charged-l1-cost-of-outer-transaction", || {
            let left = |n: usize| {
                let l1 = |w: &mut World| {
                    let s = [(1u64, U256::from(1_000_000_000u64)), (3, U256::from(1_000_000u64) << 96), (7, U256::from(1_000_000_000u64))];
                    w.insert(L1BLOCK, Acct { nonce: 1, code: vec![0].into(), storage: s.into_iter().map(|(k, v)| (U256::from(k), v)).collect(), ..Default::default() });
                };
                let (o, s) = keyless_in(1, 0, vec![0x60, 1, 0x5f, 0xf3], l1, n);
                o.o.world[&s].balance
            };
            left(3) != left(3_000)
        }),
        ("C12", "sandbox-ignores-salt-environment", || {
            // init code: SSTORE(1, 1), return one byte; with fourfold capacities everywhere it must cost more
            let c = vec![0x60, 1, 0x60, 1, 0x55, 0x60, 1, 0x5f, 0xf3];
            let (a, d) = keyless(1, 0, c.clone());
            let (b, _) = keyless(1, 3, c);
            let sp = |o: &RealOut| o.o.world.values().fold(U256::ZERO, |x, a| x.wrapping_add(a.balance));
            a.o.world.contains_key(&d) && a.o.output == b.o.output && sp(&a) == sp(&b)
        }),
    ]
}
fn seen(p: &str, id: &str) -> bool {
    all().into_iter().any(|k| k.0 == p && k.1 == id && (k.2)())
}
fn delegate_call(s: S) -> RealOut {
    value_call_to(s, [&[0xef, 0x01, 0x00][..], none(3).as_slice()].concat().into())
}
fn existing_call(s: S) -> RealOut {
    value_call_to(s, Bytes::new())
}
fn value_call_to(spec: S, code: Bytes) -> RealOut {
    let mut a = Asm::default();
    vcall(&mut a, eoa(1), 1, 0);
    let mut sc = plain(spec, a.build(), 0);
    with(&mut sc, |w| {
        w.get_mut(&con(0)).unwrap().balance = eth(1);
        w.insert(eoa(1), Acct { balance: eth(1), nonce: 1, code, ..Default::default() });
    });
    run(&sc, tx())
}
fn keyless(chain_id: u64, salt_mode: u64, init: Vec<u8>) -> (RealOut, Address) {
    let (o, s) = keyless_in(chain_id, salt_mode, init, |_| {}, 3);
    (o, s.create(0))
}
fn keyless_in(chain_id: u64, salt_mode: u64, init: Vec<u8>, f: impl FnOnce(&mut World), enveloped: usize) -> (RealOut, Address) {
    let mut sc = plain(S::REX3, vec![], 0);
    sc.chain_id = chain_id;
    sc.salt_mode = salt_mode;
    let (raw, signer) = [0x11u8, 0x18, 0x22, 0x01, 0x02, 0x07, 0x08, 0x2a]
        .iter()
        .map(|rs| keyless_raw(init.clone().into(), 8_000_000, 10, U256::ZERO, 0, None, None, *rs))
        .find(|x| x.1.is_some())
        .expect("a recoverable signature");
    let signer = signer.unwrap();
    with(&mut sc, |w| {
        w.insert(signer, Acct { balance: eth(1), ..Default::default() });
        w.insert(KEYLESS, Acct { nonce: 1, code: vec![0xfe].into(), ..Default::default() });
        f(w);
    });
    let t = TxSpec { enveloped: (0..enveloped).map(|i| (i * 37 % 251) as u8).collect::<Vec<u8>>().into(), to: Some(KEYLESS), input: keyless_calldata(&raw, U256::from(8_000_000)), ..TxSpec::call(eoa(0), con(0), 50_000_000) };
    (run(&sc, t), signer)
}
