//! C22: nothing a user or the environment supplies can crash, hang or corrupt the host.
use crate::block;
use crate::diff::{status_class, Stat};
use crate::env::*;
use crate::gen::{self, con, del, eoa, precompile_addr, Asm, Profile, SPECS};
use crate::model::{Status, KEYLESS, ORACLE};
use crate::real::{self, make, recorder};
use crate::report::{Ctx, Module};
use crate::rng::Rng;
use mega_evm::alloy_op_evm::block::receipt_builder::OpAlloyReceiptBuilder;
use mega_evm::alloy_primitives::{Address, Bytes, B256, U256};
use mega_evm::revm::{context_interface::ContextSetters, database::states::State, handler::EvmTr};
use mega_evm::{BlockLimits, MegaBlockExecutionCtx, MegaBlockExecutorFactory, MegaEvmFactory, MegaSpecId as S};
use std::rc::Rc;
use std::sync::Arc;

fn word(r: &mut Rng) -> U256 {
    match r.below(12) {
        0 => U256::ZERO,
        1 => U256::MAX,
        2 => U256::from(1) << (r.below(256) as usize),
        3 => (U256::from(1) << (r.below(256) as usize)).wrapping_sub(U256::from(1)),
        4 => U256::from(u64::MAX),
        5 => U256::from(u64::MAX) + U256::from(1),
        6 => U256::from_be_slice(&r.bytes(32)),
        7 => U256::from_be_slice(r.pick(&[eoa(0), con(0), con(1), del(3), ORACLE, KEYLESS, precompile_addr(5), precompile_addr(10)]).as_slice()),
        8 => U256::from(r.next() >> 32),
        _ => U256::from(r.below(300)),
    }
}
fn num(r: &mut Rng) -> u64 {
    match r.below(9) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::MAX - 1,
        4 => 1 << r.below(64),
        5 => (1u64 << r.below(64)).wrapping_sub(1),
        6 => r.next(),
        7 => 255 + r.below(3),
        _ => r.below(100_000),
    }
}
/// Byte strings that are not programs: pure noise, opcodes with plausible stacks, one opcode repeated, truncated pushes.
pub fn garbage(r: &mut Rng) -> Vec<u8> {
    let mut a = Asm::default();
    match r.below(8) {
        0 => {
            let n = r.below(600) as usize;
            return r.bytes(n);
        }
        // every opcode with every stack depth
        1 => {
            let n = r.below(19);
            for _ in 0..n {
                a.push(word(r));
            }
            let op = r.next() as u8;
            for _ in 0..1 + r.below(3) {
                a.op(op);
            }
        }
        // the stack at its limit
        2 => {
            for _ in 0..1020 + r.below(6) {
                a.op(0x5f);
            }
            for _ in 0..r.below(12) {
                a.op(*r.pick(&[0x30, 0x42, 0x58, 0x80, 0x8f, 0x90, 0x9f, 0x50, 0x01, 0x5f, 0xa0, 0xa4, 0xf1, 0xf0, 0x54, 0x55]));
            }
        }
        // opcodes that take many operands, in any state of the stack
        3 | 4 => {
            for _ in 0..1 + r.below(40) {
                for _ in 0..r.below(9) {
                    a.push(word(r));
                }
                a.op(*r.pick(&[
                    0x20, 0x31, 0x35, 0x37, 0x39, 0x3b, 0x3c, 0x3e, 0x3f, 0x40, 0x47, 0x49, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x5c, 0x5d, 0x5e, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xf0, 0xf1,
                    0xf2, 0xf3, 0xf4, 0xf5, 0xfa, 0xfd, 0xff, 0x41, 0x42, 0x43, 0x44, 0x45, 0x48, 0x4a, 0x5a, 0x0a, 0x05, 0x07, 0x0b,
                ]));
            }
        }
        5 => {
            let op = r.next() as u8;
            for _ in 0..r.below(2000) {
                a.op(op);
            }
        }
        6 => {
            // loops over everything
            a.op(0x5b);
            for _ in 0..1 + r.below(12) {
                for _ in 0..r.below(8) {
                    a.push(word(r));
                }
                a.op(r.next() as u8);
            }
            a.n(0).op(0x56);
        }
        _ => {
            let n = r.below(200) as usize;
            a.code = r.bytes(n);
            a.code.push(0x60 + r.below(32) as u8);
        }
    }
    a.code
}
fn mangle(r: &mut Rng, v: &mut Vec<u8>) {
    for _ in 0..1 + r.below(4) {
        if v.is_empty() {
            return;
        }
        let i = r.below(v.len() as u64) as usize;
        match r.below(5) {
            0 => v[i] = r.next() as u8,
            1 => v[i] ^= 1 << r.below(8),
            2 => v.truncate(i),
            3 => v.insert(i, r.next() as u8),
            _ => {
                let j = (i + 32).min(v.len());
                let w = word(r).to_be_bytes::<32>();
                v[i..j].copy_from_slice(&w[..j - i]);
            }
        }
    }
}
fn hostile_world(r: &mut Rng, sc: &mut Scenario) {
    let mut w = (*sc.world).clone();
    let addrs: Vec<Address> = w.keys().copied().collect();
    for a in addrs {
        let x = w.get_mut(&a).unwrap();
        if !x.code.is_empty() && is_7702(&x.code).is_none() && r.pct(60) {
            let mut c = x.code.to_vec();
            if r.pct(40) {
                mangle(r, &mut c);
            } else {
                c = garbage(r);
            }
            // 0xef only ever starts a delegation in a consistent state
            if c.first() == Some(&0xef) {
                c[0] = 0xee;
            }
            x.code = c.into();
        }
        if r.pct(15) {
            // the total supply fits 256 bits
            x.balance = word(r) >> 8usize;
        }
        if r.pct(8) {
            x.nonce = num(r);
        }
        if r.pct(20) {
            x.storage.insert(U256::from(r.below(4)), word(r));
        }
        if r.pct(5) {
            x.storage.insert(word(r), word(r));
        }
    }
    if r.pct(30) {
        let l1 = w.entry(gen::L1BLOCK).or_default();
        l1.nonce = 1;
        l1.code = Bytes::from_static(&[0]);
        for k in [1u64, 3, 5, 6, 7, 8] {
            if r.pct(50) {
                // the fee parameters of an honest L1 fit 64 bits
                l1.storage.insert(U256::from(k), U256::from(num(r) >> 8) << (64 * r.below(3) as usize));
            }
        }
    }
    normalize(&mut w);
    sc.world = Arc::new(w);
    let mut o = std::collections::BTreeMap::new();
    for _ in 0..r.below(6) {
        o.insert(if r.pct(70) { U256::from(r.below(4)) } else { word(r) }, word(r));
    }
    sc.oracle = Arc::new(o);
    if r.pct(50) {
        sc.salt_mode = HOSTILE_SALT + r.below(1000);
    }
    let b = &mut sc.block;
    if r.pct(15) {
        b.number = num(r).max(1);
    }
    if r.pct(15) {
        b.timestamp = num(r);
    }
    if r.pct(10) {
        b.basefee = num(r);
    }
    if r.pct(10) {
        b.gas_limit = num(r);
    }
    if r.pct(10) {
        b.blob_price = num(r) as u128 * num(r) as u128;
    }
    if r.pct(15) {
        b.beneficiary = *r.pick(&[Address::ZERO, ORACLE, KEYLESS, crate::model::SYSTEM, precompile_addr(1), gen::L1BLOCK, con(0)]);
    }
    // a keyless deployment may ask for as much gas as the block has, under the default compute limit
    if sc.txs.iter().any(|t| t.to == Some(KEYLESS)) {
        b.gas_limit = b.gas_limit.min(20_000_000);
    }
    if r.pct(15) && sc.spec != S::EQUIVALENCE {
        let v = |r: &mut Rng, hi: u64| {
            let x = num(r);
            if x > 1 << 40 {
                x
            } else {
                x.min(hi)
            }
        };
        sc.limits.data = v(r, 1 << 30);
        sc.limits.kv = v(r, 1 << 30);
        sc.limits.growth = v(r, 1 << 30);
        sc.limits.cap_block = v(r, 1 << 30);
        sc.limits.cap_oracle = v(r, 1 << 30);
        // the compute limit bounds the run time
        sc.limits.compute = num(r).min(8_000_000);
    }
    if r.pct(15) {
        sc.chain_id = num(r);
    }
    if r.pct(10) {
        sc.max_code = Some(*r.pick(&[0, 1, usize::MAX, usize::MAX / 2]));
        sc.max_initcode = Some(*r.pick(&[0, 1, usize::MAX, usize::MAX / 2]));
    }
}
fn hostile_tx(r: &mut Rng, sc: &Scenario, t: &mut TxSpec) {
    if t.to.is_none() && r.pct(60) {
        t.input = garbage(r).into();
    } else if r.pct(30) {
        let mut v = t.input.to_vec();
        if r.pct(50) {
            mangle(r, &mut v);
        } else {
            let n = r.below(400) as usize;
            v = r.bytes(n);
        }
        t.input = v.into();
    }
    if r.pct(10) {
        t.value = word(r);
    }
    if r.pct(8) {
        t.gas_price = num(r) as u128 * num(r) as u128;
        t.prio = if r.pct(50) { t.gas_price } else { num(r) as u128 * num(r) as u128 };
    }
    if r.pct(6) {
        t.nonce = num(r);
        t.auto_nonce = false;
    }
    if r.pct(8) {
        t.mint = num(r) as u128 * num(r) as u128;
    }
    if r.pct(10) {
        let n = r.below(60) as usize;
        t.enveloped = r.bytes(n).into();
    }
    if r.pct(6) {
        t.ty = *r.pick(&[TxType::Legacy, TxType::Access, TxType::Dynamic, TxType::SetCode, TxType::Deposit]);
    }
    if r.pct(6) {
        for _ in 0..r.below(40) {
            t.access_list.push((Address::from_slice(&r.bytes(20)), (0..r.below(20)).map(|_| B256::from(word(r))).collect()));
        }
    }
    if r.pct(6) {
        for _ in 0..r.below(20) {
            t.auths.push(AuthSpec { authority: r.pct(90).then(|| *r.pick(&[eoa(0), eoa(1), del(2), con(0), ORACLE, Address::ZERO])), chain_id: num(r), nonce: num(r), delegate: *r.pick(&[Address::ZERO, ORACLE, KEYLESS, con(0), precompile_addr(2)]) });
        }
    }
    // gas decides the run time: enormous gas only with code that ends at once, or under a small compute limit
    let small = t.to.is_some_and(|a| sc.world.get(&a).is_none_or(|x| x.code.is_empty())) && t.auths.is_empty();
    if r.pct(10) {
        t.gas_limit = if small {
            num(r)
        } else if sc.spec != S::EQUIVALENCE {
            num(r).min(200_000_000)
        } else {
            num(r).min(5_000_000)
        };
    }
}
pub fn transactions(c: &Ctx, secs: u64) {
    let p = Profile { max_txs: 4, raw: 6, tx_bad: 8, tx_keyless: 12, tx_7702: 12, gas_hi: 3_000_000, ..Profile::default() };
    let m = Module {
        name: "hostile-transactions",
        quick: 3_000_000,
        thorough: 200_000_000,
        quick_secs: secs,
        thorough_secs: secs * 60,
        rule: "random bytecode (noise, every opcode at every stack depth, full stacks, endless loops, truncated pushes, mutated programs), extreme transaction and block fields, extreme SALT capacities, limits, oracle contents and L1 fee parameters, mutated keyless transactions; each is executed with integer-overflow checks, debug assertions and the standard library's unsafe-precondition checks on, plain and inspected, on an instance that keeps running; a panic, an abort, a fatal signal or more than 100 s of CPU time in one case is a violation; distinct = different (spec, outcome, gas, usages)",
    };
    c.par(&m, |i, st| {
        let mut sc = gen::scenario(c.seed, i, &p, "C22/tx");
        let mut r = Rng::stream(c.seed, "C22/hostile", i);
        hostile_world(&mut r, &mut sc);
        let mut evm = make(&sc).with_inspector(recorder());
        use mega_evm::alloy_evm::Evm as _;
        let mut w = sc.world.clone();
        let mut txs = sc.txs.clone();
        for (k, t) in txs.iter_mut().enumerate() {
            hostile_tx(&mut r, &sc, t);
            if t.auto_nonce {
                t.nonce = w.get(&t.caller).map_or(0, |a| a.nonce);
            }
            evm.evm.set_inspector_enabled(r.pct(30));
            if k > 0 && r.pct(20) {
                sc.block.number = sc.block.number.wrapping_add(r.below(3)).max(1);
                let mut b = real::block_env(&sc.block);
                if r.pct(20) {
                    b.number = word(&mut r).max(U256::from(1));
                    b.timestamp = word(&mut r);
                }
                evm.evm.ctx_mut().set_block(b);
            }
            if std::env::var("MON_DBG").is_ok() {
                eprintln!("{:?} block {:?} limits {:?} max_code {:?}/{:?} tx {t:?}", sc.spec, sc.block, sc.limits, sc.max_code, sc.max_initcode);
            }
            let o = evm.tx(t);
            st.txs += 1;
            *st.statuses.entry(match &o.o.status { Status::Err(_) => "Rejected".into(), s => status_class(s) }).or_default() += 1;
            st.note(&format!("{:?}|{}|{}|{}", sc.spec, o.halt, o.o.gas_used, o.o.compute));
            if r.pct(70) {
                w = Arc::new(o.o.world);
                evm.set_world(w.clone());
            }
        }
        vec![]
    });
}
/// Deep recursion of every kind on a small stack.
pub fn recursion(c: &Ctx, secs: u64) {
    let m = Module {
        name: "recursion",
        quick: 7 * 8,
        thorough: 7 * 8 * 4,
        quick_secs: secs,
        thorough_secs: secs * 4,
        rule: "calls and creations nested as deep as gas and the depth limit allow (CALL, CALLCODE, DELEGATECALL, STATICCALL, CREATE, CREATE2, through delegated accounts, and from inside a keyless deployment) on a thread with a 4 MiB stack, plain and inspected; exhausting the stack kills the process, which is a violation; distinct = (spec, kind, outcome, gas)",
    };
    c.par(&m, |i, st| {
        let spec = SPECS[(i % 7) as usize];
        let kind = (i / 7) % 8;
        let out = std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || crate::report::guard(|| {
                let mut a = Asm::default();
                match kind {
                    0 | 6 | 7 => drop(a.n(0).n(0).n(0).n(0).n(0).op(0x30).op(0x5a).op(0xf1)),
                    1 => drop(a.n(0).n(0).n(0).n(0).n(0).op(0x30).op(0x5a).op(0xf2)),
                    2 => drop(a.n(0).n(0).n(0).n(0).a(con(0)).op(0x5a).op(0xf4)),
                    3 => drop(a.n(0).n(0).n(0).n(0).op(0x30).op(0x5a).op(0xfa)),
                    4 => drop(a.op(0x38).n(0).n(0).op(0x39).op(0x38).n(0).n(0).op(0xf0)),
                    _ => drop(a.op(0x38).n(0).n(0).op(0x39).n(3).op(0x38).n(0).n(0).op(0xf5)),
                }
                let mut sc = crate::forks::plain(spec, a.code.clone(), i as u8);
                let mut w = (*sc.world).clone();
                let gas = 100_000_000_000_000u64;
                sc.block.gas_limit = gas;
                let mut t = TxSpec::call(eoa(0), con(0), gas);
                if matches!(kind, 4 | 5) {
                    t.to = None;
                    t.input = a.code.clone().into();
                }
                if kind == 6 {
                    let mut code = vec![0xef, 1, 0];
                    code.extend_from_slice(con(0).as_slice());
                    w.insert(del(0), Acct { nonce: 1, code: code.into(), ..Default::default() });
                    t.to = Some(del(0));
                }
                if kind == 7 {
                    // the init code of a keyless deployment calls the keyless contract and a deep recursion
                    let mut ic = Asm::default();
                    ic.n(0).n(0).n(0).n(0).n(0).a(con(0)).op(0x5a).op(0xf1);
                    ic.n(0).n(0).n(100).n(0).n(0).a(KEYLESS).op(0x5a).op(0xf1);
                    let (raw, signer) = gen::keyless_raw(ic.code.into(), 100_000, 0, U256::ZERO, 0, None, None, 0x18);
                    w.insert(signer.unwrap(), Acct { balance: gen::eth(1), ..Default::default() });
                    w.insert(KEYLESS, Acct { nonce: 1, code: Bytes::from_static(&[0x5f, 0x5f, 0xfd]), ..Default::default() });
                    t.to = Some(KEYLESS);
                    t.input = gen::keyless_calldata(&raw, U256::from(50_000_000_000_000u64));
                }
                sc.world = Arc::new(w);
                t.nonce = 1;
                let a = make(&sc).tx(&t);
                let mut e = make(&sc).with_inspector(recorder());
                use mega_evm::alloy_evm::Evm as _;
                e.evm.set_inspector_enabled(true);
                let b = e.tx(&t);
                (status_class(&a.o.status), a.o.gas_used, b.o.gas_used, e.evm.inspector().calls + e.evm.inspector().creates)
            }))
            .unwrap()
            .join();
        let (s, gas, gas2, depth) = match out {
            Ok(crate::report::Caught::Done(x)) => x,
            Ok(crate::report::Caught::Panicked(e)) => return vec![format!("{spec:?} kind {kind}: {e}")],
            Ok(crate::report::Caught::Internal(e)) => panic!("{e}"),
            Err(_) => panic!("recursion thread"),
        };
        st.txs += 2;
        st.note(&format!("{spec:?}{kind}{s}{gas}"));
        if depth > 300 {
            st.hit("frames_over_300");
        }
        if depth > 1000 {
            st.hit("frames_over_1000");
        }
        *st.statuses.entry(s).or_default() += 1;
        if gas != gas2 {
            return vec![format!("{spec:?} kind {kind}: gas {gas} and, inspected, {gas2}")];
        }
        vec![]
    });
}
/// Hostile blocks through the block executor.
pub fn blocks(c: &Ctx, secs: u64) {
    let p = Profile { max_txs: 6, raw: 6, tx_bad: 8, tx_keyless: 8, tx_7702: 10, tx_deposit: 15, gas_hi: 2_000_000, ..Profile::default() };
    let m = Module {
        name: "hostile-blocks",
        quick: 1_000_000,
        thorough: 60_000_000,
        quick_secs: secs,
        thorough_secs: secs * 60,
        rule: "the same kind of worlds and transactions as signed envelopes through the block executor with extreme block limits; distinct = different (spec, receipts, gas)",
    };
    c.par(&m, |i, st| {
        let mut sc = gen::scenario(c.seed, i, &p, "C22/block");
        let mut r = Rng::stream(c.seed, "C22/hblock", i);
        let ts0 = sc.block.timestamp;
        hostile_world(&mut r, &mut sc);
        if sc.block.timestamp < ts0 {
            sc.block.timestamp = ts0;
        }
        let ts = sc.block.timestamp;
        let at = block::schedule_for(&mut r, sc.spec, ts.min(u64::MAX - 1000));
        sc.spec = block::ref_spec(&at, ts);
        sc.limits.compute = sc.limits.compute.min(8_000_000);
        let mut l = BlockLimits::no_limits().with_tx_runtime_limits(real::rt_limits(sc.limits)).with_block_gas_limit(sc.block.gas_limit);
        for _ in 0..r.below(4) {
            let v = num(&mut r);
            match r.below(9) {
                0 => l.tx_gas_limit = v,
                1 => l.tx_encode_size_limit = v,
                2 => l.block_txs_encode_size_limit = v,
                3 => l.tx_da_size_limit = v,
                4 => l.block_da_size_limit = v,
                5 => l.block_txs_data_limit = v,
                6 => l.block_kv_update_limit = v,
                7 => l.block_compute_gas_limit = v,
                _ => l.block_state_growth_limit = v,
            }
        }
        let mut db = MonDb::new(sc.world.clone());
        db.lazy_code = sc.lazy_code;
        let mut state = State::builder().with_database(db).with_bundle_update().build();
        let envf = block::EnvF { mode0: sc.salt_mode, log: Rc::default(), oracle: sc.oracle.clone(), hints: Rc::default(), asked: Rc::default() };
        let f = MegaBlockExecutorFactory::new(block::config(&at), MegaEvmFactory::new().with_external_env_factory(envf), OpAlloyReceiptBuilder::default());
        let ctx = MegaBlockExecutionCtx::new(B256::repeat_byte(7), r.pct(95).then(|| B256::repeat_byte(8)), Bytes::new(), l);
        let ee = mega_evm::alloy_evm::EvmEnv { cfg_env: real::cfg_of(&sc), block_env: real::block_env(&sc.block) };
        let mut ex = f.create_executor(&mut state, ctx, ee);
        use mega_evm::alloy_consensus::transaction::Recovered;
        use mega_evm::alloy_evm::block::BlockExecutor;
        if ex.apply_pre_execution_changes().is_err() {
            st.hit("pre_block_error");
            return vec![];
        }
        let mut n = 0u64;
        let txs = sc.txs.clone();
        for t in txs {
            let mut t = t;
            hostile_tx(&mut r, &sc, &mut t);
            if t.auto_nonce {
                use mega_evm::alloy_evm::Evm as _;
                use mega_evm::revm::Database;
                t.nonce = ex.evm.db_mut().basic(t.caller).ok().flatten().map_or(0, |a| a.nonce);
            }
            let (e, t) = block::envelope(&t, sc.chain_id, 1 + r.below(250) as u8);
            let e = Recovered::new_unchecked(e, t.caller);
            st.txs += 1;
            if std::env::var("MON_DBG").is_ok() {
                eprintln!("{:?} block {:?} limits {:?} max_code {:?}/{:?} tx {t:?}", sc.spec, sc.block, sc.limits, sc.max_code, sc.max_initcode);
            }
            match ex.execute_transaction(&e) {
                Ok(_) => {
                    n += 1;
                    st.hit("executed");
                }
                Err(_) => st.hit("rejected"),
            }
        }
        let used = match ex.finish() {
            Ok((_, res)) => res.gas_used,
            Err(e) => return vec![format!("finish failed: {e:?}")],
        };
        st.hit("block_finished");
        st.note(&format!("{:?}|{n}|{used}", sc.spec));
        vec![]
    });
}
