//! Workload generator: structured random worlds, programs and transactions with tiny key/value/address
//! domains (so that collisions, reverts, re-use and aliasing are the norm), biased by a `Profile`.
use crate::env::*;
use crate::model::{lim_default, KEYLESS, ORACLE, SYSTEM};
use crate::rng::Rng;
use mega_evm::alloy_primitives::{Address, Bytes, B256, U256};
use mega_evm::MegaSpecId;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const SPECS: [MegaSpecId; 7] = [
    MegaSpecId::EQUIVALENCE,
    MegaSpecId::MINI_REX,
    MegaSpecId::REX,
    MegaSpecId::REX1,
    MegaSpecId::REX2,
    MegaSpecId::REX3,
    MegaSpecId::REX4,
];
pub const MEGA_SPECS: [MegaSpecId; 6] = [
    MegaSpecId::MINI_REX,
    MegaSpecId::REX,
    MegaSpecId::REX1,
    MegaSpecId::REX2,
    MegaSpecId::REX3,
    MegaSpecId::REX4,
];

/// Relative weights of what the generated programs and transactions do.
#[derive(Clone, Debug)]
pub struct Profile {
    pub specs: Vec<MegaSpecId>,
    pub sstore: u64,
    pub sload: u64,
    pub call: u64,
    pub create: u64,
    pub env: u64,
    pub acct: u64,
    pub destroy: u64,
    pub log: u64,
    pub arith: u64,
    pub mem: u64,
    pub burn: u64,
    pub precompile: u64,
    /// percent of scenarios around an address that is created, destroyed and created again
    pub recreate: u64,
    /// per mille of scenarios with a recursion to the depth limit
    pub deep: u64,
    /// percent of scenarios with a precompile supplied by the environment
    pub over: u64,
    pub oracle: u64,
    pub raw: u64,
    pub stop: u64,
    /// percent of scenarios with tightened limits / caps
    pub tight: u64,
    pub tight_compute: u64,
    pub tight_caps: u64,
    /// percent of transactions of each flavour
    pub tx_create: u64,
    pub tx_system: u64,
    pub tx_keyless: u64,
    pub tx_deposit: u64,
    pub tx_7702: u64,
    pub tx_oracle: u64,
    pub tx_value: u64,
    /// percent of transactions with a deliberately wrong envelope
    pub tx_bad: u64,
    /// percent of transactions with little gas
    pub low_gas: u64,
    pub salt: u64,
    pub max_txs: u64,
    /// percent of scenarios whose beneficiary is somebody interesting
    pub hot_beneficiary: u64,
    /// percent of scenarios with configured code size limits
    pub sizes: u64,
    pub gas_hi: u64,
}
impl Default for Profile {
    fn default() -> Self {
        Profile {
            specs: SPECS.to_vec(),
            sstore: 12,
            sload: 5,
            call: 16,
            create: 6,
            env: 4,
            acct: 4,
            destroy: 2,
            log: 5,
            arith: 12,
            mem: 8,
            burn: 3,
            precompile: 3,
            recreate: 3,
            deep: 3,
            over: 0,
            oracle: 3,
            raw: 1,
            stop: 3,
            tight: 35,
            tight_compute: 15,
            tight_caps: 20,
            tx_create: 15,
            tx_system: 5,
            tx_keyless: 4,
            tx_deposit: 8,
            tx_7702: 8,
            tx_oracle: 5,
            tx_value: 35,
            tx_bad: 4,
            low_gas: 25,
            salt: 70,
            max_txs: 3,
            hot_beneficiary: 40,
            sizes: 10,
            gas_hi: 6_000_000,
        }
    }
}

pub fn addr(tag: u8, i: u8) -> Address {
    let mut b = [0x11u8; 20];
    b[0] = tag;
    b[19] = i;
    Address::from(b)
}
pub fn eoa(i: u8) -> Address {
    addr(0xe0, i)
}
pub fn con(i: u8) -> Address {
    addr(0xc0, i)
}
pub fn del(i: u8) -> Address {
    addr(0xd0, i)
}
pub fn none(i: u8) -> Address {
    addr(0xa0, i)
}
/// A valid point evaluation (EIP-4844 test vector) and a valid P-256 signature.
pub const KZG: &str = "01e798154708fe7789429634053cbf9f99b619f9f084048927333fce637f549b73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff000000001522a4a7f34e1ea350ae07c29c96c7e79655aa926122e95fe69fcbd932ca49e98f59a8d2a1a625a17f3fea0fe5eb8c896db3764f3185481bc22f91b4aaffcca25f26936857bc3a7c2539ea8ec3a952b7a62ad71d14c5719385c0686f1871430475bf3a00f0aa3f7b8dd99a9abc2160744faf0070725e00b60ad9a026a15b1a8c";
const P256: &str = "4cee90eb86eaa050036147a12d49004b6b9c72bd725d39d4785011fe190f0b4da73bd4903f0ce3b639bbbf6e8e80d16931ff4bcf5993d58468e8fb19086e8cac36dbcd03009df8c59286b162af3bd7fcc0450c9aa81be5d10d312af6c66b1d604aebd3099c618202fcfe16ae7770b0c49ab5eadf74b754204a3bb6060e44eff37618b065f9832de4ca6ca971a7a1adc826d0f7c00181a5fb2ddf79ae00b4e10e";
pub fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn precompile_addr(n: u16) -> Address {
    let mut b = [0u8; 20];
    b[18] = (n >> 8) as u8;
    b[19] = n as u8;
    Address::from(b)
}
pub const L1BLOCK: Address = mega_evm::alloy_primitives::address!("4200000000000000000000000000000000000015");

/// Assembler with a data section addressed through 2-byte placeholders.
#[derive(Default, Clone)]
pub struct Asm {
    pub code: Vec<u8>,
    blobs: Vec<(usize, Vec<u8>)>,
}
impl Asm {
    pub fn op(&mut self, o: u8) -> &mut Self {
        self.code.push(o);
        self
    }
    pub fn push(&mut self, v: U256) -> &mut Self {
        let b = v.to_be_bytes::<32>();
        let s = b.iter().position(|x| *x != 0).unwrap_or(32);
        self.code.push(0x5f + (32 - s) as u8);
        self.code.extend_from_slice(&b[s..]);
        self
    }
    pub fn n(&mut self, v: u64) -> &mut Self {
        self.push(U256::from(v))
    }
    pub fn a(&mut self, a: Address) -> &mut Self {
        self.code.push(0x73);
        self.code.extend_from_slice(a.as_slice());
        self
    }
    /// pushes the code offset of `data`
    pub fn blob(&mut self, data: Vec<u8>) -> &mut Self {
        self.code.push(0x61);
        self.blobs.push((self.code.len(), data));
        self.code.extend_from_slice(&[0, 0]);
        self
    }
    pub fn build(mut self) -> Vec<u8> {
        if !self.blobs.is_empty() {
            self.code.push(0x00);
        }
        for (p, d) in std::mem::take(&mut self.blobs) {
            let off = self.code.len().min(0xffff);
            self.code[p] = (off >> 8) as u8;
            self.code[p + 1] = off as u8;
            self.code.extend_from_slice(&d);
        }
        self.code
    }
}

pub struct Gen<'a> {
    pub r: Rng,
    pub p: &'a Profile,
    pub spec: MegaSpecId,
    pub beneficiary: Address,
    /// accounts that keyless signers / created contracts may land on
    pub extra: Vec<Address>,
    pub over: Option<Over>,
    pub price: Option<u64>,
}
/// What the precompile charges for the input.
fn price(spec: MegaSpecId, t: Address, input: &[u8]) -> Option<u64> {
    use mega_evm::revm::precompile;
    let mr = spec >= MegaSpecId::MINI_REX;
    if t == precompile_addr(10) {
        return Some(if mr { 100_000 } else { 50_000 });
    }
    if mr && t == precompile_addr(5) {
        return precompile::modexp::osaka_run(input, 1_000_000).ok().map(|o| o.gas_used);
    }
    mega_evm::op_revm::precompiles::isthmus().get(&t).and_then(|p| p(input, 1_000_000).ok()).map(|o| o.gas_used)
}
fn w(c: &mut u64, x: u64) -> bool {
    if *c < x {
        true
    } else {
        *c -= x;
        false
    }
}

impl Gen<'_> {
    pub fn pool(&mut self) -> Address {
        match self.r.below(100) {
            0..=29 => con(self.r.below(6) as u8),
            30..=39 => eoa(self.r.below(4) as u8),
            40..=53 => del(self.r.below(6) as u8),
            54..=67 => none(self.r.below(4) as u8),
            68..=74 => precompile_addr(*self.r.pick(&[1u16, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 0x100])),
            75..=80 => ORACLE,
            81..=82 => KEYLESS,
            83 => SYSTEM,
            84..=88 => self.beneficiary,
            89..=93 if !self.extra.is_empty() => {
                let i = self.r.below(self.extra.len() as u64) as usize;
                self.extra[i]
            }
            94..=95 => con(0).create(self.r.below(3)),
            96 => con(1).create(self.r.below(3)),
            97 => L1BLOCK,
            98 => Address::ZERO,
            _ => con(self.r.below(6) as u8),
        }
    }
    fn key(&mut self) -> U256 {
        match self.r.below(20) {
            0 => U256::MAX,
            1 => U256::from(1) << 200,
            n => U256::from(n % 4),
        }
    }
    fn val(&mut self) -> U256 {
        match self.r.below(10) {
            0 => U256::MAX,
            1..=4 => U256::ZERO,
            n => U256::from(n % 3 + 1),
        }
    }
    fn off(&mut self) -> u64 {
        match self.r.below(30) {
            0 => 0x1000 + self.r.below(64),
            1 => 0x8000,
            _ => self.r.below(6) * 32 + if self.r.pct(20) { self.r.below(32) } else { 0 },
        }
    }
    fn len(&mut self) -> u64 {
        match self.r.below(20) {
            0 => 0x400,
            1 => self.r.below(0x3000),
            2..=6 => 0,
            7..=12 => 32,
            _ => self.r.below(100),
        }
    }
    fn offlen(&mut self, a: &mut Asm) {
        // pushes len then offset (so that offset is on top)
        if self.r.pct(1) {
            a.push(self.key()).push(self.key());
            return;
        }
        let l = self.len();
        a.n(l);
        if l == 0 && self.r.pct(10) {
            a.push(U256::from(1) << 70);
        } else {
            let o = self.off();
            a.n(o);
        }
    }
    /// pushes a call gas amount
    fn gas(&mut self, a: &mut Asm) {
        match self.r.below(14) {
            0..=5 => {
                a.op(0x5a);
            }
            6 => {
                a.push(U256::MAX);
            }
            7 => {
                a.n(0);
            }
            8 => {
                a.n(2300);
            }
            9 => {
                a.n(self.r.below(5000));
            }
            10 => {
                // GAS / 2
                a.n(2).op(0x5a).op(0x04);
            }
            11 => {
                a.n(self.r.below(200_000));
            }
            _ => {
                a.n(20_000 + self.r.below(2_100_000));
            }
        }
    }
    fn value(&mut self, a: &mut Asm) {
        match self.r.below(20) {
            0 => {
                a.push(U256::MAX);
            }
            1 => {
                a.op(0x47);
            }
            2..=8 => {
                a.n(1 + self.r.below(3));
            }
            _ => {
                a.n(0);
            }
        }
    }
    /// fills memory for the call and leaves (len, off) pushed
    fn calldata(&mut self, a: &mut Asm, target: Address) {
        if target == ORACLE && self.r.pct(60) {
            if self.r.pct(50) {
                let h = self.hint_data();
                let n = h.len() as u64;
                a.n(n).blob(h).n(0x40).op(0x39);
                a.n(n).n(0x40);
            } else {
                let k = self.key();
                a.push(k).n(0).op(0x52).n(32).n(0);
            }
            return;
        }
        if target < precompile_addr(0x101) && self.r.pct(80) {
            let d = self.precompile_input(target);
            if self.p.precompile >= 20 && self.r.pct(40) {
                self.price = price(self.spec, target, &d);
            }
            let n = d.len() as u64;
            if n > 0 {
                a.n(n).blob(d).n(0x40).op(0x39);
            }
            a.n(n).n(0x40);
            return;
        }
        self.offlen(a);
    }
    pub fn hint_data(&mut self) -> Vec<u8> {
        let mut v = mega_evm::alloy_primitives::keccak256(b"sendHint(bytes32,bytes)")[..4].to_vec();
        v.extend_from_slice(&U256::from(self.r.below(3)).to_be_bytes::<32>());
        let off = if self.r.pct(90) { 64 } else { self.r.below(300) };
        v.extend_from_slice(&U256::from(off).to_be_bytes::<32>());
        let n = self.r.below(50) as usize;
        v.extend_from_slice(&U256::from(n).to_be_bytes::<32>());
        let mut d = self.r.bytes(n);
        if self.r.pct(85) {
            d.resize(n.div_ceil(32) * 32, 0);
        }
        v.extend_from_slice(&d);
        if self.r.pct(10) {
            v.truncate(self.r.below(v.len() as u64) as usize);
        }
        v
    }
    pub fn precompile_input(&mut self, t: Address) -> Vec<u8> {
        let n = u16::from_be_bytes([t[18], t[19]]);
        match n {
            1 => {
                let mut v = vec![0x42; 32];
                v.extend_from_slice(&U256::from(27 + self.r.below(3)).to_be_bytes::<32>());
                v.extend_from_slice(&[0x11; 64]);
                v
            }
            5 => {
                let (b, e, m) = (self.r.below(40), self.r.below(40), self.r.below(40));
                let mut v = vec![];
                for x in [b, e, m] {
                    v.extend_from_slice(&U256::from(x).to_be_bytes::<32>());
                }
                if self.r.pct(10) {
                    let i = self.r.below(3) as usize;
                    let x = *self.r.pick(&[1024u64, 1025, 2048, u64::MAX]);
                    v[i * 32..i * 32 + 32].copy_from_slice(&U256::from(x).to_be_bytes::<32>());
                }
                let body = self.r.bytes((b + e + m) as usize);
                v.extend_from_slice(&body);
                v
            }
            6 | 7 => {
                let mut v = vec![];
                for x in [1u64, 2, 1, 2] {
                    v.extend_from_slice(&U256::from(x).to_be_bytes::<32>());
                }
                if self.r.pct(20) {
                    v[5] = 7;
                }
                v
            }
            9 => {
                let mut v = vec![0u8; 213];
                v[3] = self.r.below(30) as u8;
                v[212] = self.r.below(3) as u8;
                if self.r.pct(10) {
                    v.pop();
                }
                v
            }
            // (loading the trusted setup takes seconds)
            10 if self.p.precompile >= 20 => {
                let mut v = hex(KZG);
                if self.r.pct(20) {
                    let i = self.r.below(v.len() as u64) as usize;
                    v[i] ^= 1;
                }
                v
            }
            0x100 => {
                let mut v = hex(P256);
                if self.r.pct(30) {
                    let i = self.r.below(v.len() as u64) as usize;
                    v[i] ^= 1;
                }
                v
            }
            // points at infinity (and, for the maps, small field elements)
            8 | 11..=17 => {
                let unit = [192usize, 0, 0, 256, 160, 512, 288, 384, 64, 128][n as usize - 8];
                let k = if matches!(n, 8 | 12 | 14 | 15) { self.r.below(4) as usize } else { 1 };
                let mut v = vec![0u8; unit * k];
                if n >= 16 {
                    v[unit - 1] = self.r.below(256) as u8;
                    v[63] = self.r.below(256) as u8;
                }
                match self.r.below(12) {
                    0 => {
                        v.push(0);
                    }
                    1 if !v.is_empty() => {
                        let i = self.r.below(v.len() as u64) as usize;
                        v[i] = 1;
                    }
                    _ => {}
                }
                v
            }
            _ => {
                let n = self.r.below(120) as usize;
                self.r.bytes(n)
            }
        }
    }
    fn result(&mut self, a: &mut Asm) {
        match self.r.below(10) {
            0..=4 => {
                a.op(0x50);
            }
            5 => {
                let k = self.key();
                a.push(k).op(0x55);
            }
            6 => {
                // copy returndata
                a.op(0x50);
                a.op(0x3d).n(0).n(0x60).op(0x3e);
            }
            _ => {
                let o = self.off() % 0x100;
                a.n(o).op(0x52);
            }
        }
    }
    fn call(&mut self, a: &mut Asm, target: Address) {
        let scheme = *self.r.pick(&[0xf1u8, 0xf1, 0xf1, 0xf1, 0xf4, 0xf4, 0xf2, 0xfa, 0xfa]);
        let mut tmp = Asm { code: vec![], blobs: vec![] };
        self.calldata(&mut tmp, target);
        // out len/off must be pushed before in len/off
        let mut outs = Asm::default();
        self.offlen(&mut outs);
        // emit: setup of calldata needs an empty relation with the stack, so emit out first
        a.code.extend_from_slice(&outs.code);
        let base = a.code.len();
        for (p, d) in tmp.blobs {
            a.blobs.push((base + p, d));
        }
        a.code.extend_from_slice(&tmp.code);
        if matches!(scheme, 0xf1 | 0xf2) {
            self.value(a);
        }
        a.a(target);
        match self.price.take() {
            // exactly the price, one less, one more
            Some(p) => {
                a.n((p + self.r.below(3)).saturating_sub(1));
            }
            None => self.gas(a),
        }
        a.op(scheme);
        self.result(a);
    }
    pub fn runtime(&mut self, depth: u32) -> Vec<u8> {
        match self.r.below(12) {
            0 => vec![],
            1 => vec![0xef, 0x00],
            2 => vec![0x00; *self.r.pick(&[1usize, 24, 300, 0x700])],
            3 => vec![0x5b, 0x60, 0x00, 0x56],
            4 => {
                let mut v = vec![0xef, 0x01, 0x00];
                v.extend_from_slice(con(0).as_slice());
                v
            }
            _ => self.program(depth + 2, 3),
        }
    }
    pub fn initcode(&mut self, depth: u32) -> Vec<u8> {
        if self.r.pct(5) {
            return vec![];
        }
        let mut a = Asm::default();
        let n = self.r.below(3);
        for _ in 0..n {
            self.stmt(&mut a, depth + 1);
        }
        match self.r.below(20) {
            0 => {
                a.n(self.len()).n(0).op(0xfd);
            }
            1 => {
                a.op(0xfe);
            }
            2 => {
                let t = self.pool();
                a.a(t).op(0xff);
            }
            3 => {
                a.op(0x00);
            }
            4 => {
                // big code
                a.n(*self.r.pick(&[0x300u64, 0x6000, 0x6001])).n(0).op(0xf3);
            }
            _ => {
                let c = self.runtime(depth);
                let n = c.len() as u64;
                a.n(n).blob(c).n(0).op(0x39);
                a.n(n).n(0).op(0xf3);
            }
        }
        a.build()
    }
    fn create(&mut self, a: &mut Asm, depth: u32) {
        if depth > 2 {
            return;
        }
        let two = self.r.pct(50);
        let c = if self.r.pct(20) { vec![] } else { self.initcode(depth) };
        let n = c.len() as u64;
        if n > 0 {
            a.n(n).blob(c).n(0x20).op(0x39);
        }
        if two {
            a.n(self.r.below(2));
        }
        if self.r.pct(8) {
            // arbitrary memory range as initcode, possibly not yet expanded
            a.n(self.r.below(0x2000)).n(self.r.below(0x2000));
        } else if n == 0 && self.r.pct(30) {
            a.n(0).push(U256::from(1) << 80);
        } else {
            a.n(n).n(0x20);
        }
        self.value(a);
        a.op(if two { 0xf5 } else { 0xf0 });
        if self.r.pct(25) {
            // call what was just created
            let k = self.r.below(4);
            a.n(0).n(0).n(0).n(0);
            if self.r.pct(50) {
                a.n(1);
            } else {
                a.n(0);
            }
            a.op(0x85); // DUP6
            if k == 0 {
                a.n(100_000);
            } else {
                a.op(0x5a);
            }
            a.op(0xf1).op(0x50);
        }
        self.result(a);
    }
    pub fn stmt(&mut self, a: &mut Asm, depth: u32) {
        let p = self.p.clone();
        let tot = p.sstore + p.sload + p.call + p.create + p.env + p.acct + p.destroy + p.log + p.arith + p.mem + p.burn + p.precompile + p.oracle + p.raw + p.stop;
        let mut c = self.r.below(tot);
        let c = &mut c;
        if w(c, p.sstore) {
            let (k, v) = (self.key(), self.val());
            if self.r.pct(12) {
                a.push(v).push(k).op(0x5d);
            } else {
                a.push(v).push(k).op(0x55);
            }
        } else if w(c, p.sload) {
            let k = self.key();
            a.push(k).op(if self.r.pct(15) { 0x5c } else { 0x54 });
            self.result(a);
        } else if w(c, p.call) {
            let t = self.pool();
            self.call(a, t);
        } else if w(c, p.create) {
            self.create(a, depth);
        } else if w(c, p.env) {
            match self.r.below(14) {
                0 => {
                    a.n(self.r.below(4)).op(0x40);
                }
                1 => {
                    a.n(self.r.below(2)).op(0x49);
                }
                2 => {
                    a.op(*self.r.pick(&[0x30u8, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x46, 0x47, 0x58, 0x59]));
                }
                3 => {
                    a.op(0x5a);
                }
                _ => {
                    a.op(*self.r.pick(&[0x41u8, 0x42, 0x43, 0x44, 0x45, 0x48, 0x4a]));
                }
            }
            self.result(a);
        } else if w(c, p.acct) {
            let t = self.pool();
            match self.r.below(5) {
                0 => {
                    a.a(t).op(0x3b);
                }
                1 => {
                    a.a(t).op(0x3f);
                }
                2 => {
                    let l = self.len();
                    let o = self.off();
                    a.n(l).n(0).n(o).a(t).op(0x3c);
                    return;
                }
                3 => {
                    a.op(0x47);
                }
                _ => {
                    a.a(t).op(0x31);
                }
            }
            self.result(a);
        } else if w(c, p.destroy) {
            // guarded so that execution often continues
            let t = if self.r.pct(15) { None } else { Some(self.pool()) };
            match t {
                None => a.op(0x30),
                Some(t) => a.a(t),
            };
            a.op(0xff);
        } else if w(c, p.log) {
            let n = self.r.below(5) as u8;
            for _ in 0..n {
                let v = self.val();
                a.push(v);
            }
            self.offlen(a);
            a.op(0xa0 + n);
        } else if w(c, p.arith) {
            self.arith(a);
        } else if w(c, p.mem) {
            match self.r.below(7) {
                0 => {
                    let o = self.off();
                    a.push(self.val()).n(o).op(0x52);
                }
                1 => {
                    let o = self.off();
                    a.push(self.val()).n(o).op(0x53);
                }
                2 => {
                    let o = self.off();
                    a.n(o).op(0x51).op(0x50);
                }
                3 => {
                    a.n(self.len()).n(self.off()).n(self.off()).op(0x5e);
                }
                4 => {
                    a.n(self.len()).n(self.r.below(40)).n(self.off()).op(0x37);
                }
                5 => {
                    a.n(self.len()).n(self.r.below(40)).n(self.off()).op(0x39);
                }
                _ => {
                    self.offlen(a);
                    a.op(0x20);
                    self.result(a);
                }
            }
        } else if w(c, p.burn) {
            match self.r.below(3) {
                0 => {
                    let n = 1 + self.r.below(60);
                    a.n(n);
                    let l = a.code.len() as u64;
                    a.op(0x5b).n(1).op(0x90).op(0x03).op(0x80);
                    a.op(0x61);
                    a.code.extend_from_slice(&(l as u16).to_be_bytes());
                    a.op(0x57).op(0x50);
                }
                1 => {
                    a.n(self.r.below(0x6000)).n(0).op(0x20).op(0x50);
                }
                _ => {
                    // conditional on call data / value
                    let mut inner = Asm::default();
                    self.stmt(&mut inner, depth + 1);
                    a.op(*self.r.pick(&[0x34u8, 0x36, 0x3d]));
                    a.op(0x61);
                    let at = a.code.len();
                    a.code.extend_from_slice(&[0, 0]);
                    a.op(0x57);
                    let base = a.code.len();
                    for (p, d) in inner.blobs {
                        a.blobs.push((base + p, d));
                    }
                    // the burn loop uses absolute jump targets: only keep position independent bodies
                    if !inner.code.contains(&0x57) {
                        a.code.extend_from_slice(&inner.code);
                    } else {
                        a.blobs.retain(|(p, _)| *p < base);
                    }
                    let l = a.code.len();
                    a.code[at..at + 2].copy_from_slice(&(l as u16).to_be_bytes());
                    a.op(0x5b);
                }
            }
        } else if w(c, p.precompile) {
            let mut t = precompile_addr(*self.r.pick(&[1u16, 2, 3, 4, 5, 5, 5, 6, 7, 8, 9, 10, 10, 10, 11, 12, 13, 14, 15, 16, 17, 0x100]));
            if let Some(o) = &self.over {
                if self.r.pct(60) {
                    t = o.addr;
                }
            }
            self.call(a, t);
        } else if w(c, p.oracle) {
            self.call(a, ORACLE);
        } else if w(c, p.raw) {
            a.op(self.r.below(256) as u8);
        } else {
            match self.r.below(12) {
                0 => {
                    a.op(0xfe);
                }
                1..=4 => {
                    self.offlen(a);
                    a.op(0xfd);
                }
                5 => {
                    a.op(0x00);
                }
                6 => {
                    a.op(0x50);
                }
                _ => {
                    self.offlen(a);
                    a.op(0xf3);
                }
            }
        }
    }
    /// Stack shuffling, environment information and the pushes: the opcodes that no other statement reaches often.
    fn misc(&mut self, a: &mut Asm) {
        match self.r.below(11) {
            0..=3 => {
                let n = 2 + self.r.below(16);
                for i in 0..n {
                    a.n(i * 7 + 1 + self.r.below(3));
                }
                let mut d = n;
                for _ in 0..1 + self.r.below(4) {
                    if self.r.pct(50) && d >= 2 {
                        a.op(0x8f + (1 + self.r.below((d - 1).min(16))) as u8);
                    } else {
                        a.op(0x7f + (1 + self.r.below(d.min(16))) as u8);
                        d += 1;
                    }
                }
                // fold what is left so that every position counts
                for _ in 1..d {
                    a.n(3).op(0x02).op(0x01);
                }
                self.result(a);
            }
            4 => {
                let (l, o) = (*self.r.pick(&[0u64, 0, 4, 32]), self.r.below(3));
                let at = self.off();
                if self.r.pct(60) {
                    a.op(0x3d).n(0).n(at).op(0x3e);
                } else {
                    a.n(l).n(o).n(at).op(0x3e);
                }
            }
            5 => {
                let o = *self.r.pick(&[0u64, 1, 4, 31, 36, 200]);
                a.n(o).op(0x35);
                self.result(a);
            }
            6..=8 => {
                a.op(*self.r.pick(&[0x30u8, 0x32, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x46, 0x47, 0x58, 0x59]));
                self.result(a);
            }
            9 => {
                let n = self.r.below(33) as usize;
                let d = self.r.bytes(n);
                a.op(0x5f + n as u8);
                a.code.extend_from_slice(&d);
                self.result(a);
            }
            _ => {
                if self.r.pct(10) {
                    let v = self.val();
                    a.push(v).op(0x1e);
                } else {
                    let (k, v) = (self.key(), self.val());
                    a.push(v).push(k).op(0x5d).push(k).op(0x5c);
                }
                self.result(a);
            }
        }
    }
    fn arith(&mut self, a: &mut Asm) {
        if self.r.pct(30) {
            return self.misc(a);
        }
        let big = |g: &mut Self| match g.r.below(6) {
            0 => U256::MAX,
            1 => U256::from(1) << 255,
            2 => U256::from(g.r.next()) << g.r.below(192),
            3 => U256::ZERO,
            4 => U256::MAX - U256::from(g.r.below(300)),
            _ => U256::from(g.r.below(300)),
        };
        let o = *self.r.pick(&[
            1u8, 2, 3, 4, 5, 6, 7, 8, 9, 0xa, 0xb, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d,
        ]);
        let (x, y, z) = (big(self), big(self), big(self));
        match o {
            8 | 9 => {
                a.push(x).push(y).push(z).op(o);
            }
            0x15 | 0x19 => {
                a.push(x).op(o);
            }
            _ => {
                a.push(x).push(y).op(o);
            }
        }
        if self.r.pct(30) {
            let m = self.r.below(256);
            a.n(m).op(0x52);
        } else {
            self.result(a);
        }
    }
    pub fn program(&mut self, depth: u32, max: u64) -> Vec<u8> {
        let mut a = Asm::default();
        let n = 1 + self.r.below(max);
        for _ in 0..n {
            self.stmt(&mut a, depth);
            if a.code.len() > 4000 {
                break;
            }
        }
        if self.r.pct(70) {
            let l = *self.r.pick(&[0u64, 32, 64, 320]);
            a.n(l).n(0).op(if self.r.pct(12) { 0xfd } else { 0xf3 });
        }
        a.build()
    }
}

/// A keyless (Nick's method) raw transaction and its recovered signer.
pub fn keyless_raw(init: Bytes, gas_limit: u64, gas_price: u128, value: U256, nonce: u64, chain_id: Option<u64>, to: Option<Address>, rs: u8) -> (Bytes, Option<Address>) {
    use mega_evm::alloy_consensus::{transaction::RlpEcdsaEncodableTx, SignableTransaction, TxLegacy};
    use mega_evm::alloy_primitives::Signature;
    let t = TxLegacy {
        chain_id,
        nonce,
        gas_price,
        gas_limit,
        to: to.map_or(mega_evm::alloy_primitives::TxKind::Create, mega_evm::alloy_primitives::TxKind::Call),
        value,
        input: init,
    };
    let rs = U256::from_be_bytes([rs; 32]);
    let sig = Signature::new(rs, rs, false);
    let mut out = vec![];
    t.rlp_encode_signed(&sig, &mut out);
    let signed = t.into_signed(sig);
    (out.into(), signed.recover_signer().ok())
}
pub fn keyless_calldata(raw: &Bytes, over: U256) -> Bytes {
    let mut v = mega_evm::alloy_primitives::keccak256(b"keylessDeploy(bytes,uint256)")[..4].to_vec();
    v.extend_from_slice(&U256::from(64).to_be_bytes::<32>());
    v.extend_from_slice(&over.to_be_bytes::<32>());
    v.extend_from_slice(&U256::from(raw.len()).to_be_bytes::<32>());
    v.extend_from_slice(raw);
    while (v.len() - 4) % 32 != 0 {
        v.push(0);
    }
    v.into()
}

pub fn eth(n: u64) -> U256 {
    U256::from(n) * U256::from(1_000_000_000_000_000_000u64)
}

pub fn scenario(seed: u64, index: u64, p: &Profile, tag: &str) -> Scenario {
    let mut r = Rng::stream(seed, tag, index);
    let spec = *r.pick(&p.specs);
    let beneficiary = if r.pct(p.hot_beneficiary) {
        match r.below(6) {
            0 => eoa(0),
            1 => con(r.below(6) as u8),
            2 => del(r.below(6) as u8),
            3 => none(0),
            4 => eoa(1),
            _ => addr(0xb0, 1),
        }
    } else {
        addr(0xb0, 0)
    };
    let mut o = Rng::stream(seed, "override", index);
    let over = (p.over > 0 && o.pct(p.over)).then(|| Over {
        addr: precompile_addr(*o.pick(&[2u16, 4, 5, 10, 0x100, 0x101, 0x1234])),
        specs: if o.pct(70) { 0xff } else { o.next() as u8 },
        price: *o.pick(&[0u64, 1, 15, 100, 3_000, 100_000]) + o.below(50),
        fails: o.pct(10),
    });
    let mut g = Gen { r, p, spec, beneficiary, extra: over.iter().map(|o| o.addr).collect(), over, price: None };
    let mut world = World::new();
    // keyless transactions to be sprayed
    let mut keyless = vec![];
    if p.tx_keyless > 0 && spec >= MegaSpecId::REX2 && g.r.pct(p.tx_keyless * 4) {
        for _ in 0..2 {
            let mut init = g.initcode(0);
            if g.r.pct(35) {
                // what the deployment sees of the block and of other accounts, kept in its storage or told in logs
                let mut a = Asm::default();
                for j in 0..1 + g.r.below(8) {
                    match g.r.below(7) {
                        0 => a.n(g.r.below(4)).op(0x43).op(0x03).op(0x40).n(100 + j).op(0x55),
                        1 => a.op(*g.r.pick(&[0x41u8, 0x42, 0x43, 0x44, 0x45, 0x48, 0x4a, 0x3a, 0x32, 0x33, 0x34, 0x47])).n(100 + j).op(0x55),
                        2 => {
                            let t = g.pool();
                            a.a(t).op(*g.r.pick(&[0x31u8, 0x3b, 0x3f])).n(100 + j).op(0x55)
                        }
                        3 => {
                            // CALL and keep the first word returned
                            let t = g.pool();
                            a.n(32).n(0).n(32).n(0).n(0).a(t).op(0x5a).op(0xf1).op(0x50).n(0).op(0x51).n(100 + j).op(0x55)
                        }
                        _ => {
                            let t = g.r.below(5);
                            for x in 0..t {
                                a.n(x);
                            }
                            a.n(g.r.below(40)).n(0).op(0xa0 + t as u8)
                        }
                    };
                }
                let mut v = a.build();
                // jump destinations and CODECOPY offsets of what follows would move: start it as a contract of its own
                if g.r.pct(60) {
                    v.extend_from_slice(&[0x60, 0x01, 0x60, 0x00, 0xf3]);
                }
                init = v;
            }
            let gl = *g.r.pick(&[100_000u64, 200_000, 1_000_000, 53_000]);
            let gp = *g.r.pick(&[0u128, 1, 100, 1_000_000_000]);
            let val = U256::from(*g.r.pick(&[0u64, 0, 0, 1, 7, 1_000_000_000_000_000]));
            let nonce = if g.r.pct(4) { 1 } else { 0 };
            let cid = if g.r.pct(6) { Some(*g.r.pick(&[1u64, 10, 4326, 6342, 6343, 1337])) } else { None };
            let to = if g.r.pct(4) { Some(eoa(0)) } else { None };
            let (raw, signer) = keyless_raw(init.into(), gl, gp, val, nonce, cid, to, *g.r.pick(&[0x11, 0x18, 0x22, 0x01, 0x02, 0x07, 0x08, 0x2a, 0x33, 0x44, 0x50, 0x7c]));
            if let Some(s) = signer {
                g.extra.push(s);
                g.extra.push(s.create(0));
                if g.r.pct(85) {
                    world.insert(
                        s,
                        Acct { balance: if g.r.pct(75) { eth(1) } else if g.r.pct(30) { U256::from(5) } else { (U256::from(*g.r.pick(&[gl, gl * 10, gl + 2_000_000])) * U256::from(gp) + U256::from(g.r.below(3)) + if g.r.pct(50) { val } else { U256::ZERO }).saturating_sub(U256::from(1)) }, nonce: *g.r.pick(&[0u64, 0, 0, 0, 1, 2]), ..Default::default() },
                    );
                }
                if g.r.pct(8) {
                    let c = g.runtime(0);
                    world.insert(s.create(0), Acct { code: if c.first() == Some(&0xef) { Bytes::new() } else { c.into() }, balance: U256::from(g.r.below(2)), ..Default::default() });
                }
            }
            keyless.push((raw, gl));
        }
    }
    for i in 0..4u8 {
        world.insert(eoa(i), Acct { balance: if i == 3 && g.r.pct(30) { U256::from(g.r.below(3)) } else { eth(1 + i as u64) }, nonce: g.r.below(3), ..Default::default() });
    }
    let st = |g: &mut Gen| {
        let mut s = BTreeMap::new();
        for k in 0..4u64 {
            if g.r.pct(40) {
                s.insert(U256::from(k), U256::from(1 + g.r.below(3)));
            }
        }
        s
    };
    for i in 0..6u8 {
        let n = if i < 3 { 8 } else { 4 };
        let code = g.program(0, n);
        let storage = st(&mut g);
        world.insert(con(i), Acct { balance: U256::from(g.r.below(6)), nonce: 1, code: code.into(), storage });
    }
    if g.r.pct(3) {
        world.get_mut(&con(1)).unwrap().nonce = u64::MAX;
    }
    // delegated accounts: to a contract, to an empty account, to a precompile, to another delegated account (loop)
    let targets = [con(0), none(0), precompile_addr(4), del(4), del(3), con(3)];
    for i in 0..6u8 {
        if g.r.pct(25) {
            continue;
        }
        let mut c = vec![0xef, 0x01, 0x00];
        c.extend_from_slice(targets[i as usize].as_slice());
        let storage = if g.r.pct(40) { st(&mut g) } else { BTreeMap::new() };
        world.insert(del(i), Acct { balance: if i % 2 == 0 || g.r.pct(80) { eth(1) } else { U256::from(1) }, nonce: g.r.below(3), code: c.into(), storage });
    }
    if g.r.pct(50) {
        // oracle: returns SLOAD(calldata[0]) or runs a random program
        let code = if g.r.pct(60) {
            let mut a = Asm::default();
            a.n(0).op(0x35).op(0x54).n(0).op(0x52).n(32).n(0).op(0xf3);
            a.build()
        } else {
            g.program(1, 4)
        };
        let storage = st(&mut g);
        world.insert(ORACLE, Acct { nonce: 1, code: code.into(), balance: U256::from(g.r.below(2)), storage });
    }
    if !keyless.is_empty() {
        // contracts that pass their calldata on to the keyless deployment contract
        for (i, op) in [0xf1u8, 0xf2, 0xf4, 0xfa].into_iter().enumerate() {
            let mut a = Asm::default();
            a.op(0x36).n(0).n(0).op(0x37).n(0).n(0).op(0x36).n(0);
            if op < 0xf4 {
                a.n(0);
            }
            a.a(KEYLESS).op(0x5a).op(op).n(0).op(0x55).op(0x3d).n(1).op(0x55).op(0x00);
            world.insert(con(6 + i as u8), Acct { nonce: 1, code: a.build().into(), ..Default::default() });
        }
    }
    if g.r.pct(50) {
        world.insert(KEYLESS, Acct { nonce: 1, code: Bytes::from_static(&[0x60, 0, 0x60, 0, 0xfd]), ..Default::default() });
    }
    if g.r.pct(40) {
        world.insert(SYSTEM, Acct { nonce: g.r.below(3), balance: U256::from(g.r.below(3)), ..Default::default() });
    }
    if g.r.pct(40) {
        let mut s = BTreeMap::new();
        s.insert(U256::from(1), U256::from(g.r.below(1000)));
        s.insert(U256::from(7), U256::from(g.r.below(1000)));
        s.insert(U256::from(3), U256::from(g.r.below(1_000_000)) << 128usize | U256::from(g.r.below(1_000_000)) << 96usize);
        if g.r.pct(50) {
            s.insert(U256::from(8), U256::from(g.r.below(1_000_000)) << 64usize | U256::from(g.r.below(1000)));
        }
        world.insert(L1BLOCK, Acct { nonce: 1, code: Bytes::from_static(&[0x00]), storage: s, ..Default::default() });
    }
    if g.r.pct(20) && !world.contains_key(&beneficiary) {
        world.insert(beneficiary, Acct { balance: U256::from(7), ..Default::default() });
    }
    let basefee = *g.r.pick(&[0u64, 0, 1, 7, 1000]);
    let block = BlockSpec {
        number: 300 + g.r.below(5),
        timestamp: 1_700_000_000 + g.r.below(100),
        beneficiary,
        gas_limit: 10_000_000_000,
        basefee,
        prevrandao: B256::repeat_byte(g.r.below(4) as u8),
        blob_price: 1 + g.r.below(3) as u128,
    };
    let mut l = lim_default(spec);
    if spec != MegaSpecId::EQUIVALENCE {
        if g.r.pct(p.tight) {
            match g.r.below(4) {
                0 => l.data = 150 + g.r.below(900),
                1 => l.kv = 1 + g.r.below(12),
                2 => l.growth = g.r.below(4),
                _ => {
                    l.data = 150 + g.r.below(1500);
                    l.kv = 1 + g.r.below(16);
                    l.growth = g.r.below(5);
                }
            }
        }
        if g.r.pct(p.tight_compute) {
            l.compute = 21_000 + g.r.below(120_000);
        } else {
            // keeps runs short; still far above what most generated programs use
            l.compute = l.compute.min(3_000_000);
        }
        if g.r.pct(p.tight_caps) {
            l.cap_block = 20_000 + g.r.below(80_000);
            l.cap_oracle = 20_000 + g.r.below(80_000);
        }
    }
    let mut oracle = BTreeMap::new();
    for k in 0..4u64 {
        if g.r.pct(50) {
            oracle.insert(U256::from(k), U256::from(g.r.below(4)));
        }
    }
    let (mut max_code, mut max_initcode) = (None, None);
    if g.r.pct(p.sizes) {
        max_code = Some(*g.r.pick(&[1usize, 23, 24, 100, 0x700]));
        max_initcode = Some(*g.r.pick(&[0usize, 30, 100, 300]));
    }
    let mut sc = Scenario {
        spec,
        world: Arc::new(world),
        block,
        limits: l,
        salt_mode: if g.r.pct(p.salt) { 1 + g.r.below(6) } else { 0 },
        oracle: Arc::new(oracle),
        chain_id: *g.r.pick(&[1u64, 6342]),
        max_code,
        max_initcode,
        txs: vec![],
        lazy_code: g.r.pct(20),
        path: (Rng::stream(seed, "path", index).next() >> 40) as u8,
        no_fees: Rng::stream(seed, "no_fees", index).pct(5),
        flags: None,
        over: g.over,
        tag: format!("{tag}:{seed}:{index}"),
    };
    let mut n = 1 + g.r.below(p.max_txs);
    // some long histories
    if p.max_txs >= 3 && Rng::stream(seed, "long", index).below(150) == 0 {
        n += 15 + g.r.below(20);
    }
    // nonces are tracked optimistically
    let mut nonces: BTreeMap<Address, u64> = sc.world.iter().map(|(a, x)| (*a, x.nonce)).collect();
    for _ in 0..n {
        let t = gen_tx(&mut g, &sc, &keyless, &nonces);
        let e = nonces.entry(t.caller).or_default();
        *e = e.wrapping_add(1);
        sc.txs.push(t);
    }
    recreate(&mut sc, p, &mut Rng::stream(seed, "recreate", index));
    deep(&mut sc, p, &mut Rng::stream(seed, "deep", index));
    sc
}
/// A factory that creates, at one fixed address, a contract which destroys itself at once unless it receives value: the address
/// is created, destroyed and created again in the transactions of the sequence (and in one transaction).
fn deep(sc: &mut Scenario, p: &Profile, r: &mut Rng) {
    if r.below(1000) >= p.deep || sc.txs.is_empty() {
        return;
    }
    fn extra(f: &mut Asm, r: &mut Rng) {
        match r.below(7) {
            0 => f.op(0x42).op(0x50),
            1 => f.op(0x5a).n(r.below(3)).op(0x55),
            2 => f.n(r.below(40)).n(0).op(0xa0),
            3 => f.op(0x5a).op(0x31).op(0x50),
            4 => f.n(1).n(1).op(0x5d),
            _ => f,
        };
    }
    let mut f = Asm::default();
    extra(&mut f, r);
    let k = *r.pick(&[0xf1u8, 0xf1, 0xf1, 0xf2, 0xf4, 0xfa, 0xf0, 0xf5]);
    if matches!(k, 0xf0 | 0xf5) {
        f.op(0x38).n(0).n(0).op(0x39);
        if k == 0xf5 {
            f.op(0x5a);
        }
        f.op(0x38).n(0).n(0).op(k);
    } else {
        f.n(0).n(0).n(0).n(0);
        if matches!(k, 0xf1 | 0xf2) {
            f.n(if r.pct(20) { 1 } else { 0 });
        }
        f.op(0x30).op(0x5a).op(k);
    }
    f.op(0x50);
    extra(&mut f, r);
    match r.below(6) {
        0 => f.n(0).n(0).op(0xfd),
        1 => f.op(0x5a).n(1).op(0x16).n(0).n(0).op(0xf3),
        _ => f.op(0x00),
    };
    let mut world = (*sc.world).clone();
    let a = world.entry(con(0)).or_default();
    (a.code, a.nonce) = (f.code.into(), a.nonce.max(1));
    a.balance = a.balance.max(U256::from(9));
    sc.world = Arc::new(world);
    sc.block.basefee = 0;
    sc.block.gas_limit = 1 << 60;
    let n = sc.txs.len();
    let at = r.below(n as u64) as usize;
    for (i, t) in sc.txs.iter_mut().enumerate() {
        if t.ty != TxType::Deposit && t.caller != SYSTEM {
            (t.gas_price, t.prio) = (0, 0);
            if i == at {
                t.to = Some(con(0));
                t.value = U256::ZERO;
                t.gas_limit = 10u64.pow(12 + r.below(5) as u32) + r.below(1 << 30);
            }
        }
    }
    if r.pct(70) {
        let l = &mut sc.limits;
        (l.compute, l.data, l.kv, l.growth) = (1_000_000_000, 1 << 40, 1 << 40, 1 << 40);
    }
}
fn recreate(sc: &mut Scenario, p: &Profile, r: &mut Rng) {
    if !r.pct(p.recreate) || sc.txs.is_empty() {
        return;
    }
    let mut ic = Asm::default();
    ic.n(r.below(3)).n(r.below(2)).op(0x55).op(0x34).n(99).op(0x57);
    let at = ic.code.len() - 2;
    if r.pct(30) {
        ic.n(1).n(7).op(0x55);
    }
    ic.op(*r.pick(&[0x33, 0x30, 0x41, 0x32])).op(0xff);
    ic.code[at] = ic.code.len() as u8;
    ic.op(0x5b).n(r.below(2)).n(0).op(0xf3);
    let ic = ic.code;
    let mut f = Asm::default();
    let mut w = [0u8; 32];
    w[..ic.len().min(32)].copy_from_slice(&ic[..ic.len().min(32)]);
    f.push(U256::from_be_bytes(w)).n(0).op(0x52);
    let n = 1 + r.below(2);
    for _ in 0..n {
        f.n(5).n(ic.len() as u64).n(0);
        if r.pct(80) {
            f.op(0x34);
        } else {
            f.n(0);
        }
        f.op(0xf5);
        match r.below(3) {
            0 => f.n(3).op(0x55),
            1 => f.op(0x31).op(0x50),
            _ => f.op(0x50),
        };
    }
    f.op(0x00);
    let mut world = (*sc.world).clone();
    let a = world.entry(con(0)).or_default();
    (a.code, a.nonce) = (f.code.into(), a.nonce.max(1));
    a.balance = a.balance.max(U256::from(9));
    if r.pct(30) {
        let child = con(0).create2_from_code(U256::from(5).to_be_bytes::<32>(), &ic);
        world.entry(child).or_default().balance = U256::from(1 + r.below(5));
    }
    sc.world = Arc::new(world);
    for t in sc.txs.iter_mut() {
        if r.pct(60) && matches!(t.ty, TxType::Legacy | TxType::Access | TxType::Dynamic) && t.caller != SYSTEM {
            t.to = Some(con(0));
            t.input = Bytes::new();
            t.value = U256::from(*r.pick(&[0u64, 0, 1]));
            t.gas_limit = t.gas_limit.max(400_000);
        }
    }
}

fn gen_tx(g: &mut Gen, sc: &Scenario, keyless: &[(Bytes, u64)], nonces: &BTreeMap<Address, u64>) -> TxSpec {
    let p = g.p;
    let caller = match g.r.below(20) {
        0..=13 => eoa(g.r.below(3) as u8),
        14..=17 => del(g.r.below(6) as u8),
        18 => eoa(3),
        _ => g.pool(),
    };
    // a sender without funds is mostly just a rejected transaction
    let caller = if sc.world.get(&caller).is_none_or(|a| a.balance < U256::from(1_000_000_000u64)) && g.r.pct(85) { eoa(g.r.below(3) as u8) } else { caller };
    let to = g.pool();
    let mut t = TxSpec::call(caller, to, 0);
    if g.r.pct(60) {
        t.to = Some(con(g.r.below(6) as u8));
    }
    if g.r.pct(p.tx_oracle) {
        t.to = Some(ORACLE);
        t.input = if g.r.pct(50) { g.hint_data().into() } else { Bytes::copy_from_slice(&U256::from(g.r.below(4)).to_be_bytes::<32>()) };
    } else {
        let n = *g.r.pick(&[0usize, 0, 1, 4, 32, 36, 200]);
        let mut v = g.r.bytes(n);
        for b in v.iter_mut() {
            if g.r.pct(40) {
                *b = 0;
            }
        }
        t.input = v.into();
    }
    if g.r.pct(p.tx_create) {
        t.to = None;
        t.input = g.initcode(0).into();
    }
    if g.r.pct(p.tx_value) {
        t.value = U256::from(*g.r.pick(&[1u64, 2, 1000]));
    }
    t.ty = match g.r.below(10) {
        0..=3 => TxType::Legacy,
        4..=6 => TxType::Access,
        _ => TxType::Dynamic,
    };
    if g.r.pct(p.tx_7702) && t.to.is_some() {
        t.ty = TxType::SetCode;
        for _ in 0..1 + g.r.below(3) {
            let who = match g.r.below(6) {
                0..=1 => eoa(g.r.below(4) as u8),
                2..=3 => del(g.r.below(6) as u8),
                4 => none(g.r.below(4) as u8),
                _ => g.pool(),
            };
            let mut nonce = nonces.get(&who).copied().unwrap_or(0);
            if who == t.caller {
                nonce = nonce.wrapping_add(1);
            }
            if g.r.pct(10) {
                nonce = *g.r.pick(&[0, 1, 5, u64::MAX]);
            }
            let delegate = match g.r.below(8) {
                0 => Address::ZERO,
                1 => g.pool(),
                2 => who,
                _ => con(g.r.below(6) as u8),
            };
            t.auths.push(AuthSpec {
                authority: if g.r.pct(93) { Some(who) } else { None },
                chain_id: *g.r.pick(&[0, sc.chain_id, sc.chain_id, 99]),
                nonce,
                delegate,
            });
        }
    }
    if matches!(t.ty, TxType::Access | TxType::Dynamic | TxType::SetCode) && g.r.pct(55) {
        for _ in 0..g.r.below(4) {
            let a = g.pool();
            let ks = (0..g.r.below(3)).map(|_| B256::from(U256::from(g.r.below(4)))).collect();
            t.access_list.push((a, ks));
        }
    }
    let bf = sc.block.basefee as u128;
    t.gas_price = bf + *g.r.pick(&[0u128, 0, 1, 50]);
    t.prio = *g.r.pick(&[0u128, 1, 2]);
    t.prio = t.prio.min(t.gas_price);
    if g.r.pct(p.tx_deposit) {
        t.ty = TxType::Deposit;
        t.access_list.clear();
        t.auths.clear();
        t.mint = *g.r.pick(&[0u128, 0, 5, 1_000_000]);
        if g.r.pct(90) {
            t.gas_price = 0;
        }
    }
    if g.r.pct(p.tx_system) {
        t = TxSpec { ty: TxType::Legacy, access_list: vec![], auths: vec![], caller: SYSTEM, to: Some(ORACLE), value: U256::ZERO, mint: 0, ..t };
        if g.r.pct(12) {
            t.to = *g.r.pick(&[None, Some(con(0)), Some(KEYLESS)]);
        }
        if g.r.pct(8) {
            t.ty = *g.r.pick(&[TxType::Access, TxType::Dynamic, TxType::Deposit]);
        }
        if g.r.pct(20) {
            t.value = U256::from(1);
        }
    }
    // deposits do not check nonces: leave it at an arbitrary value sometimes
    t.nonce = nonces.get(&t.caller).copied().unwrap_or(0);
    if t.ty == TxType::Deposit && g.r.pct(30) {
        t.nonce = 0;
        t.auto_nonce = false;
    }
    let floor = if sc.spec >= MegaSpecId::REX { 60_000 } else { 21_000 } + if t.to.is_none() { 32_000 } else { 0 } + 40 * t.input.len() as u64;
    t.gas_limit = if g.r.pct(p.low_gas) {
        floor + g.r.below(90_000)
    } else if g.r.pct(70) {
        150_000 + g.r.below(1_000_000)
    } else {
        150_000 + g.r.below(p.gas_hi)
    };
    if !keyless.is_empty() && g.r.pct(60) && t.ty != TxType::SetCode {
        let (raw, gl) = g.r.pick(keyless).clone();
        let over = match g.r.below(8) {
            0 => U256::from(gl - 1),
            1 => U256::from(gl),
            2 => U256::from(gl * 10),
            3 => U256::MAX,
            _ => U256::from(gl + 2_000_000),
        };
        let mut d = keyless_calldata(&raw, over).to_vec();
        if g.r.pct(4) {
            let i = g.r.below(d.len() as u64) as usize;
            d[i] ^= 1;
        }
        t.input = d.into();
        t.to = Some(KEYLESS);
        if g.r.pct(12) {
            t.to = Some(con(6 + g.r.below(4) as u8));
        }
        t.value = if g.r.pct(5) { U256::from(1) } else { U256::ZERO };
        if g.r.pct(85) {
            t.gas_limit = 600_000 + g.r.below(400_000);
        }
    }
    if g.r.pct(p.tx_bad) {
        match g.r.below(6) {
            0 => {
                t.nonce = t.nonce.wrapping_add(1);
                t.auto_nonce = false;
            }
            1 => t.gas_price = (bf as u64).saturating_sub(1) as u128,
            2 => t.gas_limit = 20_000,
            3 if t.ty != TxType::Deposit => t.gas_limit = sc.block.gas_limit + 1,
            4 => {
                t.value = U256::MAX;
                if t.ty == TxType::Deposit {
                    t.gas_price = 0;
                }
            }
            _ if t.ty == TxType::Deposit => t.prio = crate::env::SYSTEM_DEPOSIT,
            _ => t.prio = t.gas_price + 1,
        }
    }
    if g.r.pct(30) {
        let n = 10 + g.r.below(150) as usize;
        let mut e = g.r.bytes(n);
        e[0] = 2;
        t.enveloped = e.into();
    }
    t
}
