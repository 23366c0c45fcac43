//! Value-numbering domain. Every machine word is named by an algebraic value number: a fingerprint that is a
//! ring homomorphism, so that words computed by the same polynomial expression over the inputs get the same
//! number however the computation is written. Non-linear steps on words of few values are kept as finite tables
//! over the word they start from, and re-based onto the residue (mod 2^j or mod 3) they actually depend on.
//! Zero tests accumulate into a canonical set of facts, and selections by such a test are kept as guarded values.
use crate::dom::*;
use crate::interp::*;
use crate::lower::*;
use rustc_public::mir::Mutability;
use rustc_public::ty::{RigidTy, Ty};
use rustc_public::CrateDefType;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub const NL: usize = 64;
pub const N3: usize = 64;
pub const NP: usize = 8;
const P: u64 = (1 << 61) - 1;
const TABK: u8 = 16;

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
fn mulp(a: u64, b: u64) -> u64 { let r = a as u128 * b as u128; let s = (r & P as u128) as u64 + (r >> 61) as u64; if s >= P { s - P } else { s } }
fn addp(a: u64, b: u64) -> u64 { let s = a + b; if s >= P { s - P } else { s } }
fn subp(a: u64, b: u64) -> u64 { if a >= b { a - b } else { a + P - b } }
fn invp(a: u64) -> u64 { let (mut r, mut b, mut e) = (1u64, a, P - 2); while e > 0 { if e & 1 == 1 { r = mulp(r, b) } b = mulp(b, b); e >>= 1 } r }

/// Fingerprint of an exact integer expression: evaluations modulo 2^64, modulo 3 and modulo a 61-bit prime.
#[derive(Clone, Debug, PartialEq)]
pub struct Lanes { pub l2: [u64; NL], pub l3: [u8; N3], pub lp: [u64; NP] }
impl Lanes {
    pub fn cst(c: i128) -> Lanes { Lanes { l2: [c as u64; NL], l3: [c.rem_euclid(3) as u8; N3], lp: [c.rem_euclid(P as i128) as u64; NP] } }
    pub fn add(&self, o: &Lanes) -> Lanes {
        let mut r = self.clone();
        for i in 0..NL { r.l2[i] = r.l2[i].wrapping_add(o.l2[i]) }
        for i in 0..N3 { r.l3[i] = (r.l3[i] + o.l3[i]) % 3 }
        for i in 0..NP { r.lp[i] = addp(r.lp[i], o.lp[i]) }
        r
    }
    pub fn sub(&self, o: &Lanes) -> Lanes {
        let mut r = self.clone();
        for i in 0..NL { r.l2[i] = r.l2[i].wrapping_sub(o.l2[i]) }
        for i in 0..N3 { r.l3[i] = (r.l3[i] + 3 - o.l3[i]) % 3 }
        for i in 0..NP { r.lp[i] = subp(r.lp[i], o.lp[i]) }
        r
    }
    pub fn mul(&self, o: &Lanes) -> Lanes {
        let mut r = self.clone();
        for i in 0..NL { r.l2[i] = r.l2[i].wrapping_mul(o.l2[i]) }
        for i in 0..N3 { r.l3[i] = (r.l3[i] * o.l3[i]) % 3 }
        for i in 0..NP { r.lp[i] = mulp(r.lp[i], o.lp[i]) }
        r
    }
    pub fn scale(&self, c: i128) -> Lanes { self.mul(&Lanes::cst(c)) }
    fn prf(key: u64) -> Lanes {
        let mut l2 = [0; NL]; let mut l3 = [0; N3]; let mut lp = [0; NP];
        for i in 0..NL { l2[i] = mix(key ^ (i as u64 + 1).wrapping_mul(0xD1342543DE82EF95)) }
        let mut h = mix(key ^ 0x3333);
        for (i, x) in l3.iter_mut().enumerate() { if i % 32 == 0 { h = mix(h ^ i as u64) } *x = (h % 3) as u8; h /= 3 }
        for i in 0..NP { lp[i] = mix(key ^ (i as u64 + 101).wrapping_mul(0xA24BAED4963EE407)) % P }
        Lanes { l2, l3, lp }
    }
}
#[derive(Clone, Debug)]
pub enum Kind2 {
    Plain,
    /// 0 iff all facts hold, otherwise 1
    Nz(u32),
    /// first value if the test is 0, second if it is 1
    Ite(u32, Val, Val),
    Xor(Vec<Val>, u64),
    /// z if the facts hold, otherwise within the range
    Piece(u32, u64, VId),
    Bytes(Vec<Val>),
}
#[derive(Clone, Debug)]
pub struct Form {
    pub k: u8,
    pub sg: bool,
    pub lo: i64,
    pub hi: i64,
    pub kz: u64,
    pub valid: u32,
    pub ex: bool,
    pub l: Lanes,
    pub kind: Kind2,
    pub def: Option<(Op, Val, Val)>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct STab { pub w: u8, pub outs: Rc<Vec<u64>> }
#[derive(Clone, Debug)]
struct TInfo { affine: Option<(i128, i128)>, affine_mod: Option<(u64, u64)>, saffine: Option<(i128, i128)> }
#[derive(Clone, Debug)]
pub struct Facts {
    pub bot: bool,
    pub at: BTreeMap<u32, Rc<Vec<u64>>>,
    /// a few linear equations, as the space they span
    pub lin: Vec<[u64; NP]>,
    /// the equations one by one; with more of them than the fingerprints have room for, these alone identify the set
    pub rows: BTreeSet<[u64; NP]>,
    pub other: BTreeSet<(u32, u32, bool)>,
}
const FEW: usize = NP - 3;
impl PartialEq for Facts { fn eq(&self, o: &Facts) -> bool { self.bot == o.bot && self.at == o.at && self.lin == o.lin && self.other == o.other && (self.rows.len() <= FEW && o.rows.len() <= FEW || self.rows == o.rows) } }
impl Eq for Facts {}
impl std::hash::Hash for Facts { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.bot.hash(h); self.at.hash(h); self.lin.hash(h); self.other.hash(h); if self.rows.len() > FEW { self.rows.hash(h) } } }
impl Facts {
    pub fn new() -> Facts { Facts { bot: false, at: BTreeMap::new(), lin: vec![], rows: BTreeSet::new(), other: BTreeSet::new() } }
    fn add_lin(&mut self, v: [u64; NP]) {
        let mut v = v;
        let Some(p) = v.iter().position(|x| *x != 0) else { return };
        let c = invp(v[p]);
        self.rows.insert(v.map(|x| mulp(x, c)));
        if self.rows.len() > FEW { self.lin.clear(); if v.iter().all(|x| *x == v[p]) { self.bot = true } return }
        for r in &self.lin { let p = r.iter().position(|x| *x != 0).unwrap(); if v[p] != 0 { let c = v[p]; for i in 0..NP { v[i] = subp(v[i], mulp(c, r[i])) } } }
        let Some(p) = v.iter().position(|x| *x != 0) else { return };
        if v.iter().all(|x| *x == v[0]) { self.bot = true; return }
        let c = invp(v[p]);
        for i in 0..NP { v[i] = mulp(v[i], c) }
        for r in self.lin.iter_mut() { if r[p] != 0 { let c = r[p]; for i in 0..NP { r[i] = subp(r[i], mulp(c, v[i])) } } }
        self.lin.push(v);
        self.lin.sort();
    }
}
#[derive(Clone)]
enum CR { Const(u64), Id, Tab(u32), Per(u8, Rc<Vec<u64>>), Three(Rc<Vec<u64>>) }

pub struct Sym {
    pub forms: Vec<Form>,
    fmap: HashMap<(u8, u64, u64), u32>,
    pub tabs: Vec<STab>,
    tmap: HashMap<STab, u32>,
    opcache: HashMap<(u8, u32, u32, u8, u32, u8, u64), (u8, Rc<Vec<u64>>)>,
    canoncache: HashMap<(u32, u8, u64, u64, usize), (CR, VId)>,
    infocache: HashMap<(u32, u32), TInfo>,
    enccache: HashMap<(u32, u32, bool), Rc<Lanes>>,
    bitcache: HashMap<u32, Rc<Vec<Lanes>>>,
    valids: Vec<(u8, bool, i64, i64, u64)>,
    vmap: HashMap<(u8, bool, i64, i64, u64), u32>,
    pub facts: Vec<Facts>,
    factmap: HashMap<Facts, u32>,
    nzmap: HashMap<u32, u32>,
    m3map: HashMap<[u8; N3], u32>,
    opmap: HashMap<(u64, u64, u64, u64), u32>,
    pub names: HashMap<u32, String>,
    /// recognise selections by an order test of two words as their minimum and maximum
    pub order: bool,
    ctr: u64,
    seed: u64,
    /// undecidable operators met (for reports)
    pub opaque_ops: BTreeMap<String, u64>,
    pub events: Vec<CutEvent>,
    pub cutmemo: HashMap<(String, u64, u64), Vec<Val>>,
    cls: HashMap<(u8, u64, u64), u32>,
    liftcache: HashMap<(u32, u32), Option<(bool, u64, bool)>>,
    m3set: std::collections::HashSet<u32>,
    /// tests of a single word of few bits: the word and the values for which the test is 0
    single: HashMap<u32, (u32, Rc<Vec<bool>>)>,
    /// bytes that are another byte plus one exactly when some facts hold
    sums: HashMap<(u64, u64), (Val, Facts)>,
    /// When a counted-up word is zero.
    wraps: HashMap<u32, u32>,
    spread: HashMap<(Op, Val, Val), Val>,
    /// words that were counted up: the same word put together from bytes
    octs: HashMap<u32, Val>,
}
/// A call replaced by its contract: values read and values produced.
pub struct CutEvent { pub name: String, pub ins: Vec<Vec<Val>>, pub outs: Vec<Val>, pub site: String }

fn bitlen(x: u64) -> u8 { (64 - x.leading_zeros()) as u8 }
fn low(k: u8) -> u64 { if k >= 64 { u64::MAX } else { (1u64 << k) - 1 } }
fn hash2(k: u8, l2: &[u64; NL]) -> (u64, u64) {
    let m = low(k);
    let (mut a, mut b) = (k as u64 ^ 0x1234567, k as u64 ^ 0x7654321fedc);
    for x in l2 { a = mix(a ^ (x & m)); b = mix(b.rotate_left(17) ^ (x & m)) }
    (a, b)
}

impl Sym {
    pub fn new(seed: u64) -> Sym {
        let mut s = Sym { forms: vec![], fmap: HashMap::new(), tabs: vec![], tmap: HashMap::new(), opcache: HashMap::new(), canoncache: HashMap::new(), infocache: HashMap::new(), enccache: HashMap::new(), bitcache: HashMap::new(), valids: vec![], vmap: HashMap::new(), facts: vec![], factmap: HashMap::new(), nzmap: HashMap::new(), m3map: HashMap::new(), opmap: HashMap::new(), names: HashMap::new(), ctr: 0, seed, opaque_ops: BTreeMap::new(), events: vec![], cutmemo: HashMap::new(), single: HashMap::new(), sums: HashMap::new(), spread: HashMap::new(), wraps: HashMap::new(), octs: HashMap::new(), cls: HashMap::new(), liftcache: HashMap::new(), m3set: Default::default(), order: false };
        s.tabs.push(STab { w: 0, outs: Rc::new(vec![]) });
        // form 0 is unused: an origin of 0 means "constant"
        s.valids.push((0, false, 0, 0, 0));
        s.forms.push(Form { k: 0, sg: false, lo: 0, hi: 0, kz: 0, valid: 0, ex: true, l: Lanes::cst(0), kind: Kind2::Plain, def: None });
        s
    }
    fn valid_id(&mut self, v: (u8, bool, i64, i64, u64)) -> u32 {
        if let Some(i) = self.vmap.get(&v) { return *i }
        let i = self.valids.len() as u32;
        self.valids.push(v);
        self.vmap.insert(v, i);
        i
    }
    fn is_valid(v: &(u8, bool, i64, i64, u64), x: u64) -> bool {
        if x & v.4 != 0 { return false }
        if v.1 { let s = sext(x as u128, v.0) as i64; s >= v.2 && s <= v.3 } else { x as i64 >= v.2 && x as i64 <= v.3 }
    }
    fn mktab(&mut self, w: u8, outs: Rc<Vec<u64>>) -> u32 {
        let t = STab { w, outs };
        if let Some(i) = self.tmap.get(&t) { return *i }
        let i = self.tabs.len() as u32;
        self.tabs.push(t.clone());
        self.tmap.insert(t, i);
        i
    }
    // ---------------------------------------------------------------- forms
    fn push_form(&mut self, mut f: Form) -> u32 {
        let (k, sg, lo, hi, kz) = (f.k, f.sg, f.lo, f.hi, f.kz);
        f.valid = self.valid_id((k, sg, lo, hi, kz));
        let i = self.forms.len() as u32;
        self.forms.push(f);
        i
    }
    /// A new unknown of k bits with values 0..=hi.
    pub fn atom(&mut self, k: u8, hi: u64) -> u32 {
        loop {
            self.ctr += 1;
            let key = mix(self.seed ^ self.ctr.wrapping_mul(0x632BE59BD9B4E019));
            let n = self.forms.len();
            let f = self.atom_keyed(k, hi, key);
            if self.forms.len() > n { return f }
        }
    }
    fn atom_keyed(&mut self, k: u8, hi: u64, key: u64) -> u32 {
        let mut l = Lanes::prf(key);
        for x in l.l2.iter_mut() { *x &= low(k) }
        let (a, b) = hash2(k, &l.l2);
        if let Some(i) = self.fmap.get(&(k, a, b)) { return *i }
        let hi = if k >= 63 { i64::MAX } else { (hi & low(k)) as i64 };
        let i = self.push_form(Form { k, sg: false, lo: 0, hi, kz: 0, valid: 0, ex: false, l, kind: Kind2::Plain, def: None });
        self.fmap.insert((k, a, b), i);
        i
    }
    fn bitkey(&self, f: u32, i: u8) -> u64 { let (a, b) = hash2(i, &self.forms[f as usize].l.l2); mix(a ^ b.rotate_left(32) ^ 0xB17 ^ self.seed) }
    /// Bit indicators of levels 1..=n (generic, not yet adjusted to the exact top).
    fn gen_bits(&self, f: u32, n: u8) -> Vec<Lanes> {
        let fm = &self.forms[f as usize];
        let mut out: Vec<Lanes> = vec![];
        let mut acc = [0u64; NL];
        for i in 1..=n {
            let mut b = if fm.kz >> (i - 1) & 1 == 1 { Lanes::cst(0) } else { Lanes::prf(self.bitkey(f, i)) };
            if fm.kz >> (i - 1) & 1 == 0 {
                for l in 0..NL { let bit = (fm.l.l2[l].wrapping_sub(acc[l]) >> (i - 1)) & 1; b.l2[l] = (b.l2[l] << 1) | bit }
            }
            for l in 0..NL { acc[l] = acc[l].wrapping_add(b.l2[l].wrapping_shl(i as u32 - 1)) }
            out.push(b);
        }
        out
    }
    fn sum_bits(bs: &[Lanes]) -> Lanes {
        let mut t = Lanes::cst(0);
        for (i, b) in bs.iter().enumerate() { t = t.add(&b.scale(1i128 << i)) }
        t
    }
    fn exactify(&mut self, f: u32) {
        if self.forms[f as usize].ex { return }
        let k = self.forms[f as usize].k.min(64);
        let bs = self.gen_bits(f, k);
        let mut l = Self::sum_bits(&bs);
        let fm = &mut self.forms[f as usize];
        if fm.sg { l = l.sub(&bs[k as usize - 1].scale(1i128 << k)) }
        fm.l = l;
        fm.ex = true;
    }
    fn bits(&mut self, f: u32) -> Rc<Vec<Lanes>> {
        if let Some(b) = self.bitcache.get(&f) { return b.clone() }
        self.exactify(f);
        let k = self.forms[f as usize].k;
        let mut bs = self.gen_bits(f, k - 1);
        let low_part = Self::sum_bits(&bs);
        let fm = &self.forms[f as usize];
        let rest = if fm.sg { low_part.sub(&fm.l) } else { fm.l.sub(&low_part) };
        let mut top = rest.clone();
        for x in top.l2.iter_mut() { *x >>= k - 1 }
        if (k - 1) % 2 == 1 { for x in top.l3.iter_mut() { *x = (*x * 2) % 3 } }
        let c = invp(1u64 << (k - 1));
        for x in top.lp.iter_mut() { *x = mulp(*x, c) }
        bs.push(top);
        let r = Rc::new(bs);
        self.bitcache.insert(f, r.clone());
        r
    }
    fn info(&mut self, f: u32, t: u32) -> TInfo {
        let vid = self.forms[f as usize].valid;
        if let Some(i) = self.infocache.get(&(t, vid)) { return i.clone() }
        let v = self.valids[vid as usize];
        let STab { w, outs } = self.tabs[t as usize].clone();
        let xs: Vec<u64> = (0..outs.len() as u64).filter(|x| Self::is_valid(&v, *x)).collect();
        let val = |x: u64| if v.1 { sext(x as u128, v.0) } else { x as i128 };
        let aff = |sgn: bool| -> Option<(i128, i128)> {
            let out = |x: u64| if sgn { sext(outs[x as usize] as u128, w) } else { outs[x as usize] as i128 };
            if xs.len() < 2 { return None }
            let (x0, x1) = (xs[0], xs[1]);
            let (d, n) = (val(x1) - val(x0), out(x1) - out(x0));
            if n % d != 0 { return None }
            let b = n / d;
            let a = out(x0) - b * val(x0);
            if xs.iter().all(|x| out(*x) == a + b * val(*x)) { Some((a, b)) } else { None }
        };
        let affine = aff(false);
        let saffine = aff(true);
        // modulo 2^w
        let m = low(w);
        let mut affine_mod = None;
        if xs.len() >= 2 && val(xs[1]) - val(xs[0]) == 1 {
            let b = outs[xs[1] as usize].wrapping_sub(outs[xs[0] as usize]) & m;
            let a = outs[xs[0] as usize].wrapping_sub(b.wrapping_mul(val(xs[0]) as u64)) & m;
            if xs.iter().all(|x| outs[*x as usize] & m == a.wrapping_add(b.wrapping_mul(val(*x) as u64)) & m) { affine_mod = Some((a, b)) }
        }
        let r = TInfo { affine, affine_mod, saffine };
        self.infocache.insert((t, vid), r.clone());
        r
    }
    fn enc_tab(&mut self, f: u32, t: u32, signed: bool) -> Rc<Lanes> {
        if let Some(l) = self.enccache.get(&(f, t, signed)) { return l.clone() }
        let inf = self.info(f, t);
        self.exactify(f);
        let r = if let Some((a, b)) = if signed { inf.saffine } else { inf.affine } {
            self.forms[f as usize].l.scale(b).add(&Lanes::cst(a))
        } else {
            let bs = self.bits(f);
            let STab { w, outs } = self.tabs[t as usize].clone();
            let out = |x: u64| if signed { sext(outs[x as usize] as u128, w) } else { outs[x as usize] as i128 };
            let fm = self.forms[f as usize].clone();
            let hi = if fm.sg { low(fm.k) } else { fm.hi as u64 };
            let t0 = out(0);
            let mut acc = Lanes::cst(t0);
            for j in 1..=fm.k {
                let fj = 1u64 << (j - 1);
                if fj > hi { break }
                if fm.kz & fj != 0 { continue }
                let d0 = out(fj) - t0;
                acc = acc.add(&bs[j as usize - 1].scale(d0));
                let key = self.bitkey(f, j);
                for u in fj + 1..=(2 * fj - 1).min(hi) {
                    if u & fm.kz != 0 { continue }
                    let d = out(u) - out(u - fj) - d0;
                    if d != 0 { acc = acc.add(&Lanes::prf(mix(key ^ u.wrapping_mul(0x9FB21C651E98DF25))).scale(d)) }
                }
            }
            acc
        };
        let r = Rc::new(r);
        self.enccache.insert((f, t, signed), r.clone());
        r
    }
    /// Exact fingerprint of the word as an unsigned (or signed) integer, if there is one.
    pub fn enc(&mut self, d: &Dom, x: Val, signed: bool) -> Option<Lanes> {
        let a = *d.av(x);
        if let Some(c) = a.is_const() { return Some(Lanes::cst(if signed { sext(c, a.w) } else { c as i128 })) }
        let f = x.src as u32;
        if x.tab != 0 { return Some((*self.enc_tab(f, x.tab, signed && a.slo < 0)).clone()) }
        if self.forms[f as usize].k > 64 { return None }
        self.exactify(f);
        let fm = &self.forms[f as usize];
        if fm.sg { if signed && fm.k == a.w { return Some(fm.l.clone()) } if a.slo >= 0 { return Some(fm.l.clone()) } if fm.k > TABK { return None } }
        else if !signed || a.slo >= 0 { return Some(fm.l.clone()) }
        if fm.k <= TABK {
            let id: Vec<u64> = (0..1u64 << fm.k).collect();
            let t = self.mktab(a.w, Rc::new(id));
            return Some((*self.enc_tab(f, t, signed)).clone());
        }
        if signed && !fm.sg && fm.k == a.w && fm.k <= 32 {
            // top bit of the word taken negative
            let l = fm.l.clone();
            let k = fm.k;
            let top = self.bits(f)[k as usize - 1].clone();
            return Some(l.sub(&top.scale(1i128 << k)));
        }
        None
    }
    /// Fingerprint modulo 2^w only.
    fn enc_mod(&mut self, d: &Dom, x: Val) -> Option<[u64; NL]> {
        let a = *d.av(x);
        if let Some(c) = a.is_const() { return Some([c as u64; NL]) }
        let f = x.src as u32;
        if x.tab != 0 {
            let inf = self.info(f, x.tab);
            let k = self.forms[f as usize].k;
            if let Some((p, q)) = inf.affine_mod {
                if k < a.w { self.exactify(f) }
                let mut r = self.forms[f as usize].l.l2;
                for v in r.iter_mut() { *v = v.wrapping_mul(q).wrapping_add(p) }
                return Some(r);
            }
            return Some(self.enc_tab(f, x.tab, false).l2);
        }
        let fm = &self.forms[f as usize];
        if fm.k > 64 { return None }
        if fm.sg && fm.k < a.w { return self.enc(d, x, false).map(|l| l.l2) }
        if fm.k < a.w { self.exactify(f) }
        Some(self.forms[f as usize].l.l2)
    }
    fn intern_form(&mut self, k: u8, sg: bool, lo: i64, hi: i64, kz: u64, ex: bool, l: Lanes, kind: Kind2, def: Option<(Op, Val, Val)>) -> u32 {
        let (a, b) = hash2(k, &l.l2);
        if let Some(i) = self.fmap.get(&(k, a, b)) {
            let f = &mut self.forms[*i as usize];
            // words of few bits, or that differ under rare conditions only, are told apart by the whole expression
            if ex && f.ex && f.sg == sg && f.l.l2 != l.l2 && (k <= 8 || matches!(kind, Kind2::Ite(..)) || matches!(f.kind, Kind2::Ite(..))) {
                let (a, b) = hash2(64, &l.l2);
                let key = (k, a, b ^ 0xE8AC7);
                if let Some(i) = self.fmap.get(&key) { return *i }
                let i = self.push_form(Form { k, sg, lo, hi, kz, valid: 0, ex, l, kind, def });
                self.fmap.insert(key, i);
                return i;
            }
            // the first description of a word stays: tables and facts over it must keep their meaning
            if ex && !f.ex && f.sg == sg { f.ex = true; f.l = l }
            return *i;
        }
        let i = self.push_form(Form { k, sg, lo, hi, kz, valid: 0, ex, l, kind, def });
        self.fmap.insert((k, a, b), i);
        i
    }
    /// Low j bits of the word named by form f.
    fn residue(&mut self, d: &mut Dom, f: u32, j: u8, w: u8) -> Val {
        let fm = self.forms[f as usize].clone();
        if fm.k <= j && !fm.sg { return self.val_id(d, f, w) }
        let mut l2 = fm.l.l2;
        if fm.k < j { self.exactify(f); l2 = self.forms[f as usize].l.l2 }
        let m = low(j);
        if l2.iter().all(|x| x & m == l2[0] & m) { return d.cst(w, (l2[0] & m) as u128) }
        let (a, b) = hash2(j, &l2);
        let id = match self.fmap.get(&(j, a, b)) {
            Some(i) => *i,
            None => {
                let hi = if j >= 63 { i64::MAX } else { m as i64 };
                let mut l = Lanes::cst(0);
                l.l2 = l2;
                for x in l.l2.iter_mut() { *x &= m }
                if j <= TABK { if let Some(v) = self.shifted(d, j, &l2, w) { return v } }
                let i = self.push_form(Form { k: j, sg: false, lo: 0, hi, kz: fm.kz & m, valid: 0, ex: false, l, kind: Kind2::Plain, def: None });
                self.fmap.insert((j, a, b), i);
                self.enter_class(j, i);
                i
            }
        };
        self.val_id(d, id, w)
    }
    /// Name of a j-bit word up to sign and an additive constant.
    fn class_key(j: u8, l2: &[u64; NL]) -> (u8, u64, u64) {
        let mut p = [0u64; NL];
        let mut q = [0u64; NL];
        for i in 0..NL { p[i] = l2[i].wrapping_sub(l2[0]); q[i] = p[i].wrapping_neg() }
        let (a, b) = hash2(j, &p).min(hash2(j, &q));
        (j, a, b)
    }
    fn enter_class(&mut self, j: u8, f: u32) { let k = Self::class_key(j, &self.forms[f as usize].l.l2); self.cls.entry(k).or_insert(f); }
    /// (negated, c): the word with fingerprint l2 is c + X or c - X modulo 2^j for the word X of form f.
    fn relate(&self, f: u32, l2: &[u64; NL], j: u8) -> Option<(bool, u64)> {
        let m = low(j);
        let r = &self.forms[f as usize].l.l2;
        let c = l2[0].wrapping_sub(r[0]) & m;
        if (0..NL).all(|i| l2[i].wrapping_sub(r[i]) & m == c) { return Some((false, c)) }
        let c = l2[0].wrapping_add(r[0]) & m;
        if (0..NL).all(|i| l2[i].wrapping_add(r[i]) & m == c) { return Some((true, c)) }
        None
    }
    /// The j-bit word as a table over a known word that differs from it by sign and a constant only.
    fn shifted(&mut self, d: &mut Dom, j: u8, l2: &[u64; NL], w: u8) -> Option<Val> {
        let rep = *self.cls.get(&Self::class_key(j, l2))?;
        if self.forms[rep as usize].k != j { return None }
        let (neg, c) = self.relate(rep, l2, j)?;
        let m = low(j);
        let o: Vec<u64> = (0..1u64 << j).map(|x| c.wrapping_add(if neg { x.wrapping_neg() } else { x }) & m).collect();
        Some(self.canon(d, rep, w, Rc::new(o)))
    }
    /// The word of width w equal to (the unsigned word of) form f.
    pub fn val_id(&mut self, d: &mut Dom, f: u32, w: u8) -> Val {
        let fm = &self.forms[f as usize];
        let (lo, hi) = if fm.sg || fm.k >= 63 { (0u128, mask(fm.k.min(w))) } else { (fm.lo as u128, fm.hi as u128) };
        let mut a = AVal::urange(w, lo, hi, 0);
        if fm.sg && fm.k == w { a = AVal::srange(w, fm.lo as i128, fm.hi as i128, 0) }
        a.kz |= fm.kz as u128;
        let k = d.intern(a.norm());
        if d.get(k).is_const().is_some() { return Val::int(k) }
        Val { k, tab: 0, src: f as u64 }
    }
    fn m3(&mut self, f: u32) -> u32 {
        self.exactify(f);
        let l3 = self.forms[f as usize].l.l3;
        if let Some(i) = self.m3map.get(&l3) { return *i }
        let key = l3.iter().fold(0x333u64 ^ self.seed, |a, x| mix(a ^ *x as u64));
        let i = self.atom_keyed(2, 2, key);
        self.exactify(i);
        self.forms[i as usize].l.l3 = l3;
        self.m3map.insert(l3, i);
        self.m3set.insert(i);
        i
    }
    // ---------------------------------------------------------------- tables
    fn outs_of(&mut self, f: u32, x: Val) -> Rc<Vec<u64>> {
        if x.tab != 0 { return self.tabs[x.tab as usize].outs.clone() }
        let k = self.forms[f as usize].k;
        Rc::new((0..1u64 << k).collect())
    }
    /// The word x as a table over form f, when x depends on (a residue of) that word only.
    fn over(&mut self, d: &Dom, x: Val, f: u32) -> Option<Rc<Vec<u64>>> {
        let k = self.forms[f as usize].k;
        if k > TABK { return None }
        if let Some(c) = d.is_const(x) { return Some(Rc::new(vec![c as u64; 1 << k])) }
        let g = x.src as u32;
        if g == f { return Some(self.outs_of(f, x)) }
        let j = self.forms[g as usize].k;
        if j >= k { return None }
        let key = (g, f);
        let rel = match self.liftcache.get(&key) {
            Some(r) => *r,
            None => {
                let l2 = self.forms[f as usize].l.l2;
                let mut r = self.relate(g, &l2, j).map(|(n, c)| (n, c, false));
                if r.is_none() && self.m3set.contains(&g) && self.forms[f as usize].ex && self.forms[f as usize].l.l3 == self.forms[g as usize].l.l3 { r = Some((false, 0, true)) }
                self.liftcache.insert(key, r);
                r
            }
        };
        let (neg, c, three) = rel?;
        let o = self.outs_of(g, x);
        let fm = &self.forms[f as usize];
        let (sg, m) = (fm.sg, low(j));
        Some(Rc::new((0..1u64 << k).map(|v| {
            if three { let s = if sg { sext(v as u128, k) } else { v as i128 }; return o[s.rem_euclid(3) as usize] }
            // X_f mod 2^j = c + X_g or c - X_g
            let y = if neg { c.wrapping_sub(v) } else { v.wrapping_sub(c) } & m;
            o[y as usize]
        }).collect()))
    }
    /// Operands that are both functions of one word of few bits, as tables over that word.
    fn common(&mut self, d: &mut Dom, op: Op, x: Val, y: Val) -> Option<Val> {
        let (kx, ky) = (self.forms[x.src as usize].k, self.forms[y.src as usize].k);
        if kx == ky || kx > TABK || ky > TABK { return None }
        let lin = matches!(op, Op::Add | Op::Sub | Op::Mul);
        if lin && kx.max(ky) > 12 { return None }
        let f = if kx > ky { x.src } else { y.src } as u32;
        let (p, q) = (self.over(d, x, f)?, self.over(d, y, f)?);
        let w = d.av(x).w;
        let o: Vec<u64> = (0..p.len()).map(|i| conc(op, w, p[i] as u128, q[i] as u128) as u64).collect();
        Some(self.canon(d, f, resw(op, w), Rc::new(o)))
    }
    fn table_op(&mut self, d: &mut Dom, op: Op, x: Val, y: Val, f: u32) -> Val {
        let (ax, ay) = (*d.av(x), *d.av(y));
        let k = self.forms[f as usize].k;
        let (cx, cy) = (ax.is_const(), ay.is_const());
        let key = (op as u8, if cx.is_some() { u32::MAX } else { x.tab }, if cy.is_some() || is_unary(op) { u32::MAX } else { y.tab }, k, ax.w as u32, ay.w, cx.or(cy).unwrap_or(0) as u64);
        let rw = resw(op, ax.w);
        let (_, outs) = match self.opcache.get(&key) {
            Some(r) => r.clone(),
            None => {
                let n = 1usize << k;
                let xo = if cx.is_none() { Some(self.outs_of(f, x)) } else { None };
                let yo = if cy.is_none() && !is_unary(op) { Some(self.outs_of(f, y)) } else { None };
                let mut o = Vec::with_capacity(n);
                for i in 0..n {
                    let a = match &xo { Some(v) => v[i] as u128, None => cx.unwrap() };
                    let b = match &yo { Some(v) => v[i] as u128, None => cy.unwrap_or(0) };
                    o.push(conc(op, ax.w, a, b) as u64);
                }
                let r = (rw, Rc::new(o));
                self.opcache.insert(key, r.clone());
                r
            }
        };
        self.canon(d, f, rw, outs)
    }
    /// Value `outs[X]` (w bits) of the word X named by form f, re-based onto what it really depends on.
    pub fn canon(&mut self, d: &mut Dom, f: u32, w: u8, outs: Rc<Vec<u64>>) -> Val {
        let (vid, k) = (self.forms[f as usize].valid, self.forms[f as usize].k);
        let h1 = outs.iter().fold(7u64, |a, x| (a.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95));
        let h2 = outs.iter().fold(9u64, |a, x| (a ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23));
        let key = (vid, w, h1, h2, outs.len());
        let (cr, av) = match self.canoncache.get(&key) {
            Some(r) => r.clone(),
            None => { let r = self.canon_slow(d, vid, k, w, &outs); self.canoncache.insert(key, r.clone()); r }
        };
        match cr {
            CR::Const(c) => d.cst(w, c as u128),
            CR::Id => self.orlike_id(d, Val { k: av, tab: 0, src: f as u64 }),
            CR::Per(j, o) => {
                let r = self.residue(d, f, j, if j <= 8 { 8 } else { 16 });
                if let Some(c) = d.is_const(r) { return d.cst(w, o[c as usize] as u128) }
                self.canon(d, r.src as u32, w, o)
            }
            CR::Three(o) => { self.exactify(f); let l3 = &self.forms[f as usize].l.l3; if l3.iter().all(|x| *x == l3[0]) { let c = o[l3[0] as usize]; return d.cst(w, c as u128) } let m = self.m3(f); self.canon(d, m, w, o) }
            CR::Tab(t) => {
                // zero test of an accumulated word
                if self.orlike(f) {
                    let o = self.tabs[t as usize].outs.clone();
                    let v = self.valids[vid as usize];
                    let rest: BTreeSet<u64> = (1..o.len() as u64).filter(|x| Self::is_valid(&v, *x)).map(|x| o[x as usize]).collect();
                    if rest.len() == 1 {
                        let sv = self_val(d, k, f);
                        let fid = self.zero_facts(d, sv);
                        return self.nz_table(d, fid, w, o[0], *rest.iter().next().unwrap());
                    }
                }
                Val { k: av, tab: t, src: f as u64 }
            }
        }
    }
    fn canon_slow(&mut self, d: &mut Dom, vid: u32, k: u8, w: u8, outs: &Rc<Vec<u64>>) -> (CR, VId) {
        let v = self.valids[vid as usize];
        let xs: Vec<u64> = (0..outs.len() as u64).filter(|x| Self::is_valid(&v, *x)).collect();
        assert!(!xs.is_empty());
        let o: Vec<u64> = xs.iter().map(|x| outs[*x as usize]).collect();
        let av = d.hull(w, &o, 0);
        if o.iter().all(|x| *x == o[0]) { return (CR::Const(o[0]), av) }
        if xs.iter().all(|x| outs[*x as usize] == *x) { return (CR::Id, av) }
        for j in 1..k {
            let m = (1u64 << j) - 1;
            let mut t: Vec<Option<u64>> = vec![None; 1 << j];
            let mut ok = true;
            for x in &xs { let e = &mut t[(x & m) as usize]; match e { None => *e = Some(outs[*x as usize]), Some(y) => if *y != outs[*x as usize] { ok = false; break } } }
            // only a genuine reduction: more than one value per residue class
            if ok && xs.len() > t.iter().filter(|x| x.is_some()).count() {
                let d0 = t.iter().flatten().next().copied().unwrap();
                return (CR::Per(j, Rc::new(t.into_iter().map(|x| x.unwrap_or(d0)).collect())), av);
            }
        }
        if xs.len() > 3 {
            let mut t = [None; 3];
            let val = |x: u64| if v.1 { sext(x as u128, v.0) } else { x as i128 };
            let mut ok = true;
            for x in &xs { let e = &mut t[val(*x).rem_euclid(3) as usize]; match e { None => *e = Some(outs[*x as usize]), Some(y) => if *y != outs[*x as usize] { ok = false; break } } }
            if ok && t.iter().all(|x| x.is_some()) { let d0 = t[0].unwrap(); return (CR::Three(Rc::new(vec![d0, t[1].unwrap(), t[2].unwrap(), d0])), av) }
        }
        // values outside the valid set do not matter: make them canonical
        let d0 = o[0];
        let norm: Vec<u64> = (0..outs.len() as u64).map(|x| if Self::is_valid(&v, x) { outs[x as usize] } else { d0 }).collect();
        let t = self.mktab(w, Rc::new(norm));
        (CR::Tab(t), av)
    }
    fn orlike(&self, f: u32) -> bool { let fm = &self.forms[f as usize]; matches!(fm.def, Some((Op::Or, ..))) || matches!(fm.kind, Kind2::Xor(..)) || matches!(fm.kind, Kind2::Piece(..)) }
    fn orlike_id(&mut self, d: &mut Dom, x: Val) -> Val {
        let f = x.src as u32;
        if self.orlike(f) && self.forms[f as usize].hi == 1 && !self.forms[f as usize].sg && self.forms[f as usize].k <= 1 {
            let fid = self.zero_facts(d, x);
            let w = d.av(x).w;
            return self.nz_table(d, fid, w, 0, 1);
        }
        x
    }
    // ---------------------------------------------------------------- zero tests
    fn nz(&mut self, fid: u32) -> u32 {
        if let Some(i) = self.nzmap.get(&fid) { return *i }
        let i = self.atom(1, 1);
        self.forms[i as usize].kind = Kind2::Nz(fid);
        self.nzmap.insert(fid, i);
        i
    }
    pub fn nz_table(&mut self, d: &mut Dom, fid: u32, w: u8, zero: u64, other: u64) -> Val {
        let fc = &self.facts[fid as usize];
        if zero == other { return d.cst(w, zero as u128) }
        if fc.bot { return d.cst(w, other as u128) }
        if fc.at.is_empty() && fc.rows.is_empty() && fc.other.is_empty() { return d.cst(w, zero as u128) }
        let g = self.nz(fid);
        self.canon(d, g, w, Rc::new(vec![zero, other]))
    }
    pub fn fact_id(&mut self, f: Facts) -> u32 {
        if let Some(i) = self.factmap.get(&f) { return *i }
        let i = self.facts.len() as u32;
        self.facts.push(f.clone());
        self.factmap.insert(f, i);
        i
    }
    fn merge(a: &mut Facts, b: &Facts, forms: &[Form], valids: &[(u8, bool, i64, i64, u64)]) {
        a.bot |= b.bot;
        for (f, z) in &b.at { Self::add_at(a, *f, z, forms, valids) }
        for v in &b.rows { a.add_lin(*v) }
        a.other.extend(b.other.iter().cloned());
    }
    fn add_at(a: &mut Facts, f: u32, z: &Rc<Vec<u64>>, forms: &[Form], valids: &[(u8, bool, i64, i64, u64)]) {
        let v = match a.at.get(&f) { None => z.clone(), Some(o) => Rc::new(o.iter().filter(|x| z.binary_search(x).is_ok()).copied().collect()) };
        let _ = (forms, valids);
        if v.is_empty() { a.bot = true }
        a.at.insert(f, v);
    }
    /// The facts equivalent to "the word is zero".
    pub fn zero_facts(&mut self, d: &mut Dom, x: Val) -> u32 {
        let mut fs = Facts::new();
        let mut stack = vec![x];
        while let Some(v) = stack.pop() {
            if let Some(c) = d.is_const(v) { if c != 0 { fs.bot = true } continue }
            let f = v.src as u32;
            let fm = self.forms[f as usize].clone();
            if v.tab == 0 && !fm.sg {
                match (&fm.kind, &fm.def) {
                    (Kind2::Nz(id), _) => { let o = self.facts[*id as usize].clone(); Self::merge(&mut fs, &o, &self.forms, &self.valids); continue }
                    (Kind2::Piece(id, 0, r), _) if d.get(*r).ulo > 0 => { let o = self.facts[*id as usize].clone(); Self::merge(&mut fs, &o, &self.forms, &self.valids); continue }
                    (_, Some((Op::Or, a, b))) => { stack.push(*a); stack.push(*b); continue }
                    (_, Some((Op::Add, a, b))) if fm.ex && d.av(*a).uhi + d.av(*b).uhi <= mask(d.av(*a).w) => { stack.push(*a); stack.push(*b); continue }
                    (_, Some((Op::Sub, a, b))) => if let (Some(p), Some(q)) = (self.enc(d, *a, false), self.enc(d, *b, false)) { let mut r = p.lp; for i in 0..NP { r[i] = subp(r[i], q.lp[i]) } fs.add_lin(r); continue }
                    (Kind2::Xor(es, 0), _) if es.len() == 2 => {
                        if let (Some(p), Some(q)) = (self.enc(d, es[0], false), self.enc(d, es[1], false)) { let mut r = p.lp; for i in 0..NP { r[i] = subp(r[i], q.lp[i]) } fs.add_lin(r); continue }
                    }
                    (Kind2::Ite(g, a, b), _) if d.is_const(*a) == Some(0) && d.av(*b).ulo > 0 && matches!(self.forms[*g as usize].kind, Kind2::Nz(_)) => { let Kind2::Nz(id) = self.forms[*g as usize].kind else { unreachable!() }; let o = self.facts[id as usize].clone(); Self::merge(&mut fs, &o, &self.forms, &self.valids); continue }
                    (Kind2::Ite(..), _) => { fs.other.insert((f, 0, true)); continue }
                    _ => {}
                }
            }
            if fm.k <= TABK {
                let vd = self.valids[fm.valid as usize];
                let o = self.outs_of(f, v);
                let z: Vec<u64> = (0..o.len() as u64).filter(|x| Self::is_valid(&vd, *x) && o[*x as usize] == 0).collect();
                if let Kind2::Nz(id) = fm.kind {
                    if z == [0] { let o = self.facts[id as usize].clone(); Self::merge(&mut fs, &o, &self.forms, &self.valids); continue }
                    let o = self.facts[id as usize].clone();
                    if o.at.len() == 1 && o.rows.is_empty() && o.other.is_empty() {
                        let (f2, z2) = o.at.iter().next().unwrap();
                        let vd2 = self.valids[self.forms[*f2 as usize].valid as usize];
                        let n2 = 1u64 << self.forms[*f2 as usize].k;
                        let c: Vec<u64> = (0..n2).filter(|x| Self::is_valid(&vd2, *x) && z2.binary_search(x).is_err()).collect();
                        let (f2, c) = (*f2, Rc::new(c));
                        Self::add_at(&mut fs, f2, &c, &self.forms, &self.valids);
                    } else { fs.other.insert((f, 0, false)); }
                    continue;
                }
                if z.is_empty() { fs.bot = true; continue }
                if z == [0] && v.tab != 0 && (fm.def.is_some() || matches!(fm.kind, Kind2::Xor(..) | Kind2::Piece(..))) && !fm.sg { stack.push(self_val(d, fm.k, f)); continue }
                Self::add_at(&mut fs, f, &Rc::new(z), &self.forms, &self.valids);
                continue;
            }
            match self.enc(d, v, false) { Some(l) => fs.add_lin(l.lp), None => { fs.other.insert((f, v.tab, true)); } }
        }
        self.norm_facts(&mut fs);
        self.fact_id(fs)
    }
    fn norm_facts(&mut self, fs: &mut Facts) {
        if fs.bot { *fs = Facts::new(); fs.bot = true; return }
        // facts about low bits of a word that is tested as a whole: keep one set per word
        let ks: BTreeSet<u8> = fs.at.keys().map(|f| self.forms[*f as usize].k).collect();
        if ks.len() > 1 {
            let mut fl: Vec<u32> = fs.at.keys().copied().collect();
            fl.sort_by_key(|f| std::cmp::Reverse(self.forms[*f as usize].k));
            for f in fl {
                if !fs.at.contains_key(&f) { continue }
                let k = self.forms[f as usize].k;
                let l2 = self.forms[f as usize].l.l2;
                for j in ks.iter().copied().filter(|j| *j < k) {
                    let (a, b) = hash2(j, &l2);
                    let mut cand: Vec<u32> = self.fmap.get(&(j, a, b)).into_iter().copied().collect();
                    cand.extend(self.cls.get(&Self::class_key(j, &l2)));
                    for s in cand {
                        if s == f || !fs.at.contains_key(&s) || self.forms[s as usize].k != j { continue }
                        let r: [u64; NL] = l2;
                        let Some((neg, c)) = self.relate(s, &r, j) else { continue };
                        // X_f mod 2^j = c + X_s or c - X_s
                        let zs = fs.at.remove(&s).unwrap();
                        let m = low(j);
                        let keep: Vec<u64> = fs.at[&f].iter().copied().filter(|x| { let y = if neg { c.wrapping_sub(*x) } else { x.wrapping_sub(c) } & m; zs.binary_search(&y).is_ok() }).collect();
                        if keep.is_empty() { fs.bot = true }
                        fs.at.insert(f, Rc::new(keep));
                    }
                }
            }
        }
        if fs.bot { *fs = Facts::new(); fs.bot = true; return }
        let keys: Vec<u32> = fs.at.keys().copied().collect();
        for f in keys {
            let z = fs.at[&f].clone();
            let vd = self.valids[self.forms[f as usize].valid as usize];
            let n = (0..1u64 << self.forms[f as usize].k).filter(|x| Self::is_valid(&vd, *x)).count();
            if z.len() == n { fs.at.remove(&f); }
            else if z.len() == 1 && n > 2 {
                self.exactify(f);
                let fm = &self.forms[f as usize];
                let c = if fm.sg { sext(z[0] as u128, fm.k) } else { z[0] as i128 };
                let v = fm.l.sub(&Lanes::cst(c)).lp;
                fs.at.remove(&f);
                fs.add_lin(v);
            }
        }
        if fs.bot { *fs = Facts::new(); fs.bot = true }
    }
    /// Facts for "x equals y".
    pub fn eq_facts(&mut self, d: &mut Dom, x: Val, y: Val) -> Option<u32> {
        if let Some(0) = d.is_const(y) { return Some(self.zero_facts(d, x)) }
        if let Some(0) = d.is_const(x) { return Some(self.zero_facts(d, y)) }
        if let (Some(c), None) = (d.is_const(y), d.is_const(x)) {
            let f = x.src as u32;
            let fm = &self.forms[f as usize];
            if fm.k <= TABK && !matches!(fm.kind, Kind2::Nz(_)) {
                let vd = self.valids[fm.valid as usize];
                let o = self.outs_of(f, x);
                let z: Vec<u64> = (0..o.len() as u64).filter(|x| Self::is_valid(&vd, *x) && o[*x as usize] as u128 == c).collect();
                let mut fs = Facts::new();
                if z.is_empty() { fs.bot = true } else { fs.at.insert(f, Rc::new(z)); }
                self.norm_facts(&mut fs);
                return Some(self.fact_id(fs));
            }
        }
        let (p, q) = (self.enc(d, x, false)?, self.enc(d, y, false)?);
        let mut fs = Facts::new();
        let mut r = p.lp;
        for i in 0..NP { r[i] = subp(r[i], q.lp[i]) }
        fs.add_lin(r);
        Some(self.fact_id(fs))
    }
    /// A word that takes one of two known values depending on a test: (test, value if 0, value if 1).
    pub fn guard_of(&mut self, d: &mut Dom, x: Val) -> Option<(u32, u64, u64)> {
        if d.is_const(x).is_some() { return None }
        let f = x.src as u32;
        let fm = self.forms[f as usize].clone();
        if let Kind2::Nz(_) = fm.kind { let o = self.outs_of(f, x); return Some((f, o[0], o[1])) }
        if fm.k > TABK || x.tab == 0 && fm.k > 1 { return None }
        let vd = self.valids[fm.valid as usize];
        let o = self.outs_of(f, x);
        let xs: Vec<u64> = (0..o.len() as u64).filter(|x| Self::is_valid(&vd, *x)).collect();
        let a = o[xs[0] as usize];
        let mut b = None;
        for v in &xs { let y = o[*v as usize]; if y != a { match b { None => b = Some(y), Some(z) => if z != y { return None } } } }
        let b = b?;
        let z: Vec<u64> = xs.iter().copied().filter(|v| o[*v as usize] == a).collect();
        let mut fs = Facts::new();
        fs.at.insert(f, Rc::new(z));
        self.norm_facts(&mut fs);
        let fid = self.fact_id(fs);
        let g = self.nz(fid);
        let zs: Vec<bool> = (0..o.len()).map(|x| o[x] == a).collect();
        self.single.insert(g, (f, Rc::new(zs)));
        Some((g, a, b))
    }
    /// The values a word of few bits can take.
    pub fn values(&mut self, d: &mut Dom, x: Val) -> Option<Rc<Vec<u64>>> {
        if let Some(c) = d.is_const(x) { return Some(Rc::new(vec![c as u64])) }
        let f = x.src as u32;
        let fm = &self.forms[f as usize];
        if fm.k > TABK || fm.k > 8 && x.tab == 0 { return None }
        let vd = self.valids[fm.valid as usize];
        let o = self.outs_of(f, x);
        let mut v: Vec<u64> = (0..o.len() as u64).filter(|x| Self::is_valid(&vd, *x)).map(|x| o[x as usize]).collect();
        v.sort();
        v.dedup();
        Some(Rc::new(v))
    }
    /// For each branch target but the last: a test that is 0 exactly when the branch goes there.
    pub fn switch_guards(&mut self, d: &mut Dom, x: Val, tg: &[usize], target: &dyn Fn(u64) -> usize) -> Vec<(usize, u32)> {
        if d.is_const(x).is_some() { return vec![] }
        let f = x.src as u32;
        if let Kind2::Nz(_) = self.forms[f as usize].kind { let o = self.outs_of(f, x); return vec![(target(o[0]), f)] }
        if self.forms[f as usize].k > TABK {
            // a wide word compared with zero
            if tg.len() == 2 && target(0) != target(1) { let fid = self.zero_facts(d, x); let fc = &self.facts[fid as usize]; if fc.bot { return vec![] } let g = self.nz(fid); return vec![(target(0), g)] }
            return vec![];
        }
        let vd = self.valids[self.forms[f as usize].valid as usize];
        let o = self.outs_of(f, x);
        let mut r = vec![];
        let mut order: Vec<usize> = tg.to_vec();
        // of two targets the one taken for fewer values
        if order.len() == 2 { order.sort_by_key(|t| (0..o.len() as u64).filter(|x| Self::is_valid(&vd, *x) && target(o[*x as usize]) == *t).count()) }
        for t in order.iter().take(tg.len() - 1) {
            let z: Vec<u64> = (0..o.len() as u64).filter(|x| Self::is_valid(&vd, *x) && target(o[*x as usize]) == *t).collect();
            let mut fs = Facts::new();
            fs.at.insert(f, Rc::new(z));
            self.norm_facts(&mut fs);
            let fid = self.fact_id(fs);
            let g = self.nz(fid);
            self.single.insert(g, (f, Rc::new((0..o.len() as u64).map(|x| target(o[x as usize]) == *t).collect())));
            r.push((*t, g));
        }
        r
    }
    // ---------------------------------------------------------------- guarded values
    fn is_ite(&self, d: &Dom, x: Val) -> bool { d.is_const(x).is_none() && x.tab == 0 && matches!(self.forms[x.src as usize].kind, Kind2::Ite(..)) }
    pub fn ite_of(&mut self, d: &mut Dom, x: Val) -> Option<(u32, Val, Val)> {
        if !self.is_ite(d, x) { return None }
        let Kind2::Ite(g, a, b) = self.forms[x.src as usize].kind.clone() else { return None };
        // the alternatives at the width of this word
        let w = d.av(x).w;
        let a = if d.av(a).w != w { self.bin(d, zx(w), a, a) } else { a };
        let b = if d.av(b).w != w { self.bin(d, zx(w), b, b) } else { b };
        Some((g, a, b))
    }
    pub fn same(&mut self, d: &Dom, x: Val, y: Val) -> bool {
        if x == y { return true }
        if !x.is_int() || !y.is_int() { return false }
        let (a, b) = (d.av(x), d.av(y));
        if a.w != b.w { return false }
        match (a.is_const(), b.is_const()) { (Some(p), Some(q)) => return p == q, (None, None) => {} _ => return false }
        if x.src == y.src && x.tab == y.tab { return true }
        self.key(d, x) == self.key(d, y)
    }
    /// Canonical name of the word (equal words have equal names).
    pub fn key(&mut self, d: &Dom, x: Val) -> (u64, u64) {
        if !x.is_int() { return (x.k as u64 ^ 0xF00D0000, x.src ^ ((x.tab as u64) << 40)) }
        let w = d.av(x).w;
        if w <= 64 { if let Some(l) = self.enc_mod(d, x) { return hash2(w, &l) } }
        if let Some(c) = d.is_const(x) { return (c as u64 ^ 0xC0, (c >> 64) as u64) }
        (x.src ^ 0xABCD_0000_0000, x.tab as u64)
    }
    pub fn mkite(&mut self, d: &mut Dom, g: u32, a: Val, b: Val) -> Val {
        if self.same(d, a, b) { return a }
        let w = d.av(a).w;
        // the test and both alternatives are functions of one word
        if let Some((f, z)) = self.single.get(&g).cloned() {
            if let (Some(p), Some(q)) = (self.over(d, a, f), self.over(d, b, f)) {
                let o: Vec<u64> = (0..z.len()).map(|i| if z[i] { p[i] } else { q[i] }).collect();
                return self.canon(d, f, w, Rc::new(o));
            }
        }
        if let (Some(p), Some(q), true) = (d.is_const(a), d.is_const(b), w <= 64) { return self.canon(d, g, w, Rc::new(vec![p as u64, q as u64])) }
        // the alternatives as seen on their side of the test
        let (a, b) = (self.under(d, a, g, false), self.under(d, b, g, true));
        if let (Some(p), Some(q), true) = (d.is_const(a), d.is_const(b), w <= 64) { return self.canon(d, g, w, Rc::new(vec![p as u64, q as u64])) }
        if let Some(r) = self.step_if(d, g, a, b) { return r }
        // zero exactly where counting up wraps to zero
        if w == 128 {
            if let Kind2::Nz(fid) = self.forms[g as usize].kind { if d.is_const(a) == Some(0) && d.is_const(b).is_none() && self.wraps.get(&(b.src as u32)) == Some(&fid) { return b } }
        }
        if self.order && w == 32 && d.is_const(a).is_none() && d.is_const(b).is_none() {
            // selections that are not orders do not pile up: the result is some word determined by test and alternatives
            if self.is_ite(d, a) || self.is_ite(d, b) {
                let v = d.intern(AVal::top(32, 0));
                let (p, q) = (Val { k: v, tab: 0, src: g as u64 }, self.opaque(d, Op::Sub, a, b, v));
                return self.opaque(d, Op::Xor, p, q, v);
            }
            if let Some(less) = self.order_of(d, g, a, b) { let (lo, hi) = self.minmax(d, a, b); return if less { lo } else { hi } }
        }
        let av = d.av(a).join(d.av(b));
        let k = d.intern(av);
        self.exactify(g);
        let gl = self.forms[g as usize].l.clone();
        let r = match (self.enc(d, a, false), self.enc(d, b, false)) {
            (Some(p), Some(q)) => {
                let l = p.add(&q.sub(&p).mul(&gl));
                let kk = bitlen(av.uhi as u64).max(1);
                self.intern_form(kk, false, 0, if kk >= 63 { i64::MAX } else { av.uhi as i64 }, 0, true, l, Kind2::Ite(g, a, b), None)
            }
            _ => return self.opaque(d, Op::Xor, a, b, k),
        };
        Val { k, tab: 0, src: r as u64 }
    }
    /// The outcome of a comparison of which only "zero exactly if the operands are equal" is known.
    pub fn order_word(&mut self, d: &mut Dom, equal: Val, w: u8, x: Val, y: Val) -> Option<Val> {
        let (g, a, b) = self.guard_of(d, equal)?;
        if !matches!(self.forms[g as usize].kind, Kind2::Nz(_)) || (a, b) != (1, 0) { return None }
        let r = d.intern(AVal { ulo: 1, ..AVal::top(w, 0) }.norm());
        let other = self.opaque(d, Op::Sub, x, y, r);
        let zero = d.cst(w, 0);
        Some(self.mkite(d, g, zero, other))
    }
    /// The facts under which a word that is 0 or 1 is 1.
    fn holds(&mut self, d: &Dom, x: Val) -> Option<Facts> {
        if !x.is_int() || d.is_const(x).is_some() || x.src == 0 { return None }
        let f = x.src as u32;
        let fm = &self.forms[f as usize];
        if let Kind2::Nz(id) = fm.kind { if x.tab != 0 && *self.tabs[x.tab as usize].outs == [1, 0] { return Some(self.facts[id as usize].clone()) } return None }
        if fm.k > TABK || x.tab == 0 || d.av(x).uhi > 1 { return None }
        let vd = self.valids[fm.valid as usize];
        let o = self.outs_of(f, x);
        let z: Vec<u64> = (0..o.len() as u64).filter(|x| Self::is_valid(&vd, *x) && o[*x as usize] == 1).collect();
        let mut fs = Facts::new();
        fs.at.insert(f, Rc::new(z));
        Some(fs)
    }
    fn both(&mut self, a: &Facts, b: &Facts) -> u32 {
        let mut f = a.clone();
        Self::merge(&mut f, b, &self.forms, &self.valids);
        self.norm_facts(&mut f);
        self.fact_id(f)
    }
    /// The carry out of a byte (1 for one of its values) as a test of that byte.
    fn carry_test(&mut self, d: &mut Dom, x: Val) -> Option<Val> {
        let fm = &self.forms[x.src as usize];
        if fm.k != 8 || fm.sg || fm.hi != 255 || x.tab == 0 || matches!(fm.kind, Kind2::Nz(_)) { return None }
        let o = &self.tabs[x.tab as usize].outs;
        if o.iter().any(|y| *y > 1) || o.iter().sum::<u64>() != 1 { return None }
        let h = self.holds(d, x)?;
        let id = self.both(&h, &Facts::new());
        let w = d.av(x).w;
        Some(self.nz_table(d, id, w, 1, 0))
    }
    /// A word counted up under a test, or a test within a test: the two tests combined.
    fn step_if(&mut self, d: &mut Dom, g: u32, a: Val, b: Val) -> Option<Val> {
        let w = d.av(a).w;
        if w > 64 { return None }
        let Kind2::Nz(fid) = self.forms[g as usize].kind else { return None };
        let fg = self.facts[fid as usize].clone();
        if d.is_const(b) == Some(0) { if let Some(h) = self.holds(d, a) { let id = self.both(&h, &fg); return Some(self.nz_table(d, id, w, 1, 0)) } return None }
        if d.is_const(b) == Some(1) && d.av(a).uhi <= 1 { if let Some((h, 0, 1)) = self.guard_of(d, a) { if let Kind2::Nz(id) = self.forms[h as usize].kind { let h = self.facts[id as usize].clone(); let id = self.both(&h, &fg); return Some(self.nz_table(d, id, w, 0, 1)) } } return None }
        if w != 8 || d.is_const(a).is_some() || d.is_const(b).is_some() { return None }
        let ka = self.key(d, a);
        if let Some((x, h)) = self.sums.get(&ka).cloned() {
            if self.same(d, x, b) { let id = self.both(&h, &fg); let c = self.nz_table(d, id, w, 1, 0); return Some(self.bin(d, Op::Add, b, c)) }
        }
        let (p, q) = (self.enc_mod(d, a)?, self.enc_mod(d, b)?);
        if (0..NL).all(|i| p[i].wrapping_sub(q[i]) & low(w) == 1) { let c = self.nz_table(d, fid, w, 1, 0); return Some(self.bin(d, Op::Add, b, c)) }
        None
    }
    /// Operand as seen when test g is 0 / 1.
    fn under(&mut self, d: &mut Dom, x: Val, g: u32, side: bool) -> Val {
        if d.is_const(x).is_some() { return x }
        if let Some((h, a, b)) = self.ite_of(d, x) { if h == g { return if side { b } else { a } } }
        if x.src as u32 == g { let w = d.av(x).w; let o = self.outs_of(g, x); return d.cst(w, o[side as usize] as u128) }
        // a function of the one word the test looks at
        if let Some((f, z)) = self.single.get(&g).cloned() {
            if x.is_int() && x.src as u32 == f && d.av(x).w <= 64 {
                let (w, o, vd) = (d.av(x).w, self.outs_of(f, x), self.valids[self.forms[f as usize].valid as usize]);
                let mut r = None;
                for i in 0..z.len().min(o.len()) {
                    if z[i] == side || !Self::is_valid(&vd, i as u64) { continue }
                    match r { None => r = Some(o[i]), Some(p) => if p != o[i] { return x } }
                }
                if let Some(c) = r { return d.cst(w, c as u128) }
            }
        }
        x
    }
    // ---------------------------------------------------------------- operators
    pub fn opaque(&mut self, d: &mut Dom, op: Op, x: Val, y: Val, v: VId) -> Val {
        let (a, b) = (self.key(d, x), self.key(d, y));
        let (a, b) = if matches!(op, Op::Xor | Op::And | Op::Or | Op::Add | Op::Mul | Op::Eq | Op::Ne) && b < a { (b, a) } else { (a, b) };
        *self.opaque_ops.entry(format!("{:?}", op)).or_insert(0) += 1;
        let av = *d.get(v);
        let key = (a.0 ^ ((op as u64) << 3), a.1, b.0, b.1 ^ av.w as u64);
        let f = match self.opmap.get(&key) {
            Some(f) => *f,
            None => {
                let hi = av.uhi.min(u64::MAX as u128) as u64;
                let k = if av.w > 64 { 128 } else { bitlen(hi).max(1) };
                let f = if k == 128 { self.wide(Kind2::Plain) } else { self.atom(k, hi) };
                self.forms[f as usize].kz = (av.kz as u64) & low(k.min(64));
                let fm = &self.forms[f as usize];
                let t = (fm.k, fm.sg, fm.lo, fm.hi, fm.kz);
                let id = self.valid_id(t);
                self.forms[f as usize].valid = id;
                self.opmap.insert(key, f);
                f
            }
        };
        if self.forms[f as usize].def.is_none() { self.forms[f as usize].def = Some((op, x, y)) }
        Val { k: v, tab: 0, src: f as u64 }
    }
    fn wide(&mut self, kind: Kind2) -> u32 {
        self.push_form(Form { k: 128, sg: false, lo: 0, hi: i64::MAX, kz: 0, valid: 0, ex: false, l: Lanes::cst(0), kind, def: None })
    }
    fn from_exact(&mut self, d: &mut Dom, w: u8, sg: bool, v: VId, l: Lanes, def: Option<(Op, Val, Val)>) -> Val {
        if l.l2.iter().all(|x| *x == l.l2[0]) { return d.cst(w, l.l2[0] as u128) }
        let a = *d.get(v);
        if !sg || a.slo >= 0 {
            let hi = a.uhi.min(i64::MAX as u128) as i64;
            let k = bitlen(hi as u64).max(1);
            let f = self.intern_form(k, false, a.ulo as i64, hi, a.kz as u64 & low(k), true, l, Kind2::Plain, def);
            return Val { k: v, tab: 0, src: f as u64 };
        }
        let k = if a.slo >= -32768 && a.shi <= 32767 { 16u8.min(w) } else { w };
        let f = self.intern_form(k, true, a.slo as i64, a.shi as i64, 0, true, l, Kind2::Plain, def);
        if k == w { return Val { k: v, tab: 0, src: f as u64 } }
        let o: Vec<u64> = (0..1u64 << k).map(|x| (sext(x as u128, k) as u128 & mask(w)) as u64).collect();
        let mut r = self.canon(d, f, w, Rc::new(o));
        if r.src == f as u64 { r.k = v }
        r
    }
    fn from_mod(&mut self, d: &mut Dom, w: u8, v: VId, l2: [u64; NL], def: Option<(Op, Val, Val)>) -> Val {
        let m = low(w);
        if l2.iter().all(|x| x & m == l2[0] & m) { return d.cst(w, (l2[0] & m) as u128) }
        let mut l = Lanes::cst(0);
        l.l2 = l2;
        for x in l.l2.iter_mut() { *x &= m }
        let a = *d.get(v);
        let hi = if w >= 63 { i64::MAX } else { a.uhi as i64 };
        let k = if w >= 63 { w } else { bitlen(hi as u64).max(1) };
        if k <= TABK && k == w {
            let (a, b) = hash2(k, &l.l2);
            if !self.fmap.contains_key(&(k, a, b)) { if let Some(r) = self.shifted(d, k, &l.l2, w) { return r } }
        }
        let f = self.intern_form(k, false, a.ulo as i64, hi, a.kz as u64 & low(k), false, l, Kind2::Plain, def);
        if k <= TABK { self.enter_class(k, f) }
        Val { k: v, tab: 0, src: f as u64 }
    }
    /// Ring operation on words: exact when the ranges exclude wrapping, otherwise modulo 2^w.
    fn linear(&mut self, d: &mut Dom, op: Op, x: Val, y: Val, v: VId, forced: Option<bool>) -> Option<Val> {
        let (a, b) = (*d.av(x), *d.av(y));
        let w = a.w;
        if w > 64 { return None }
        let m = mask(w);
        let (u_ok, s_ok) = match op {
            Op::Add => (a.uhi + b.uhi <= m, a.slo + b.slo >= smin(w) && a.shi + b.shi <= smax(w)),
            Op::Sub => (a.ulo >= b.uhi, a.slo - b.shi >= smin(w) && a.shi - b.slo <= smax(w)),
            Op::Mul => (a.uhi.checked_mul(b.uhi).map(|z| z <= m).unwrap_or(false), {
                let c: Vec<Option<i128>> = vec![a.slo.checked_mul(b.slo), a.slo.checked_mul(b.shi), a.shi.checked_mul(b.slo), a.shi.checked_mul(b.shi)];
                c.iter().all(|z| matches!(z, Some(z) if *z >= smin(w) && *z <= smax(w)))
            }),
            _ => return None,
        };
        let (u_ok, s_ok) = (u_ok || forced == Some(false), s_ok || forced == Some(true));
        let ap = |p: &Lanes, q: &Lanes| match op { Op::Add => p.add(q), Op::Sub => p.sub(q), _ => p.mul(q) };
        let def = Some((op, x, y));
        if u_ok { if let (Some(p), Some(q)) = (self.enc(d, x, false), self.enc(d, y, false)) { return Some(self.from_exact(d, w, false, v, ap(&p, &q), def)) } }
        if s_ok { if let (Some(p), Some(q)) = (self.enc(d, x, true), self.enc(d, y, true)) { return Some(self.from_exact(d, w, true, v, ap(&p, &q), def)) } }
        let (p, q) = (self.enc_mod(d, x)?, self.enc_mod(d, y)?);
        let mut r = p;
        for i in 0..NL { r[i] = match op { Op::Add => p[i].wrapping_add(q[i]), Op::Sub => p[i].wrapping_sub(q[i]), _ => p[i].wrapping_mul(q[i]) } }
        Some(self.from_mod(d, w, v, r, if op == Op::Sub { def } else { None }))
    }
    fn xor_parts(&self, d: &Dom, x: Val) -> (Vec<Val>, u64) {
        if let Some(c) = d.is_const(x) { return (vec![], c as u64) }
        if x.tab == 0 { if let Kind2::Xor(v, c) = &self.forms[x.src as usize].kind { return (v.clone(), *c) } }
        (vec![x], 0)
    }
    pub fn bin(&mut self, d: &mut Dom, op0: Op, x: Val, y: Val) -> Val {
        let r = self.bin0(d, op0, x, y);
        if op0 == Op::Add && d.av(x).w == 8 {
            for (a, b) in [(x, y), (y, x)] { if let Some(h) = self.holds(d, b) { if d.is_const(a).is_none() && d.is_const(r).is_none() { let k = self.key(d, r); self.sums.entry(k).or_insert((a, h)); } } }
        }
        r
    }
    fn bin0(&mut self, d: &mut Dom, op0: Op, x: Val, y: Val) -> Val {
        let un = is_unary(op0);
        let (cx, cy) = (d.is_const(x), d.is_const(y));
        let (ax, ay) = (*d.av(x), *d.av(y));
        let w = ax.w;
        let rw = resw(op0, w);
        if let (Some(p), true) = (cx, un || cy.is_some()) { let c = conc(op0, w, p, cy.unwrap_or(0)); return d.cst(rw, c) }
        let v = d.range_op(op0, x.k, y.k);
        if let Some(c) = d.get(v).is_const() { return d.cst(rw, c) }
        let (op, forced) = match op0 { Op::AddC => (Op::Add, Some(false)), Op::SubC => (Op::Sub, Some(false)), Op::MulC => (Op::Mul, Some(false)), Op::AddCS => (Op::Add, Some(true)), Op::SubCS => (Op::Sub, Some(true)), Op::MulCS => (Op::Mul, Some(true)), o => (o, None) };
        let m = mask(w);
        // neutral operands
        match op {
            Op::And => { if let Some(c) = cy { if m & !ax.kz & !c == 0 { return x } } if let Some(c) = cx { if m & !ay.kz & !c == 0 { return y } } }
            Op::Or | Op::Xor | Op::Add => { if cy == Some(0) { return x } if cx == Some(0) { return y } }
            Op::Sub | Op::Shl | Op::ShrU | Op::ShrS | Op::RotL | Op::RotR => if cy == Some(0) { return x },
            Op::Mul => { if cy == Some(1) { return x } if cx == Some(1) { return y } }
            Op::DivU | Op::DivS => if cy == Some(1) { return x },
            _ => {}
        }
        if let Some((tw, s)) = castw(op) {
            if tw == w { return x }
            // width change that keeps the value
            if tw > w && (!s || ax.slo >= 0) && x.tab == 0 && tw <= 64 && !self.is_ite(d, x) && self.forms[x.src as usize].k <= 64 {
                let a = AVal { w: tw, ..ax };
                let hi = mask(tw) & !mask(w);
                let a = AVal { w: tw, ulo: ax.ulo, uhi: ax.uhi, slo: ax.ulo as i128, shi: ax.uhi as i128, kz: a.kz | hi, ko: a.ko, taint: 0 }.norm();
                let k = d.intern(a);
                return Val { k, tab: 0, src: x.src };
            }
            if tw < w && w <= 64 && ax.uhi <= mask(tw) && x.tab == 0 && !self.is_ite(d, x) {
                let k = d.intern(AVal::urange(tw, ax.ulo, ax.uhi, 0));
                let mut a = *d.get(k);
                a.kz |= ax.kz & mask(tw); a.ko |= ax.ko & mask(tw);
                let k = d.intern(a.norm());
                return Val { k, tab: 0, src: x.src };
            }
        }
        if w > 64 || rw > 64 { return self.wide_op(d, op, x, y, v) }
        // guarded values
        for z in [x, y] {
            if un && z == y && z != x { continue }
            if let Some((g, ..)) = self.ite_of(d, z) {
                if let Some(r) = self.spread.get(&(op0, x, y)) { return *r }
                let (x0, x1) = (self.under(d, x, g, false), self.under(d, x, g, true));
                let (y0, y1) = if un { (y, y) } else { (self.under(d, y, g, false), self.under(d, y, g, true)) };
                let (r0, r1) = (self.bin(d, op0, x0, y0), self.bin(d, op0, x1, y1));
                let r = self.mkite(d, g, r0, r1);
                self.spread.insert((op0, x, y), r);
                return r;
            }
        }
        if let Some(r) = self.split(d, op, x, y) { return r }
        if matches!(op, Op::Add | Op::AddOvU) && cx.is_none() && cy.is_none() && x.src != y.src {
            if let Some(c) = self.carry_test(d, x) { return self.bin(d, op0, c, y) }
            if let Some(c) = self.carry_test(d, y) { return self.bin(d, op0, x, c) }
            // carry out of a byte
            if op == Op::AddOvU && w == 8 {
                for (a, b) in [(x, y), (y, x)] {
                    if let Some(h) = self.holds(d, b) { let ff = d.cst(8, 255); if let Some(id) = self.eq_facts(d, a, ff) { let o = self.facts[id as usize].clone(); let id = self.both(&h, &o); return self.nz_table(d, id, 8, 1, 0) } }
                }
            }
        }
        if matches!(w, 32 | 64) { if let Some(r) = self.bytewise(d, op, x, y) { return r } }
        if op == Op::ShrU && cy == Some(8) && x.tab == 0 && ax.uhi == 256 {
            if let Some((Op::Add, a, b)) = self.forms[x.src as usize].def {
                for (a, b) in [(a, b), (b, a)] {
                    if d.av(a).uhi != 255 { continue }
                    if let Some(h) = self.holds(d, b) { let wa = d.av(a).w; let ff = d.cst(wa, 255); if let Some(id) = self.eq_facts(d, a, ff) { let o = self.facts[id as usize].clone(); let id = self.both(&h, &o); return self.nz_table(d, id, w, 1, 0) } }
                }
            }
        }
        let same_src = cx.is_none() && cy.is_none() && x.src == y.src;
        let one = un || cy.is_some() || cx.is_some();
        // tables over a common word
        if same_src || one {
            let f = (if cx.is_some() { y.src } else { x.src }) as u32;
            if self.forms[f as usize].k <= TABK { return self.table_op(d, op, x, y, f) }
        }
        if !un && cx.is_none() && cy.is_none() && self.same(d, x, y) {
            match op { Op::Sub | Op::Xor => return d.cst(w, 0), Op::And | Op::Or => return x, Op::Eq | Op::LeU | Op::LeS => return d.cst(8, 1), Op::Ne | Op::LtU | Op::LtS => return d.cst(8, 0), _ => {} }
        }
        if !one { if let Some(r) = self.common(d, op, x, y) { return r } }
        // two conditions together
        if op == Op::And && !self.order && cx.is_none() && cy.is_none() && w <= 64 && d.av(x).uhi <= 1 && d.av(y).uhi <= 1 && [x, y].iter().any(|z| matches!(self.forms[z.src as usize].kind, Kind2::Nz(_))) {
            if let (Some(a), Some(b)) = (self.holds(d, x), self.holds(d, y)) { let id = self.both(&a, &b); return self.nz_table(d, id, w, 1, 0) }
        }
        // selections by a test
        if !un && matches!(op, Op::And | Op::Or | Op::Xor | Op::Mul) {
            for (g, o) in [(x, y), (y, x)] {
                if d.is_const(g).is_some() || d.is_const(o).is_some() { continue }
                let gf = &self.forms[g.src as usize];
                if !(matches!(gf.kind, Kind2::Nz(_)) || ((gf.k >= 10 || w == 8 && op == Op::And) && gf.k <= TABK && g.tab != 0) || (self.order && gf.k == 1)) { continue }
                if matches!(self.forms[o.src as usize].kind, Kind2::Nz(_)) && op == Op::Or { continue }
                if let Some((gf, a, b)) = self.guard_of(d, g) {
                    let ml = (m & u64::MAX as u128) as u64;
                    let ok = match op { Op::Mul => true, _ => (a == 0 || a == ml) && (b == 0 || b == ml) };
                    if !ok { continue }
                    let (ca, cb) = (d.cst(w, a as u128), d.cst(w, b as u128));
                    let (o0, o1) = (self.under(d, o, gf, false), self.under(d, o, gf, true));
                    let (r0, r1) = (self.bin(d, op, ca, o0), self.bin(d, op, cb, o1));
                    return self.mkite(d, gf, r0, r1);
                }
            }
        }
        if self.order && w >= 32 {
            if matches!(op, Op::ShrU | Op::ShrS) && cy == Some(w as u128 - 1) {
                let v1 = d.intern(AVal::urange(w, 0, 1, 0));
                let c = d.cst(w, w as u128 - 1);
                let s = self.opaque(d, Op::ShrU, x, c, v1);
                return if op == Op::ShrU { s } else { self.canon(d, s.src as u32, w, Rc::new(vec![0, low(w)])) };
            }
            if matches!(op, Op::MinS | Op::MaxS) && w == 32 { let (lo, hi) = self.minmax(d, x, y); return if op == Op::MinS { lo } else { hi } }
        }
        // accumulated zero tests on wide words
        let piece = |s: &Self, z: Val| d.is_const(z).is_none() && matches!(s.forms[z.src as usize].kind, Kind2::Piece(..));
        let apart = matches!(op, Op::Or | Op::Xor) && (m & !ax.kz) & (m & !ay.kz) == 0 && !piece(self, x) && !piece(self, y);
        if !apart { if let Some(r) = self.piecewise(d, op, x, y, v) { return r } }
        match op {
            Op::Add | Op::Sub | Op::Mul => if let Some(r) = self.linear(d, op, x, y, v, forced) { return r },
            Op::Neg => { let z = d.cst(w, 0); let r = d.range_op(Op::Neg, x.k, x.k); if let Some(r) = self.linear(d, Op::Sub, z, x, r, None) { return r } }
            Op::Not => { let z = d.cst(w, m); let r = d.range_op(Op::Not, x.k, x.k); if let Some(r) = self.linear(d, Op::Sub, z, x, r, None) { return r } }
            Op::Shl => if let Some(c) = cy { let z = d.cst(w, 1u128 << (c % w as u128)); if let Some(r) = self.linear(d, Op::Mul, x, z, v, None) { return r } },
            Op::Or | Op::Xor if (m & !ax.kz) & (m & !ay.kz) == 0 => {
                // disjoint bits
                if let (Some(p), Some(q)) = (self.enc(d, x, false), self.enc(d, y, false)) { let r = self.from_exact(d, w, false, v, p.add(&q), Some((Op::Or, x, y))); return self.orlike_id2(d, r) }
                if let (Some(p), Some(q)) = (self.enc_mod(d, x), self.enc_mod(d, y)) { let mut r = p; for i in 0..NL { r[i] = p[i].wrapping_add(q[i]) } return self.from_mod(d, w, v, r, Some((Op::Or, x, y))) }
            }
            Op::And => {
                let (c, o) = match (cx, cy) { (Some(c), _) => (Some(c), y), (_, Some(c)) => (Some(c), x), _ => (None, x) };
                if let Some(c) = c { 
                    let j = bitlen(c as u64);
                    if o.tab == 0 && (c + 1).is_power_of_two() { return self.residue(d, o.src as u32, j, w) }
                    if o.tab == 0 && j <= TABK { let r = self.residue(d, o.src as u32, j, w); let cc = d.cst(w, c); return self.bin(d, Op::And, r, cc) }
                }
            }
            Op::RemU => if let Some(c) = cy { if c.is_power_of_two() && x.tab == 0 { return self.residue(d, x.src as u32, bitlen(c as u64 - 1), w) } },
            Op::Xor => {
                let (mut p, c) = self.xor_parts(d, x);
                let (q, e) = self.xor_parts(d, y);
                for z in q { match p.iter().position(|t| self_same(self, d, *t, z)) { Some(i) => { p.remove(i); } None => p.push(z) } }
                let c = c ^ e;
                if p.is_empty() { return d.cst(w, c as u128) }
                if p.len() == 1 { if c == 0 { return p[0] } let cc = d.cst(w, c as u128); if self.forms[p[0].src as usize].k <= TABK { return self.table_op(d, Op::Xor, p[0], cc, p[0].src as u32) } }
                let mut ks: Vec<(u64, u64)> = p.iter().map(|z| self.key(d, *z)).collect();
                ks.sort();
                let mut h = (0x58u64 ^ c, w as u64);
                for k in ks { h = (mix(h.0 ^ k.0), mix(h.1 ^ k.1)) }
                let key = (h.0, h.1, 0x58, 0x58);
                let f = match self.opmap.get(&key) {
                    Some(f) => *f,
                    None => {
                        let av = *d.get(v);
                        let f = self.atom(bitlen(av.uhi as u64).max(1), av.uhi as u64);
                        self.forms[f as usize].kind = Kind2::Xor(p, c);
                        self.opmap.insert(key, f);
                        f
                    }
                };
                let r = Val { k: v, tab: 0, src: f as u64 };
                return self.orlike_id2(d, r);
            }
            Op::Eq | Op::Ne => if let Some(fid) = self.eq_facts(d, x, y) { return if op == Op::Ne { self.nz_table(d, fid, 8, 0, 1) } else { self.nz_table(d, fid, 8, 1, 0) } },
            _ => {}
        }
        if let Some((tw, s)) = castw(op) {
            if x.tab == 0 {
                let f = x.src as u32;
                if tw < w && !self.forms[f as usize].sg { return self.residue(d, f, tw, tw) }
                if tw < w { let l2 = self.forms[f as usize].l.l2; return self.from_mod(d, tw, v, l2, None) }
                if s { if let Some(l) = self.enc(d, x, true) { return self.from_exact(d, tw, true, v, l, None) } }
            }
        }
        let r = self.opaque(d, op, x, y, v);
        if op == Op::Or { return self.orlike_id2(d, r) }
        r
    }
    /// Shifts, masks and truncations of a word put together from parts with no common bits, part by part.
    fn split(&mut self, d: &mut Dom, op: Op, x: Val, y: Val) -> Option<Val> {
        let (x, y) = if op == Op::And && d.is_const(x).is_some() { (y, x) } else { (x, y) };
        let c = d.is_const(y);
        let part = match op { Op::ShrU | Op::Shl | Op::And => c.is_some(), Op::RemU => matches!(c, Some(c) if c.is_power_of_two()), _ => matches!(castw(op), Some((tw, _)) if tw < d.av(x).w) };
        if !part || d.is_const(x).is_some() || x.tab != 0 { return None }
        let w = d.av(x).w;
        if let Some(z) = self.octs.get(&(x.src as u32)).copied() { if d.av(z).w == w { return if castw(op).is_some() { Some(self.bin(d, op, z, z)) } else { Some(self.bin(d, op, z, y)) } } }
        let fm = &self.forms[x.src as usize];
        if fm.sg || !matches!(fm.kind, Kind2::Plain) { return None }
        let (mut a, mut b) = match fm.def { Some((Op::Or | Op::Xor | Op::Add, a, b)) => (a, b), _ => return None };
        let (p, q) = (*d.av(a), *d.av(b));
        if p.w > w || q.w != p.w || (mask(p.w) & !p.kz) & (mask(p.w) & !q.kz) != 0 { return None }
        if p.w < w { a = self.bin(d, zx(w), a, a); b = self.bin(d, zx(w), b, b) }
        let r = if castw(op).is_some() { (self.bin(d, op, a, a), self.bin(d, op, b, b)) } else { (self.bin(d, op, a, y), self.bin(d, op, b, y)) };
        Some(self.bin(d, Op::Or, r.0, r.1))
    }
    fn orlike_id2(&mut self, d: &mut Dom, r: Val) -> Val {
        if d.is_const(r).is_some() || r.tab != 0 { return r }
        self.orlike_id(d, r)
    }
    fn piece_of(&mut self, d: &mut Dom, x: Val) -> Option<(u32, u64, AVal)> {
        if d.is_const(x).is_some() || x.tab != 0 { return None }
        let f = x.src as u32;
        if let Kind2::Piece(fid, z, r) = self.forms[f as usize].kind { return Some((fid, z, *d.get(r))) }
        if self.orlike(f) && self.forms[f as usize].k > TABK {
            let fid = self.zero_facts(d, x);
            let a = *d.av(x);
            return Some((fid, 0, AVal { ulo: a.ulo.max(1), ..a }.norm()));
        }
        None
    }
    fn piecewise(&mut self, d: &mut Dom, op: Op, x: Val, y: Val, v: VId) -> Option<Val> {
        let un = is_unary(op);
        let (cx, cy) = (d.is_const(x), d.is_const(y));
        let (px, py) = (self.piece_of(d, x), if un { None } else { self.piece_of(d, y) });
        let (fid, zx, nx, zy, ny) = match (px, py) {
            (Some((f, z, n)), None) if un || cy.is_some() => (f, z, n, cy.unwrap_or(0) as u64, *d.av(y)),
            (None, Some((f, z, n))) if cx.is_some() => (f, cx.unwrap() as u64, *d.av(x), z, n),
            (Some((f, z, n)), Some((g, z2, n2))) if f == g => (f, z, n, z2, n2),
            _ => return None,
        };
        let w = d.av(x).w;
        let rw = resw(op, w);
        let z = conc(op, w, zx as u128, zy as u128) as u64;
        let (kx, ky) = (d.intern(nx), d.intern(ny));
        let mut r = d.range_op(op, kx, ky);
        // t | -t has its top bit set when t is not zero
        if op == Op::Or { if let (Some((Op::Neg, a, _)), true) = (self.forms[y.src as usize].def, true) { if self.same(d, a, x) { let mut a = *d.get(r); a.ko |= 1u128 << (w - 1); r = d.intern(a.norm()) } } if let (Some((Op::Neg, a, _)), true) = (self.forms[x.src as usize].def, true) { if self.same(d, a, y) { let mut a = *d.get(r); a.ko |= 1u128 << (w - 1); r = d.intern(a.norm()) } } }
        if let Some(c) = d.get(r).is_const() { return Some(self.nz_table(d, fid, rw, z, c as u64)) }
        // the word keeps its own value number; being zero-test shaped is an additional description
        let lin = match op {
            Op::Add | Op::Sub | Op::Mul => self.linear(d, op, x, y, v, None),
            Op::Neg => { let z = d.cst(w, 0); self.linear(d, Op::Sub, z, x, v, None) }
            Op::Not => { let z = d.cst(w, mask(w)); self.linear(d, Op::Sub, z, x, v, None) }
            _ => None,
        };
        if let Some(l) = lin {
            if d.is_const(l).is_some() || l.tab != 0 { return Some(l) }
            let fm = &mut self.forms[l.src as usize];
            if matches!(fm.kind, Kind2::Plain) && fm.k > TABK { fm.kind = Kind2::Piece(fid, z, r); fm.def = Some((op, x, y)) }
            return Some(l);
        }
        let key = (fid as u64 ^ 0x50494543, z, r as u64 | (op as u64) << 32, mix(x.src ^ mix(y.src)));
        let f = match self.opmap.get(&key) {
            Some(f) => *f,
            None => {
                let f = self.atom(rw.min(63), low(rw.min(63)));
                self.forms[f as usize].kind = Kind2::Piece(fid, z, r);
                self.forms[f as usize].def = Some((op, x, y));
                self.opmap.insert(key, f);
                f
            }
        };
        Some(Val { k: v, tab: 0, src: f as u64 })
    }
    // ---------------------------------------------------------------- order of two words
    /// Minimum and maximum of two signed 32-bit words: one unknown each, determined by the pair.
    pub fn minmax(&mut self, d: &mut Dom, x: Val, y: Val) -> (Val, Val) {
        if self.same(d, x, y) { return (x, y) }
        let v = d.intern(AVal::top(32, 0));
        (self.opaque_comm(d, Op::MinS, x, y, v), self.opaque_comm(d, Op::MaxS, x, y, v))
    }
    fn opaque_comm(&mut self, d: &mut Dom, op: Op, x: Val, y: Val, v: VId) -> Val {
        let (a, b) = (self.key(d, x), self.key(d, y));
        let (x, y) = if b < a { (y, x) } else { (x, y) };
        self.opaque(d, op, x, y, v)
    }
    /// Does the test separate a < b from a > b? Some(true): it is 0 exactly when a < b (a = b aside).
    /// The inputs are partitioned by the signs of a, of b and of their (exact and wrapped) difference; in each part the
    /// test is evaluated on ranges and known bits.
    fn order_of(&mut self, d: &mut Dom, g: u32, a: Val, b: Val) -> Option<bool> {
        let (f, zs) = self.single.get(&g).cloned()?;
        if self.forms[f as usize].k != 1 || a.tab != 0 || b.tab != 0 { return None }
        let (op, x, y) = self.forms[f as usize].def?;
        let (sa, sb) = (self.bin(d, Op::Sx64, a, a), self.bin(d, Op::Sx64, b, b));
        let (d32, n32, d64, n64) = (self.bin(d, Op::Sub, b, a), self.bin(d, Op::Sub, a, b), self.bin(d, Op::Sub, sb, sa), self.bin(d, Op::Sub, sa, sb));
        let m = 1i128 << 31;
        let half = |neg: bool| if neg { (-m, -1) } else { (0, m - 1) };
        let mut seen: [Option<bool>; 2] = [None, None];
        for na in [false, true] { for nb in [false, true] {
            let ((al, ah), (bl, bh)) = (half(na), half(nb));
            for (lo, hi) in [(-(2 * m - 1), -m - 1), (-m, -m), (-(m - 1), -1), (1, m - 1), (m, m), (m + 1, 2 * m - 1)] {
                let (lo, hi) = (lo.max(bl - ah), hi.min(bh - al));
                if lo > hi { continue }
                let wrap = |lo: i128, hi: i128| { let t = |x: i128| sext(x as u128 & mask(32), 32); AVal::srange(32, t(lo), t(hi), 0) };
                let mut env: HashMap<u64, AVal> = HashMap::new();
                for (v, r) in [(a, AVal::srange(32, al, ah, 0)), (b, AVal::srange(32, bl, bh, 0)), (sa, AVal::srange(64, al, ah, 0)), (sb, AVal::srange(64, bl, bh, 0)), (d32, wrap(lo, hi)), (n32, wrap(-hi, -lo)), (d64, AVal::srange(64, lo, hi, 0)), (n64, AVal::srange(64, -hi, -lo, 0))] { if v.tab == 0 && d.is_const(v).is_none() { env.insert(v.src, r.norm()); } }
                let r = self.ev_op(d, op, x, y, &env, 40);
                let c = r.is_const()? as usize;
                let zero = *zs.get(c)?;
                let s = &mut seen[(lo > 0) as usize];
                match s { None => *s = Some(zero), Some(z) if *z == zero => {} _ => return None }
            }
        } }
        match (seen[0]?, seen[1]?) { (false, true) => Some(true), (true, false) => Some(false), _ => None }
    }
    fn ev(&mut self, d: &mut Dom, x: Val, env: &HashMap<u64, AVal>, depth: u32) -> AVal {
        let xa = *d.av(x);
        if xa.is_const().is_some() || depth == 0 { return xa }
        let fit = |a: AVal| if a.w == xa.w { a } else if a.uhi <= mask(xa.w) { AVal::urange(xa.w, a.ulo, a.uhi, 0).norm() } else { xa };
        let fm = self.forms[x.src as usize].clone();
        let base = match env.get(&x.src) { Some(a) => *a, None => match (&fm.kind, fm.def) {
            (Kind2::Xor(p, c), _) => {
                let w = d.av(p[0]).w;
                let mut acc = AVal::urange(w, *c as u128, *c as u128, 0).norm();
                for z in p.clone() { let e = self.ev(d, z, env, depth - 1); let (i, j) = (d.intern(acc), d.intern(e)); let r = d.range_op(Op::Xor, i, j); acc = *d.get(r) }
                acc
            }
            (_, Some((op, p, q))) => self.ev_op(d, op, p, q, env, depth - 1),
            _ => if x.tab == 0 { xa } else { return xa },
        } };
        if x.tab == 0 { return fit(base) }
        match base.is_const() { Some(c) => { let o = self.outs_of(x.src as u32, x); match o.get(c as usize) { Some(v) => AVal::urange(xa.w, *v as u128, *v as u128, 0).norm(), None => xa } } None => xa }
    }
    fn ev_op(&mut self, d: &mut Dom, op: Op, x: Val, y: Val, env: &HashMap<u64, AVal>, depth: u32) -> AVal {
        if matches!(op, Op::LtS | Op::LeS) && d.av(x).w <= 64 {
            let (p, q) = (self.bin(d, Op::Sx64, x, x), self.bin(d, Op::Sx64, y, y));
            let df = self.bin(d, Op::Sub, p, q);
            if let Some(a) = env.get(&df.src) { if a.slo > 0 || a.shi < 0 { let c = (a.shi < 0) as u128; return AVal::urange(8, c, c, 0).norm() } }
        }
        let p = self.ev(d, x, env, depth);
        let q = if is_unary(op) { p } else { self.ev(d, y, env, depth) };
        let (i, j) = (d.intern(p), d.intern(q));
        let r = d.range_op(op, i, j);
        *d.get(r)
    }
    // ---------------------------------------------------------------- wide words as bytes
    pub fn byte_vec(&mut self, d: &mut Dom, x: Val) -> Option<Vec<Val>> {
        let w = d.av(x).w;
        let n = (w / 8) as usize;
        if let Some(c) = d.is_const(x) { return Some((0..n).map(|i| d.cst(8, (c >> (8 * i)) & 0xff)).collect()) }
        if x.tab != 0 { return None }
        match &self.forms[x.src as usize].kind { Kind2::Bytes(b) if b.len() == n => Some(b.clone()), _ => None }
    }
    fn mkbytes(&mut self, d: &mut Dom, w: u8, b: Vec<Val>, v: Option<VId>) -> Val {
        let c: Option<Vec<u128>> = b.iter().map(|x| d.is_const(*x)).collect();
        if let Some(c) = c { let mut r = 0u128; for (i, x) in c.iter().enumerate() { r |= x << (8 * i) } return d.cst(w, r) }
        let mut h = (w as u64 ^ 0xB17E5, 77u64);
        for x in &b { let k = self.key(d, *x); h = (mix(h.0 ^ k.0), mix(h.1 ^ k.1)) }
        let key = (h.0, h.1, 0xB17E5, w as u64);
        let f = match self.opmap.get(&key) { Some(f) => *f, None => { let f = self.wide(Kind2::Bytes(b.clone())); self.opmap.insert(key, f); f } };
        let k = match v { Some(v) => v, None => {
            let mut kz = 0u128;
            for (i, x) in b.iter().enumerate() { kz |= (d.av(*x).kz & 0xff) << (8 * i) }
            let mut a = AVal::top(w, 0); a.kz = kz;
            d.intern(a.norm())
        } };
        Val { k, tab: 0, src: f as u64 }
    }
    fn wide_op(&mut self, d: &mut Dom, op: Op, x: Val, y: Val, v: VId) -> Val {
        let w = d.av(x).w;
        let cy = d.is_const(y);
        if let Some((tw, s)) = castw(op) {
            if tw == 128 && w == 8 && !s { let z = d.cst(8, 0); let mut b = vec![z; 16]; b[0] = x; return self.mkbytes(d, 128, b, None) }
            if tw == 128 && !s { if let Some(mut b) = self.octets(d, x) { b.resize(16, d.cst(8, 0)); return self.mkbytes(d, 128, b, None) } }
            if w == 128 { if let Some(b) = self.byte_vec(d, x) {
                if tw == 8 { return b[0] }
                // assemble the narrower word
                let mut acc = d.cst(tw, 0);
                for i in 0..(tw / 8) as usize { let z = self.bin(d, zx(tw), b[i], b[i]); let c = d.cst(tw, 8 * i as u128); let z = self.bin(d, Op::Shl, z, c); acc = self.bin(d, Op::Or, acc, z) }
                return acc;
            } }
        }
        if w == 128 {
            match (op, cy) {
                (Op::Shl, Some(c)) if c % 8 == 0 => if let Some(b) = self.byte_vec(d, x) { let z = d.cst(8, 0); let n = (c / 8) as usize; let r = (0..16).map(|i| if i >= n { b[i - n] } else { z }).collect(); return self.mkbytes(d, 128, r, None) },
                (Op::ShrU, Some(c)) if c % 8 == 0 => if let Some(b) = self.byte_vec(d, x) { let z = d.cst(8, 0); let n = (c / 8) as usize; let r = (0..16).map(|i| if i + n < 16 { b[i + n] } else { z }).collect(); return self.mkbytes(d, 128, r, None) },
                (Op::Or, _) | (Op::Xor, _) | (Op::And, _) => if let (Some(a), Some(b)) = (self.byte_vec(d, x), self.byte_vec(d, y)) { let r = (0..16).map(|i| self.bin(d, op, a[i], b[i])).collect(); return self.mkbytes(d, 128, r, None) },
                (Op::Bswap, _) => if let Some(mut b) = self.byte_vec(d, x) { b.reverse(); return self.mkbytes(d, 128, b, None) },
                (Op::Add, _) => for (c, z) in [(cy, x), (d.is_const(x), y)] {
                    // repeated increment
                    if let (Some(c), Some(mut b)) = (c, self.byte_vec(d, z)) { if c <= 4096 {
                        let first = b.clone();
                        for _ in 0..c { b = self.increment(d, &b) }
                        let r = self.mkbytes(d, 128, b, None);
                        if c == 1 && d.is_const(r).is_none() { let (_, mut f) = self.count_up(d, &first, Facts::new()); self.norm_facts(&mut f); let id = self.fact_id(f); self.wraps.insert(r.src as u32, id); }
                        return r;
                    } }
                },
                (Op::Eq, _) | (Op::Ne, _) => if let (Some(a), Some(b)) = (self.byte_vec(d, x), self.byte_vec(d, y)) {
                    let mut fs = Some(Facts::new());
                    for i in 0..16 { let id = self.eq_facts(d, a[i], b[i]); fs = match (fs, id) { (Some(mut f), Some(id)) => { let o = self.facts[id as usize].clone(); Self::merge(&mut f, &o, &self.forms, &self.valids); Some(f) } _ => None } }
                    if let Some(mut f) = fs { self.norm_facts(&mut f); let id = self.fact_id(f); let e = (op == Op::Eq) as u64; return self.nz_table(d, id, 8, e, 1 - e) }
                },
                (Op::AddOvU, Some(1)) => if let Some(b) = self.byte_vec(d, x) { let (_, mut f) = self.count_up(d, &b, Facts::new()); self.norm_facts(&mut f); let id = self.fact_id(f); return self.nz_table(d, id, 8, 1, 0) },
                _ => {}
            }
        }
        self.opaque(d, op, x, y, v)
    }
    /// Bytes (least significant first) of the number plus one.
    pub fn increment(&mut self, d: &mut Dom, b: &[Val]) -> Vec<Val> { self.count_up(d, b, Facts::new()).0 }
    /// Bytes (least significant first) of the number, plus one if the facts hold, and the facts under which it wraps.
    fn count_up(&mut self, d: &mut Dom, b: &[Val], facts: Facts) -> (Vec<Val>, Facts) {
        let mut out = vec![];
        let mut fs = facts;
        for x in b {
            let mut f2 = fs.clone(); self.norm_facts(&mut f2); let id = self.fact_id(f2);
            let carry = self.nz_table(d, id, 8, 1, 0);
            out.push(self.bin(d, Op::Add, *x, carry));
            let ff = d.cst(8, 255);
            if let Some(id) = self.eq_facts(d, *x, ff) { let o = self.facts[id as usize].clone(); Self::merge(&mut fs, &o, &self.forms, &self.valids) } else { fs.other.insert((x.src as u32, x.tab, true)); }
        }
        (out, fs)
    }
    /// The bytes (least significant first) of a word put together from parts with no common bits.
    fn octets(&mut self, d: &mut Dom, x: Val) -> Option<Vec<Val>> {
        let w = d.av(x).w;
        if d.is_const(x).is_some() || x.tab != 0 || !matches!(w, 32 | 64) { return None }
        let x = match self.octs.get(&(x.src as u32)) { Some(y) if d.av(*y).w == w => *y, _ => x };
        if !matches!(self.forms[x.src as usize].def, Some((Op::Or, ..))) || !matches!(self.forms[x.src as usize].kind, Kind2::Plain) { return None }
        let mut r = vec![];
        for i in 0..w / 8 {
            let c = d.cst(w, 8 * i as u128);
            let z = self.bin(d, Op::ShrU, x, c);
            let z = self.bin(d, zx(8), z, z);
            if d.is_const(z).is_none() && self.forms[z.src as usize].k > TABK { return None }
            r.push(z);
        }
        Some(r)
    }
    fn assemble(&mut self, d: &mut Dom, w: u8, b: &[Val]) -> Val {
        let mut acc = d.cst(w, 0);
        for (i, x) in b.iter().enumerate() { let z = self.bin(d, zx(w), *x, *x); let c = d.cst(w, 8 * i as u128); let z = self.bin(d, Op::Shl, z, c); acc = self.bin(d, Op::Or, acc, z) }
        acc
    }
    /// Byte reversal and counting up by at most one of a word put together from bytes.
    fn bytewise(&mut self, d: &mut Dom, op: Op, x: Val, y: Val) -> Option<Val> {
        let w = d.av(x).w;
        if op == Op::Bswap { let mut b = self.octets(d, x)?; b.reverse(); return Some(self.assemble(d, w, &b)) }
        if !matches!(op, Op::Add | Op::AddOvU) { return None }
        for (x, y) in [(x, y), (y, x)] {
            let h = if d.is_const(y) == Some(1) { Facts::new() } else { match self.holds(d, y) { Some(h) => h, None => continue } };
            let Some(b) = self.octets(d, x) else { continue };
            let (r, mut f) = self.count_up(d, &b, h);
            if op == Op::Add {
                let v = d.range_op(op, x.k, y.k);
                let z = self.linear(d, op, x, y, v, None)?;
                if d.is_const(z).is_none() && z.tab == 0 { let a = self.assemble(d, w, &r); self.octs.insert(z.src as u32, a); }
                return Some(z);
            }
            self.norm_facts(&mut f);
            let id = self.fact_id(f);
            return Some(self.nz_table(d, id, 8, 1, 0));
        }
        None
    }
    pub fn exact_val(&mut self, d: &mut Dom, w: u8, v: VId, l: Lanes) -> Val { self.from_exact(d, w, false, v, l, None) }
    pub fn mod_val(&mut self, d: &mut Dom, w: u8, v: VId, l2: [u64; NL]) -> Val { self.from_mod(d, w, v, l2, None) }
    pub fn modl(&mut self, d: &Dom, x: Val) -> [u64; NL] { self.enc_mod(d, x).expect("word without fingerprint") }
    /// Name of the low `bits` bits of a word.
    pub fn key_bits(&mut self, d: &Dom, x: Val, bits: u8) -> (u64, u64) { match self.enc_mod(d, x) { Some(l) => hash2(bits, &l), None => (x.src, x.tab as u64 ^ 0xFFFF_0000) } }
    /// The residue of x modulo 2^j, declared to lie in {-1, 0, 1}.
    pub fn restrict_residue(&mut self, d: &mut Dom, x: Val, j: u8) -> Val {
        if let Some(c) = d.is_const(x) { return d.cst(16, c & mask(j)) }
        let mut l = Lanes::cst(0);
        l.l2 = self.modl(d, x);
        for v in l.l2.iter_mut() { *v &= low(j) }
        let f = self.intern_form(j, true, -1, 1, 0, false, l, Kind2::Plain, None);
        self.enter_class(j, f);
        let k = d.intern(AVal::urange(16, 0, mask(j), 0));
        Val { k, tab: 0, src: f as u64 }
    }
    pub fn describe(&self, d: &Dom, x: Val) -> String {
        if !x.is_int() { return d.show(x) }
        if let Some(c) = d.is_const(x) { return format!("{}", c) }
        let f = &self.forms[x.src as usize];
        let nm = self.names.get(&(x.src as u32)).cloned().unwrap_or_else(|| match &f.kind { Kind2::Nz(_) => "test".into(), Kind2::Ite(..) => "guarded value".into(), Kind2::Xor(..) => "xor".into(), Kind2::Piece(..) => "test word".into(), Kind2::Bytes(_) => "bytes".into(), Kind2::Plain => format!("expr{}", x.src) });
        if x.tab != 0 { format!("table({})", nm) } else { nm }
    }
}
fn self_val(d: &mut Dom, k: u8, f: u32) -> Val { let w = if k <= 8 { 8 } else if k <= 16 { 16 } else if k <= 32 { 32 } else { 64 }; let v = d.intern(AVal::urange(w, 0, mask(k), 0)); Val { k: v, tab: 0, src: f as u64 } }
fn self_same(s: &mut Sym, d: &Dom, a: Val, b: Val) -> bool { s.same(d, a, b) }

pub fn with<R>(d: &mut Dom, f: impl FnOnce(&mut Sym, &mut Dom) -> R) -> R {
    let mut s = d.sym.take().expect("value numbering not active");
    let r = f(&mut s, d);
    d.sym = Some(s);
    r
}
pub fn bin(d: &mut Dom, op: Op, x: Val, y: Val) -> Val { with(d, |s, d| s.bin(d, op, x, y)) }
pub fn fresh(d: &mut Dom, a: AVal) -> Val {
    let v = d.intern(a);
    if a.is_const().is_some() { return Val::int(v) }
    with(d, |s, _| {
        let f = if a.w > 64 { s.wide(Kind2::Plain) } else { s.atom(bitlen(a.uhi as u64).max(1), a.uhi as u64) };
        Val { k: v, tab: 0, src: f as u64 }
    })
}
pub fn name_atom(d: &mut Dom, v: Val, algo: &str, ev: usize, i: usize) {
    if let Some(s) = d.sym.as_mut() { s.names.insert(v.src as u32, format!("{}#{}[{}]", algo, ev, i)); }
}
pub fn cut(it: &mut Interp, st: &mut State, key: &str, name: &str, av: &[(Addr, TyInfo)], tys: &[Ty], dst: Addr, di: TyInfo, dty: Ty) {
    if it.d.sym.is_some() && crate::spec::contract(it, st, key, name, av, tys) { return }
    havoc_outputs(it, st, av, tys, dst, di, dty)
}
/// Unknown values, labelled with the labels of everything the call could read, into all memory it may write.
pub fn havoc_outputs(it: &mut Interp, st: &mut State, av: &[(Addr, TyInfo)], tys: &[Ty], dst: Addr, di: TyInfo, dty: Ty) {
    let mut t = 0;
    let mut outs = vec![];
    for (i, (a, inf)) in av.iter().enumerate() {
        let ptr = tys.get(i).and_then(|t| match rigid(*t) { Some(RigidTy::Ref(_, p, m)) => Some((p, matches!(m, Mutability::Mut))), _ => None });
        match ptr {
            Some((p, m)) => {
                let n = it.lo.info(p).size;
                let v = it.read(st, *a, 8);
                let base = it.deref(v, Val::UNINIT);
                if let Some(al) = it.get_alloc(st, base.alloc) { for v in al.vals.iter() { t |= it.d.taint(*v) } }
                if m { outs.push((base, n, p)) }
            }
            None => { if !matches!(inf.kind, Kind::Other) { let v = it.read(st, *a, inf.size); t |= it.d.taint(v) } else {
                let al: Vec<Val> = (0..inf.size as i64).filter_map(|o| it.get_alloc(st, a.alloc).map(|al| al.vals[(a.off + o) as usize])).collect();
                for v in al { t |= it.d.taint(v) }
            } }
        }
    }
    for (b, n, ty) in outs {
        let es = leaf_size(it, ty);
        let mut o = 0;
        while o < n { let v = it.d.fresh(AVal::top((es * 8) as u8, t)); let x = it.shift(b, o as i64); it.write(st, x, es, v); o += es }
    }
    if di.size > 0 {
        if matches!(di.kind, Kind::Other) {
            let es = leaf_size(it, dty);
            let mut o = 0;
            while o < di.size { let v = it.d.fresh(AVal::top((es * 8) as u8, t)); let x = it.shift(dst, o as i64); it.write(st, x, es, v); o += es }
        } else { it.havoc_ret(st, dst, di) }
    }
}
fn leaf_size(it: &mut Interp, ty: Ty) -> u64 {
    match rigid(ty) {
        Some(RigidTy::Array(t, _)) | Some(RigidTy::Slice(t)) => leaf_size(it, t),
        Some(RigidTy::Adt(d, _)) => { let vs = d.variants(); if vs.len() == 1 { let fs = vs[0].fields(); if fs.len() == 1 { return leaf_size(it, fs[0].ty()) } } 1 }
        _ => it.lo.info(ty).size.clamp(1, 8),
    }
}
