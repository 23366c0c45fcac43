//! Abstract values: reduced product of unsigned/signed intervals, known bits and
//! dependence labels, plus finite tables relating values that stem from one origin.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = 0u64;
            for (i, v) in c.iter().enumerate() {
                x |= (*v as u64) << (8 * i);
            }
            self.write_u64(x);
        }
    }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type VId = u32;
pub type TId = u32;

/// Bit width 8..128. All bounds are kept consistent by `norm`.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct AVal {
    pub w: u8,
    pub ulo: u128,
    pub uhi: u128,
    pub slo: i128,
    pub shi: i128,
    pub kz: u128,
    pub ko: u128,
    pub taint: u64,
}

pub fn mask(w: u8) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn smin(w: u8) -> i128 { if w >= 128 { i128::MIN } else { -(1i128 << (w - 1)) } }
pub fn smax(w: u8) -> i128 { if w >= 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 } }
pub fn sext(x: u128, w: u8) -> i128 {
    if w >= 128 { x as i128 } else { ((x << (128 - w)) as i128) >> (128 - w) }
}

impl AVal {
    pub fn top(w: u8, taint: u64) -> AVal {
        AVal { w, ulo: 0, uhi: mask(w), slo: smin(w), shi: smax(w), kz: 0, ko: 0, taint }
    }
    pub fn cst(w: u8, x: u128) -> AVal {
        let x = x & mask(w);
        let s = sext(x, w);
        AVal { w, ulo: x, uhi: x, slo: s, shi: s, kz: !x & mask(w), ko: x, taint: 0 }
    }
    pub fn urange(w: u8, lo: u128, hi: u128, taint: u64) -> AVal {
        let mut a = AVal::top(w, taint);
        a.ulo = lo;
        a.uhi = hi;
        a.norm()
    }
    pub fn srange(w: u8, lo: i128, hi: i128, taint: u64) -> AVal {
        let mut a = AVal::top(w, taint);
        a.slo = lo;
        a.shi = hi;
        a.norm()
    }
    pub fn is_const(&self) -> Option<u128> { if self.ulo == self.uhi { Some(self.ulo) } else { None } }

    pub fn norm(mut self) -> AVal {
        let w = self.w;
        let m = mask(w);
        for _ in 0..3 {
            let before = self;
            // known bits -> unsigned bounds
            if self.ulo < self.ko { self.ulo = self.ko }
            if self.uhi > (m & !self.kz) { self.uhi = m & !self.kz }
            // align to known low bits
            let known = self.kz | self.ko;
            let t = (!known & m).trailing_zeros().min(w as u32);
            if t > 0 && t < w as u32 {
                let lm = (1u128 << t) - 1;
                let low = self.ko & lm;
                let cur = self.ulo & lm;
                if cur != low {
                    let base = self.ulo & !lm;
                    let cand = base | low;
                    if cand >= self.ulo { self.ulo = cand } else if let Some(c) = cand.checked_add(1u128 << t) { if c <= m { self.ulo = c } }
                }
                let cur = self.uhi & lm;
                if cur != low {
                    let base = self.uhi & !lm;
                    let cand = base | low;
                    if cand <= self.uhi { self.uhi = cand } else if cand >= (1u128 << t) { self.uhi = cand - (1u128 << t) }
                }
                let slow = low as i128;
                let cur = (self.slo as u128) & lm;
                if cur != low {
                    let base = self.slo & !(lm as i128);
                    let cand = base | slow;
                    if cand >= self.slo { self.slo = cand } else if let Some(c) = cand.checked_add(1i128 << t) { if c <= smax(w) { self.slo = c } }
                }
                let cur = (self.shi as u128) & lm;
                if cur != low {
                    let base = self.shi & !(lm as i128);
                    let cand = base | slow;
                    if cand <= self.shi { self.shi = cand } else if let Some(c) = cand.checked_sub(1i128 << t) { if c >= smin(w) { self.shi = c } }
                }
            }
            let half = 1u128 << (w - 1);
            // sign bit
            if self.kz & half != 0 && self.slo < 0 { self.slo = 0 }
            if self.ko & half != 0 && self.shi >= 0 { self.shi = -1 }
            // unsigned <-> signed
            if self.uhi < half || self.ulo >= half {
                let a = sext(self.ulo, w);
                let b = sext(self.uhi, w);
                if a > self.slo { self.slo = a }
                if b < self.shi { self.shi = b }
            }
            if self.slo >= 0 || self.shi < 0 {
                let a = (self.slo as u128) & m;
                let b = (self.shi as u128) & m;
                if a > self.ulo { self.ulo = a }
                if b < self.uhi { self.uhi = b }
            }
            // common prefix -> known bits
            if self.ulo <= self.uhi {
                let diff = self.ulo ^ self.uhi;
                let sh = 128 - diff.leading_zeros();
                let hm = if sh >= 128 { 0 } else { (u128::MAX << sh) & m };
                self.ko |= self.ulo & hm;
                self.kz |= !self.ulo & hm;
            }
            if self == before { break }
        }
        if self.ulo > self.uhi || self.slo > self.shi || (self.kz & self.ko) != 0 {
            // contradictory (unreachable) value: stay sound with top
            return AVal::top(w, self.taint);
        }
        self
    }
    pub fn join(&self, o: &AVal) -> AVal {
        AVal {
            w: self.w,
            ulo: self.ulo.min(o.ulo),
            uhi: self.uhi.max(o.uhi),
            slo: self.slo.min(o.slo),
            shi: self.shi.max(o.shi),
            kz: self.kz & o.kz,
            ko: self.ko & o.ko,
            taint: self.taint | o.taint,
        }
        .norm()
    }
    pub fn count(&self) -> u128 {
        let u = self.uhi - self.ulo;
        let s = (self.shi as u128).wrapping_sub(self.slo as u128);
        let b = (mask(self.w) & !(self.kz | self.ko)).count_ones();
        let kb = if b >= 127 { u128::MAX } else { (1u128 << b) - 1 };
        u.min(s).min(kb).saturating_add(1)
    }
    /// All concrete values, when at most `limit`.
    pub fn enumerate(&self, limit: usize) -> Option<Vec<u64>> {
        if self.w > 64 || self.count() > limit as u128 { return None }
        let m = mask(self.w);
        let ok = |x: u128| x >= self.ulo && x <= self.uhi && (x & self.kz) == 0 && (x & self.ko) == self.ko && { let s = sext(x, self.w); s >= self.slo && s <= self.shi };
        let mut out = vec![];
        if self.uhi - self.ulo < limit as u128 {
            let mut x = self.ulo;
            while x <= self.uhi { if ok(x) { out.push(x as u64) } x += 1 }
        } else if self.shi - self.slo < limit as i128 {
            let mut s = self.slo;
            while s <= self.shi { let x = (s as u128) & m; if ok(x) { out.push(x as u64) } s += 1 }
            out.sort();
        } else {
            let free = m & !(self.kz | self.ko);
            let mut sub = 0u128;
            loop {
                let x = self.ko | sub;
                if ok(x) { out.push(x as u64) }
                sub = sub.wrapping_sub(free) & free;
                if sub == 0 { break }
            }
            out.sort();
        }
        Some(out)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Add, Sub, Mul, AddC, SubC, MulC, AddCS, SubCS, MulCS,
    AddOvU, SubOvU, MulOvU, AddOvS, SubOvS, MulOvS,
    DivU, DivS, RemU, RemS,
    Xor, And, Or,
    Shl, ShrU, ShrS,
    Eq, Ne, LtU, LeU, LtS, LeS,
    // unary (second operand ignored)
    Not, Neg, BoolNot,
    // casts: target width in the variant
    Zx8, Zx16, Zx32, Zx64, Zx128, Sx8, Sx16, Sx32, Sx64, Sx128,
    Bswap, Ctpop, Clz, Ctz, RotL, RotR, MinU, MaxU, MinS, MaxS,
}
pub fn zx(w: u8) -> Op { match w { 8 => Op::Zx8, 16 => Op::Zx16, 32 => Op::Zx32, 64 => Op::Zx64, _ => Op::Zx128 } }
pub fn sx(w: u8) -> Op { match w { 8 => Op::Sx8, 16 => Op::Sx16, 32 => Op::Sx32, 64 => Op::Sx64, _ => Op::Sx128 } }
pub fn castw(op: Op) -> Option<(u8, bool)> {
    Some(match op {
        Op::Zx8 => (8, false), Op::Zx16 => (16, false), Op::Zx32 => (32, false), Op::Zx64 => (64, false), Op::Zx128 => (128, false),
        Op::Sx8 => (8, true), Op::Sx16 => (16, true), Op::Sx32 => (32, true), Op::Sx64 => (64, true), Op::Sx128 => (128, true),
        _ => return None,
    })
}
pub fn is_unary(op: Op) -> bool {
    castw(op).is_some() || matches!(op, Op::Not | Op::Neg | Op::BoolNot | Op::Bswap | Op::Ctpop | Op::Clz | Op::Ctz)
}
pub fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ne | Op::LtU | Op::LeU | Op::LtS | Op::LeS | Op::AddOvU | Op::SubOvU | Op::MulOvU | Op::AddOvS | Op::SubOvS | Op::MulOvS)
}

/// Concrete meaning of an operator on w-bit words (result masked to the result width).
pub fn conc(op: Op, w: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let (sa, sb) = (sext(a, w), sext(b, w));
    let bl = |x: bool| x as u128;
    match op {
        Op::Add | Op::AddC | Op::AddCS => a.wrapping_add(b) & m,
        Op::Sub | Op::SubC | Op::SubCS => a.wrapping_sub(b) & m,
        Op::Mul | Op::MulC | Op::MulCS => a.wrapping_mul(b) & m,
        Op::AddOvU => bl(match a.checked_add(b) { Some(x) => x > m, None => true }),
        Op::SubOvU => bl(a < b),
        Op::MulOvU => bl(match a.checked_mul(b) { Some(x) => x > m, None => true }),
        Op::AddOvS => bl(match sa.checked_add(sb) { Some(x) => x < smin(w) || x > smax(w), None => true }),
        Op::SubOvS => bl(match sa.checked_sub(sb) { Some(x) => x < smin(w) || x > smax(w), None => true }),
        Op::MulOvS => bl(match sa.checked_mul(sb) { Some(x) => x < smin(w) || x > smax(w), None => true }),
        Op::DivU => if b == 0 { 0 } else { a / b },
        Op::RemU => if b == 0 { 0 } else { a % b },
        Op::DivS => if sb == 0 { 0 } else { (sa.wrapping_div(sb) as u128) & m },
        Op::RemS => if sb == 0 { 0 } else { (sa.wrapping_rem(sb) as u128) & m },
        Op::Xor => a ^ b,
        Op::And => a & b,
        Op::Or => a | b,
        Op::Shl => (a << (b % w as u128)) & m,
        Op::ShrU => a >> (b % w as u128),
        Op::ShrS => ((sa >> (b % w as u128)) as u128) & m,
        Op::Eq => bl(a == b),
        Op::Ne => bl(a != b),
        Op::LtU => bl(a < b),
        Op::LeU => bl(a <= b),
        Op::LtS => bl(sa < sb),
        Op::LeS => bl(sa <= sb),
        Op::Not => !a & m,
        Op::Neg => a.wrapping_neg() & m,
        Op::BoolNot => a ^ 1,
        Op::Bswap => { let mut r = 0; for i in 0..(w / 8) { r |= ((a >> (8 * i)) & 0xff) << (w - 8 - 8 * i) } r }
        Op::Ctpop => a.count_ones() as u128,
        Op::Clz => (a.leading_zeros() as u128).saturating_sub(128 - w as u128),
        Op::Ctz => (a.trailing_zeros() as u128).min(w as u128),
        Op::RotL => { let k = (b % w as u128) as u32; if k == 0 { a } else { ((a << k) | (a >> (w as u32 - k))) & m } }
        Op::RotR => { let k = (b % w as u128) as u32; if k == 0 { a } else { ((a >> k) | (a << (w as u32 - k))) & m } }
        Op::MinU => a.min(b),
        Op::MaxU => a.max(b),
        Op::MinS => (sa.min(sb) as u128) & m,
        Op::MaxS => (sa.max(sb) as u128) & m,
        _ => {
            let (tw, signed) = castw(op).unwrap();
            if signed { (sa as u128) & mask(tw) } else { a & mask(tw) }
        }
    }
}
/// Result width of an operator on w-bit operands.
pub fn resw(op: Op, w: u8) -> u8 {
    if is_cmp(op) { 8 } else if let Some((tw, _)) = castw(op) { tw } else if matches!(op, Op::Ctpop | Op::Clz | Op::Ctz) { 32 } else { w }
}

fn known_add(a: &AVal, bz: u128, bo: u128, carry: u128, w: u8) -> (u128, u128) {
    // possible sums with all unknown bits 0 / 1
    let m = mask(w);
    let maxa = m & !a.kz;
    let maxb = m & !bz;
    let psz = maxa.wrapping_add(maxb).wrapping_add(carry);
    let pso = a.ko.wrapping_add(bo).wrapping_add(carry);
    let ckz = !(psz ^ a.kz ^ bz);
    let cko = pso ^ a.ko ^ bo;
    // LLVM: CarryKnownZero = ~(PossibleSumZero ^ LHS.Zero ^ RHS.Zero)
    let known_carry = ckz | cko;
    let lk = a.kz | a.ko;
    let rk = bz | bo;
    let known = lk & rk & known_carry & m;
    (!psz & known, pso & known)
}

/// Range transfer function. `w` is the operand width.
pub fn rng(op: Op, a: &AVal, b: &AVal) -> AVal {
    let w = a.w;
    let t = a.taint | if is_unary(op) { 0 } else { b.taint };
    if let (Some(x), true) = (a.is_const(), is_unary(op)) {
        let mut r = AVal::cst(resw(op, w), conc(op, w, x, 0));
        r.taint = t;
        return r;
    }
    if let (Some(x), Some(y)) = (a.is_const(), b.is_const()) {
        let mut r = AVal::cst(resw(op, w), conc(op, w, x, y));
        r.taint = t;
        return r;
    }
    let m = mask(w);
    let boolv = |lo: u128, hi: u128| AVal::urange(8, lo, hi, t);
    match op {
        Op::Add | Op::AddC | Op::AddCS | Op::Sub | Op::SubC | Op::SubCS => {
            let sub = matches!(op, Op::Sub | Op::SubC | Op::SubCS);
            let mut r = AVal::top(w, t);
            let (kz, ko) = if sub { known_add(a, b.ko, b.kz, 1, w) } else { known_add(a, b.kz, b.ko, 0, w) };
            r.kz = kz;
            r.ko = ko;
            // unsigned view
            if !sub {
                match (a.ulo.checked_add(b.ulo), a.uhi.checked_add(b.uhi)) {
                    (Some(l), Some(h)) => {
                        if h <= m { r.ulo = l; r.uhi = h }
                        else if l > m && h <= m.saturating_mul(2).saturating_add(1) && w < 128 { r.ulo = l & m; r.uhi = h & m }
                        else if op == Op::AddC { r.ulo = l.min(m); r.uhi = m }
                    }
                    (Some(l), None) if op == Op::AddC => { r.ulo = l.min(m) }
                    _ => {}
                }
            } else {
                if a.ulo >= b.uhi { r.ulo = a.ulo - b.uhi; r.uhi = a.uhi - b.ulo }
                else if a.uhi < b.ulo { r.ulo = a.ulo.wrapping_sub(b.uhi) & m; r.uhi = a.uhi.wrapping_sub(b.ulo) & m }
                else if op == Op::SubC { r.ulo = 0; r.uhi = a.uhi.saturating_sub(b.ulo) }
            }
            // signed view
            let (l, h) = if sub { (a.slo.checked_sub(b.shi), a.shi.checked_sub(b.slo)) } else { (a.slo.checked_add(b.slo), a.shi.checked_add(b.shi)) };
            if let (Some(l), Some(h)) = (l, h) {
                if l >= smin(w) && h <= smax(w) { r.slo = l; r.shi = h }
                else if matches!(op, Op::AddCS | Op::SubCS) { r.slo = l.max(smin(w)).min(smax(w)); r.shi = h.min(smax(w)).max(smin(w)) }
            }
            r.norm()
        }
        Op::Mul | Op::MulC | Op::MulCS => {
            let mut r = AVal::top(w, t);
            let tz = (mtz(a) + mtz(b)).min(w as u32);
            r.kz |= if tz >= 128 { u128::MAX & m } else { ((1u128 << tz) - 1) & m };
            if let Some(h) = a.uhi.checked_mul(b.uhi) {
                if h <= m { r.ulo = a.ulo * b.ulo; r.uhi = h }
                else if op == Op::MulC { r.ulo = a.ulo.saturating_mul(b.ulo).min(m); r.uhi = m }
            }
            let c = [a.slo.checked_mul(b.slo), a.slo.checked_mul(b.shi), a.shi.checked_mul(b.slo), a.shi.checked_mul(b.shi)];
            if c.iter().all(|x| x.is_some()) {
                let l = c.iter().map(|x| x.unwrap()).min().unwrap();
                let h = c.iter().map(|x| x.unwrap()).max().unwrap();
                if l >= smin(w) && h <= smax(w) { r.slo = l; r.shi = h }
                else if op == Op::MulCS { r.slo = l.max(smin(w)); r.shi = h.min(smax(w)) }
            }
            r.norm()
        }
        Op::AddOvU => match (a.ulo.checked_add(b.ulo), a.uhi.checked_add(b.uhi)) {
            (_, Some(h)) if h <= m => boolv(0, 0),
            (Some(l), _) if l <= m => boolv(0, 1),
            _ => boolv(1, 1),
        },
        Op::SubOvU => if a.ulo >= b.uhi { boolv(0, 0) } else if a.uhi < b.ulo { boolv(1, 1) } else { boolv(0, 1) },
        Op::MulOvU => match (a.ulo.checked_mul(b.ulo), a.uhi.checked_mul(b.uhi)) {
            (_, Some(h)) if h <= m => boolv(0, 0),
            (Some(l), _) if l <= m => boolv(0, 1),
            _ => boolv(1, 1),
        },
        Op::AddOvS | Op::SubOvS => {
            let (l, h) = if op == Op::SubOvS { (a.slo.checked_sub(b.shi), a.shi.checked_sub(b.slo)) } else { (a.slo.checked_add(b.slo), a.shi.checked_add(b.shi)) };
            match (l, h) {
                (Some(l), Some(h)) => if l >= smin(w) && h <= smax(w) { boolv(0, 0) } else if h < smin(w) || l > smax(w) { boolv(1, 1) } else { boolv(0, 1) },
                _ => boolv(0, 1),
            }
        }
        Op::MulOvS => {
            let c = [a.slo.checked_mul(b.slo), a.slo.checked_mul(b.shi), a.shi.checked_mul(b.slo), a.shi.checked_mul(b.shi)];
            if c.iter().all(|x| x.is_some()) {
                let l = c.iter().map(|x| x.unwrap()).min().unwrap();
                let h = c.iter().map(|x| x.unwrap()).max().unwrap();
                if l >= smin(w) && h <= smax(w) { return boolv(0, 0) }
            }
            boolv(0, 1)
        }
        Op::DivU => { if b.ulo > 0 { AVal::urange(w, a.ulo / b.uhi, a.uhi / b.ulo, t) } else { AVal::urange(w, 0, a.uhi, t) } }
        Op::RemU => { if b.ulo > 0 { if a.uhi < b.ulo { AVal { taint: t, ..*a } } else { AVal::urange(w, 0, (b.uhi - 1).min(a.uhi), t) } } else { AVal::urange(w, 0, a.uhi, t) } }
        Op::DivS => {
            if b.slo > 0 {
                let c = [a.slo / b.slo, a.slo / b.shi, a.shi / b.slo, a.shi / b.shi];
                AVal::srange(w, *c.iter().min().unwrap(), *c.iter().max().unwrap(), t)
            } else { AVal::top(w, t) }
        }
        Op::RemS => {
            if b.slo > 0 {
                let k = b.shi - 1;
                let lo = if a.slo < 0 { (-k).max(a.slo) } else { 0 };
                let hi = if a.shi > 0 { k.min(a.shi) } else { 0 };
                AVal::srange(w, lo, hi, t)
            } else { AVal::top(w, t) }
        }
        Op::Xor => { let mut r = AVal::top(w, t); r.ko = (a.ko & b.kz) | (a.kz & b.ko); r.kz = (a.kz & b.kz) | (a.ko & b.ko); r.norm() }
        Op::And => {
            let mut r = AVal::top(w, t);
            r.ko = a.ko & b.ko;
            r.kz = (a.kz | b.kz) & m;
            r.uhi = a.uhi.min(b.uhi);
            r.norm()
        }
        Op::Or => {
            let mut r = AVal::top(w, t);
            r.ko = a.ko | b.ko;
            r.kz = a.kz & b.kz;
            r.ulo = a.ulo.max(b.ulo);
            // disjoint bits: or == add
            if (m & !a.kz) & (m & !b.kz) == 0 { r.uhi = a.uhi + b.uhi; r.ulo = a.ulo + b.ulo; if r.uhi > m { r.uhi = m } }
            r.norm()
        }
        Op::Shl | Op::ShrU | Op::ShrS => {
            let (l, h) = (b.ulo, b.uhi);
            if h >= w as u128 { return AVal::top(w, t) }
            let mut acc: Option<AVal> = None;
            for k in l..=h {
                let k = k as u32;
                let mut r = AVal::top(w, t);
                match op {
                    Op::Shl => {
                        r.kz = ((a.kz << k) | ((1u128 << k) - 1)) & m;
                        r.ko = (a.ko << k) & m;
                        if a.uhi <= (m >> k) { r.ulo = a.ulo << k; r.uhi = a.uhi << k }
                        if a.slo >= (smin(w) >> k) && a.shi <= (smax(w) >> k) { r.slo = a.slo << k; r.shi = a.shi << k }
                    }
                    Op::ShrU => {
                        r.kz = (a.kz >> k) | (m & !(m >> k));
                        r.ko = a.ko >> k;
                        r.ulo = a.ulo >> k;
                        r.uhi = a.uhi >> k;
                    }
                    _ => {
                        r.slo = a.slo >> k;
                        r.shi = a.shi >> k;
                        r.kz = (sext(a.kz, w) >> k) as u128 & m;
                        r.ko = (sext(a.ko, w) >> k) as u128 & m;
                    }
                }
                let r = r.norm();
                acc = Some(match acc { None => r, Some(x) => x.join(&r) });
            }
            acc.unwrap()
        }
        Op::Eq | Op::Ne => {
            let v = if a.uhi < b.ulo || b.uhi < a.ulo || a.shi < b.slo || b.shi < a.slo || (a.kz & b.ko) != 0 || (a.ko & b.kz) != 0 { Some(false) } else { None };
            match v {
                Some(e) => { let x = (e == (op == Op::Eq)) as u128; boolv(x, x) }
                None => boolv(0, 1),
            }
        }
        Op::LtU => if a.uhi < b.ulo { boolv(1, 1) } else if a.ulo >= b.uhi { boolv(0, 0) } else { boolv(0, 1) },
        Op::LeU => if a.uhi <= b.ulo { boolv(1, 1) } else if a.ulo > b.uhi { boolv(0, 0) } else { boolv(0, 1) },
        Op::LtS => if a.shi < b.slo { boolv(1, 1) } else if a.slo >= b.shi { boolv(0, 0) } else { boolv(0, 1) },
        Op::LeS => if a.shi <= b.slo { boolv(1, 1) } else if a.slo > b.shi { boolv(0, 0) } else { boolv(0, 1) },
        Op::Not => { let mut r = AVal::top(w, t); r.kz = a.ko; r.ko = a.kz; r.ulo = m - a.uhi; r.uhi = m - a.ulo; r.slo = -1 - a.shi; r.shi = -1 - a.slo; r.norm() }
        Op::Neg => rng(Op::Sub, &AVal::cst(w, 0), a),
        Op::BoolNot => boolv(1 - a.uhi.min(1), 1 - a.ulo.min(1)),
        Op::Bswap => { let mut r = AVal::top(w, t); r.kz = conc(Op::Bswap, w, a.kz, 0); r.ko = conc(Op::Bswap, w, a.ko, 0); r.norm() }
        Op::Ctpop | Op::Clz | Op::Ctz => AVal::urange(32, 0, w as u128, t),
        Op::RotL | Op::RotR => {
            if let Some(k) = b.is_const() {
                let k2 = k % w as u128;
                let mut r = AVal::top(w, t);
                r.kz = conc(op, w, a.kz, k2);
                r.ko = conc(op, w, a.ko, k2);
                r.norm()
            } else { AVal::top(w, t) }
        }
        Op::MinU => AVal::urange(w, a.ulo.min(b.ulo), a.uhi.min(b.uhi), t),
        Op::MaxU => AVal::urange(w, a.ulo.max(b.ulo), a.uhi.max(b.uhi), t),
        Op::MinS => AVal::srange(w, a.slo.min(b.slo), a.shi.min(b.shi), t),
        Op::MaxS => AVal::srange(w, a.slo.max(b.slo), a.shi.max(b.shi), t),
        _ => {
            let (tw, signed) = castw(op).unwrap();
            let mut r = AVal::top(tw, t);
            let tm = mask(tw);
            if tw <= w {
                r.kz = a.kz & tm;
                r.ko = a.ko & tm;
                if a.uhi <= tm { r.ulo = a.ulo; r.uhi = a.uhi }
                else if tw < 128 && (a.ulo >> tw) == (a.uhi >> tw) { r.ulo = a.ulo & tm; r.uhi = a.uhi & tm }
                if a.slo >= smin(tw) && a.shi <= smax(tw) { r.slo = a.slo; r.shi = a.shi }
            } else if signed {
                r.slo = a.slo;
                r.shi = a.shi;
                r.kz = (sext(a.kz, w) as u128) & tm;
                r.ko = (sext(a.ko, w) as u128) & tm;
            } else {
                r.ulo = a.ulo;
                r.uhi = a.uhi;
                r.kz = a.kz | (tm & !m);
                r.ko = a.ko;
            }
            r.norm()
        }
    }
}
fn mtz(a: &AVal) -> u32 { (!a.kz).trailing_zeros().min(a.w as u32) }

/// A total function from the enumerated values of an origin to w-bit words.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Table {
    pub base: VId,
    pub w: u8,
    pub outs: Rc<Vec<u64>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Val {
    pub k: u32,
    pub tab: u32,
    pub src: u64,
}
pub const TAG_SH: u32 = 28;
pub const T_INT: u32 = 0;
pub const T_PTR: u32 = 1;
pub const T_FN: u32 = 2;
pub const T_UNINIT: u32 = 3;
pub const T_OPQ: u32 = 4;
impl Val {
    pub const UNINIT: Val = Val { k: T_UNINIT << TAG_SH, tab: 0, src: 0 };
    pub fn tag(&self) -> u32 { self.k >> TAG_SH }
    pub fn idx(&self) -> u32 { self.k & ((1 << TAG_SH) - 1) }
    pub fn is_int(&self) -> bool { self.tag() == T_INT }
    pub fn is_ptr(&self) -> bool { self.tag() == T_PTR }
    pub fn int(v: VId) -> Val { Val { k: v, tab: 0, src: 0 } }
    pub fn ptr(alloc: u32, off: i64) -> Val { Val { k: (T_PTR << TAG_SH) | alloc, tab: 0, src: off as u64 } }
    pub fn func(i: u32) -> Val { Val { k: (T_FN << TAG_SH) | i, tab: 0, src: 0 } }
    pub fn opq(i: u32) -> Val { Val { k: (T_OPQ << TAG_SH) | i, tab: 0, src: 0 } }
}

pub struct Dom {
    pub vals: Vec<AVal>,
    vmap: FxMap<AVal, VId>,
    pub tabs: Vec<Table>,
    tmap: FxMap<Table, TId>,
    enums: FxMap<VId, Option<Rc<Vec<u64>>>>,
    idtab: FxMap<VId, TId>,
    rcache: FxMap<(u8, VId, VId), VId>,
    cache: FxMap<(u8, u32, u32, u32, u32, bool), (VId, TId)>,
    jcache: FxMap<(VId, VId), VId>,
    pub next_src: u64,
    pub limit: usize,
    pub small: Vec<[VId; 256]>,
    pub sym: Option<Box<crate::sym::Sym>>,
    pub fin: Option<Box<crate::fin::Fin>>,
    /// recent definitions of bitwise values, for recognising masked selection
    defs: Vec<(Val, Op, Val, Val)>,
}

impl Dom {
    pub fn new(limit: usize) -> Dom {
        let mut d = Dom {
            vals: vec![], vmap: FxMap::default(), tabs: vec![], tmap: FxMap::default(), enums: FxMap::default(), idtab: FxMap::default(),
            rcache: FxMap::default(), cache: FxMap::default(), jcache: FxMap::default(), next_src: 1, limit, small: vec![], sym: None, fin: None, defs: vec![(Val::UNINIT, Op::Add, Val::UNINIT, Val::UNINIT); 1 << 14],
        };
        // table id 0 means "no table"
        d.tabs.push(Table { base: 0, w: 8, outs: Rc::new(vec![]) });
        for w in [8u8, 16, 32, 64] {
            let mut a = [0; 256];
            for i in 0..256 { a[i] = d.intern(AVal::cst(w, i as u128)) }
            d.small.push(a);
        }
        d
    }
    pub fn intern(&mut self, a: AVal) -> VId {
        if let Some(v) = self.vmap.get(&a) { return *v }
        let id = self.vals.len() as u32;
        assert!(id < (1 << TAG_SH));
        self.vals.push(a);
        self.vmap.insert(a, id);
        id
    }
    pub fn get(&self, v: VId) -> &AVal { &self.vals[v as usize] }
    pub fn av(&self, x: Val) -> &AVal { debug_assert!(x.is_int()); &self.vals[x.k as usize] }
    pub fn cst(&mut self, w: u8, x: u128) -> Val {
        let x = x & mask(w);
        if x < 256 {
            let i = match w { 8 => 0, 16 => 1, 32 => 2, 64 => 3, _ => 9 };
            if i < 4 { return Val::int(self.small[i][x as usize]) }
        }
        let v = self.intern(AVal::cst(w, x));
        Val::int(v)
    }
    pub fn is_const(&self, x: Val) -> Option<u128> { if x.is_int() { self.av(x).is_const() } else { None } }
    pub fn taint(&self, x: Val) -> u64 { if x.is_int() { self.av(x).taint } else { 0 } }
    pub fn fresh_src(&mut self) -> u64 { let s = self.next_src; self.next_src += 1; s }
    pub fn fresh(&mut self, a: AVal) -> Val {
        if self.sym.is_some() { return crate::sym::fresh(self, AVal { taint: 0, ..a }) }
        if self.fin.is_some() { return crate::fin::with(self, |s, d| s.unknown(d, a)) }
        let v = self.intern(a);
        let src = if a.is_const().is_some() { 0 } else { self.fresh_src() };
        Val { k: v, tab: 0, src }
    }
    pub fn enumer(&mut self, v: VId) -> Option<Rc<Vec<u64>>> {
        if let Some(e) = self.enums.get(&v) { return e.clone() }
        let e = self.get(v).enumerate(self.limit).map(Rc::new);
        self.enums.insert(v, e.clone());
        e
    }
    pub fn mktab(&mut self, t: Table) -> TId {
        if let Some(i) = self.tmap.get(&t) { return *i }
        let id = self.tabs.len() as u32;
        self.tabs.push(t.clone());
        self.tmap.insert(t, id);
        id
    }
    /// Identity table over the values of v.
    pub fn ident(&mut self, v: VId) -> Option<TId> {
        if let Some(t) = self.idtab.get(&v) { return Some(*t) }
        let e = self.enumer(v)?;
        let w = self.get(v).w;
        let t = self.mktab(Table { base: v, w, outs: e });
        self.idtab.insert(v, t);
        Some(t)
    }
    pub fn tab_of(&mut self, x: Val) -> Option<TId> {
        if x.src == 0 { return None }
        if x.tab != 0 { Some(x.tab) } else { self.ident(x.k) }
    }
    pub fn hull(&mut self, w: u8, outs: &[u64], taint: u64) -> VId {
        let mut ulo = u128::MAX; let mut uhi = 0; let mut slo = i128::MAX; let mut shi = i128::MIN;
        let mut ko = mask(w); let mut kz = mask(w);
        for &o in outs {
            let x = o as u128;
            let s = sext(x, w);
            ulo = ulo.min(x); uhi = uhi.max(x); slo = slo.min(s); shi = shi.max(s);
            ko &= x; kz &= !x;
        }
        let t = if ulo == uhi { 0 } else { taint };
        let a = AVal { w, ulo, uhi, slo, shi, kz, ko, taint: t }.norm();
        self.intern(a)
    }
    pub fn range_op(&mut self, op: Op, a: VId, b: VId) -> VId {
        let key = (op as u8, a, b);
        if let Some(v) = self.rcache.get(&key) { return *v }
        let r = rng(op, &self.vals[a as usize], &self.vals[b as usize]);
        let id = self.intern(r);
        self.rcache.insert(key, id);
        id
    }
    #[inline]
    pub fn bin(&mut self, op: Op, x: Val, y: Val) -> Val {
        debug_assert!(x.is_int() && y.is_int());
        if self.sym.is_some() { return crate::sym::bin(self, op, x, y) }
        if self.fin.is_some() { return crate::fin::with(self, |s, d| s.bin(d, op, x, y)) }
        let same = x.src != 0 && x.src == y.src;
        let key = (op as u8, x.k, x.tab, y.k, y.tab, same);
        // identities depend on which operand carries an origin; constants carry none
        let (v, t) = match self.cache.get(&key) {
            Some(r) => *r,
            None => { let r = self.bin_slow(op, x, y, same); self.cache.insert(key, r); r }
        };
        if self.vals[v as usize].is_const().is_some() { return Val { k: v, tab: 0, src: 0 } }
        let r = if t != 0 {
            let src = if x.src != 0 { x.src } else { y.src };
            Val { k: v, tab: t, src }
        } else {
            let s = self.next_src;
            self.next_src += 1;
            Val { k: v, tab: 0, src: s }
        };
        if r == x || r == y { return r }
        if matches!(op, Op::Xor | Op::And | Op::Not | Op::Or | Op::Add | Op::Sub) {
            if matches!(op, Op::Xor | Op::Or | Op::Add) { if let Some(q) = self.masked_select(op, x, y, r) { return q } }
            let h = Self::dslot(r);
            self.defs[h] = (r, op, x, y);
        } else if castw(op).is_some() {
            let h = Self::dslot(r);
            self.defs[h] = (r, op, x, y);
        }
        r
    }
    fn dslot(v: Val) -> usize { ((v.src.wrapping_mul(0x9E3779B97F4A7C15) >> 40) as usize ^ v.tab as usize) & ((1 << 14) - 1) }
    fn def(&self, v: Val) -> Option<(Op, Val, Val)> {
        if v.src == 0 { return None }
        let d = self.defs[Self::dslot(v)];
        if d.0 == v { Some((d.1, d.2, d.3)) } else { None }
    }
    /// v viewed through width casts that keep all low `w` bits.
    fn strip(&self, v: Val) -> Val {
        let mut v = v;
        for _ in 0..3 {
            match self.def(v) { Some((op, x, _)) if castw(op).is_some() && self.av(x).w == self.av(v).w => v = x, _ => break }
        }
        v
    }
    fn is_mask(&self, v: Val) -> bool {
        if !v.is_int() || self.is_const(v).is_some() { return false }
        let a = self.av(v);
        if a.slo == -1 && a.shi == 0 { return true }
        if v.tab != 0 { let m = mask(a.w) as u64; return self.tabs[v.tab as usize].outs.iter().all(|o| *o == 0 || *o == m) }
        false
    }
    fn masked_select(&mut self, op: Op, x: Val, y: Val, r: Val) -> Option<Val> {
        let (x, y) = (self.strip(x), self.strip(y));
        // a ^ (m & (a ^ b)), a + (m & (b - a))
        for (a, t) in [(x, y), (y, x)] {
            let Some((Op::And, p, q)) = self.def(t) else { continue };
            let (p, q) = (self.strip(p), self.strip(q));
            for (m, e) in [(p, q), (q, p)] {
                if !self.is_mask(m) { continue }
                let mut b = None;
                if let Some((o2, u, v)) = self.def(e) {
                    let (u, v) = (self.strip(u), self.strip(v));
                    b = match (op, o2) {
                        (Op::Xor, Op::Xor) => if u == a { Some(v) } else if v == a { Some(u) } else { None },
                        (Op::Add, Op::Sub) => if v == a { Some(u) } else { None },
                        _ => None,
                    };
                }
                if b.is_none() && (self.is_const(e).is_some() || e.src == a.src) && self.av(e).w == self.av(a).w { b = Some(self.bin(op, a, e)) }
                let Some(b) = b else { continue };
                if self.av(b).w != self.av(a).w || self.av(a).w != self.av(r).w { continue }
                let tt = self.taint(m);
                let j = self.join(a, b, tt);
                return self.meet(r, j);
            }
        }
        // (a & m) | (b & !m)
        if let (Some((Op::And, p, q)), Some((Op::And, u, v))) = (self.def(x), self.def(y)) {
            for (m, a) in [(p, q), (q, p)] {
                if !self.is_mask(self.strip(m)) { continue }
                for (n, b) in [(u, v), (v, u)] {
                    let ok = match (self.def(n), self.def(m)) { (Some((Op::Not, z, _)), _) if self.strip(z) == self.strip(m) => true, (_, Some((Op::Not, z, _))) if self.strip(z) == self.strip(n) => true, _ => false };
                    if !ok || self.av(b).w != self.av(a).w { continue }
                    let tt = self.taint(m);
                    let j = self.join(a, b, tt);
                    return self.meet(r, j);
                }
            }
        }
        None
    }
    fn meet(&mut self, r: Val, j: Val) -> Option<Val> {
        let (a, b) = (*self.av(r), *self.av(j));
        let m = AVal { w: a.w, ulo: a.ulo.max(b.ulo), uhi: a.uhi.min(b.uhi), slo: a.slo.max(b.slo), shi: a.shi.min(b.shi), kz: a.kz | b.kz, ko: a.ko | b.ko, taint: a.taint | b.taint }.norm();
        if m == a { return None }
        Some(self.fresh(AVal { taint: if m.is_const().is_some() { 0 } else { m.taint }, ..m }))
    }
    fn bin_slow(&mut self, op: Op, x: Val, y: Val, same: bool) -> (VId, TId) {
        let r = self.range_op(op, x.k, y.k);
        let rv = self.vals[r as usize];
        let w = self.vals[x.k as usize].w;
        if w > 64 || rv.w > 64 { return self.notaint_const(r) }
        let xc = self.is_const(x);
        let yc = self.is_const(y);
        let un = is_unary(op);
        if rv.is_const().is_some() { return self.notaint_const(r) }
        let (tx, ty) = if same {
            match (self.tab_of(x), self.tab_of(y)) { (Some(a), Some(b)) => (Some(a), Some(b)), _ => return (r, 0) }
        } else if x.src != 0 && (yc.is_some() || un) {
            match self.tab_of(x) { Some(a) => (Some(a), None), None => return (r, 0) }
        } else if y.src != 0 && xc.is_some() {
            match self.tab_of(y) { Some(b) => (None, Some(b)), None => return (r, 0) }
        } else { return (r, 0) };
        let rw = resw(op, w);
        let (base, n) = match (tx, ty) { (Some(a), _) => (self.tabs[a as usize].base, self.tabs[a as usize].outs.len()), (_, Some(b)) => (self.tabs[b as usize].base, self.tabs[b as usize].outs.len()), _ => unreachable!() };
        if let (Some(a), Some(b)) = (tx, ty) { if self.tabs[a as usize].base != self.tabs[b as usize].base { return (r, 0) } }
        let xo = tx.map(|t| self.tabs[t as usize].outs.clone());
        let yo = ty.map(|t| self.tabs[t as usize].outs.clone());
        let mut outs = Vec::with_capacity(n);
        for i in 0..n {
            let a = match &xo { Some(o) => o[i] as u128, None => xc.unwrap() };
            let b = match &yo { Some(o) => o[i] as u128, None => yc.unwrap_or(0) };
            outs.push(conc(op, w, a, b) as u64);
        }
        let v = self.hull(rw, &outs, rv.taint);
        if self.vals[v as usize].is_const().is_some() { return (v, 0) }
        // clip for checked arithmetic is implied: every listed value is reachable or not, keep hull
        let t = self.mktab(Table { base, w: rw, outs: Rc::new(outs) });
        (v, t)
    }
    fn notaint_const(&mut self, r: VId) -> (VId, TId) {
        let rv = self.vals[r as usize];
        if rv.is_const().is_some() && rv.taint != 0 {
            let v = self.intern(AVal { taint: 0, ..rv });
            return (v, 0);
        }
        (r, 0)
    }
    pub fn un(&mut self, op: Op, x: Val) -> Val { self.bin(op, x, Val::int(self.small[0][0])) }
    pub fn join(&mut self, x: Val, y: Val, extra: u64) -> Val {
        if x == y { return x }
        if !x.is_int() || !y.is_int() { return Val::UNINIT }
        if self.av(x).w != self.av(y).w { return Val::UNINIT }
        if self.sym.is_some() {
            if crate::sym::with(self, |s, d| s.same(d, x, y)) { return x }
            let a = self.av(x).join(self.av(y));
            return crate::sym::fresh(self, AVal { taint: 0, ..a });
        }
        if self.fin.is_some() { return crate::fin::with(self, |s, d| if s.same(d, x, y) { x } else { let a = d.av(x).join(d.av(y)); s.unknown(d, a) }) }
        let key = (x.k, y.k);
        let mut v = match self.jcache.get(&key) {
            Some(v) => *v,
            None => {
                let r = self.vals[x.k as usize].join(&self.vals[y.k as usize]);
                let v = self.intern(r);
                self.jcache.insert(key, v);
                v
            }
        };
        if extra & !self.vals[v as usize].taint != 0 {
            let mut a = self.vals[v as usize];
            a.taint |= extra;
            v = self.intern(a);
        }
        if self.vals[v as usize].is_const().is_some() { return Val::int(v) }
        let src = self.fresh_src();
        Val { k: v, tab: 0, src }
    }
    pub fn with_taint(&mut self, x: Val, t: u64) -> Val {
        if !x.is_int() || self.sym.is_some() || self.fin.is_some() || self.av(x).taint & t == t { return x }
        let mut a = *self.av(x);
        a.taint |= t;
        // values carrying a table keep their origin; widen label on the value only
        let v = self.intern(a);
        if x.tab == 0 && x.src != 0 { let s = self.fresh_src(); return Val { k: v, tab: 0, src: s } }
        Val { k: v, ..x }
    }
    pub fn show(&self, x: Val) -> String {
        match x.tag() {
            T_INT => {
                let a = self.av(x);
                match a.is_const() {
                    Some(c) => format!("{}u{}", c, a.w),
                    None => if a.slo < 0 { format!("[{}..{}]i{}", a.slo, a.shi, a.w) } else { format!("[{}..{}]u{}", a.ulo, a.uhi, a.w) },
                }
            }
            T_PTR => format!("ptr({}+{})", x.idx(), x.src as i64),
            T_FN => "fn".into(),
            T_OPQ => format!("opaque{}", x.idx()),
            _ => "uninit".into(),
        }
    }
}
