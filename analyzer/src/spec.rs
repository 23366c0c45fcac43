//! The published algorithms written as expressions of the value-numbering domain, the contracts used for calls that
//! are analysed separately, and the jobs comparing what the code computes with what is specified.
use crate::checks::*;
use crate::dom::*;
use crate::interp::*;
use crate::json::J;
use crate::lower::*;
use crate::models::Disp;
use crate::fin;
use crate::sym::{self, *};
use rustc_public::mir::mono::Instance;
use rustc_public::ty::{GenericArgs, RigidTy, Ty};
use rustc_public::CrateDefType;
use std::rc::Rc;

// ------------------------------------------------------------------ expression helpers
pub fn c16(d: &mut Dom, x: u64) -> Val { d.cst(16, x as u128) }
pub fn map(d: &mut Dom, x: Val, w: u8, f: &dyn Fn(u64) -> u64) -> Val {
    if let Some(c) = d.is_const(x) { return d.cst(w, f(c as u64) as u128) }
    sym::with(d, |s, d| {
        // guarded values: on both alternatives
        if let Some((g, a, b)) = s.ite_of(d, x) {
            let (r0, r1) = (map_in(s, d, a, w, f), map_in(s, d, b, w, f));
            return s.mkite(d, g, r0, r1);
        }
        map_in(s, d, x, w, f)
    })
}
fn map_in(s: &mut Sym, d: &mut Dom, x: Val, w: u8, f: &dyn Fn(u64) -> u64) -> Val {
    if let Some(c) = d.is_const(x) { return d.cst(w, f(c as u64) as u128) }
    let k = s.forms[x.src as usize].k;
    assert!(k <= 16, "table over a {}-bit word", k);
    let o: Vec<u64> = if x.tab != 0 { s.tabs[x.tab as usize].outs.iter().map(|v| f(*v)).collect() } else { (0..1u64 << k).map(|v| f(v)).collect() };
    s.canon(d, x.src as u32, w, Rc::new(o))
}
fn add(d: &mut Dom, x: Val, y: Val) -> Val { d.bin(Op::Add, x, y) }
fn sub(d: &mut Dom, x: Val, y: Val) -> Val { d.bin(Op::Sub, x, y) }
fn mulc(d: &mut Dom, x: Val, c: u64) -> Val { let w = d.av(x).w; let k = d.cst(w, c as u128); d.bin(Op::Mul, x, k) }
fn zero_poly(d: &mut Dom, n: usize) -> Vec<Val> { let z = c16(d, 0); vec![z; n] }
/// Product modulo x^n - 1 of two vectors of 16-bit words.
pub fn convolve(d: &mut Dom, a: &[Val], b: &[Val]) -> Vec<Val> {
    let n = a.len();
    let (ha, hb): (Vec<u128>, Vec<u128>) = (a.iter().map(|x| d.av(*x).uhi).collect(), b.iter().map(|x| d.av(*x).uhi).collect());
    sym::with(d, |s, d| {
        let worst: u128 = ha.iter().max().unwrap() * hb.iter().max().unwrap() * n as u128;
        let exact = worst <= 65535;
        if exact {
            let la: Vec<Lanes> = a.iter().map(|x| s.enc(d, *x, false).unwrap()).collect();
            let lb: Vec<Lanes> = b.iter().map(|x| s.enc(d, *x, false).unwrap()).collect();
            (0..n).map(|k| {
                let mut acc = Lanes::cst(0);
                let mut hi = 0u128;
                for i in 0..n { let j = (k + n - i) % n; if ha[i] == 0 || hb[j] == 0 { continue } hi += ha[i] * hb[j]; acc = acc.add(&la[i].mul(&lb[j])) }
                let v = d.intern(AVal::urange(16, 0, hi, 0));
                s.exact_val(d, 16, v, acc)
            }).collect()
        } else {
            let la: Vec<[u64; NL]> = a.iter().map(|x| s.modl(d, *x)).collect();
            let lb: Vec<[u64; NL]> = b.iter().map(|x| s.modl(d, *x)).collect();
            let v = d.intern(AVal::top(16, 0));
            (0..n).map(|k| {
                let mut acc = [0u64; NL];
                for i in 0..n { let q = &lb[(k + n - i) % n]; let p = &la[i]; for l in 0..NL { acc[l] = acc[l].wrapping_add(p[l].wrapping_mul(q[l])) } }
                s.mod_val(d, 16, v, acc)
            }).collect()
        }
    })
}
fn modq(d: &mut Dom, p: &Params, x: Val) -> Val { let m = c16(d, p.q() as u64 - 1); d.bin(Op::And, x, m) }
fn z3_to_zq(d: &mut Dom, p: &Params, v: &[Val]) -> Vec<Val> { let q = p.q() as u64; v.iter().map(|x| map(d, *x, 16, &|v| match v { 0 => 0, 1 => 1, _ => q - 1 })).collect() }
fn mod3(d: &mut Dom, x: Val) -> Val { map(d, x, 16, &|v| v % 3) }
/// a_i - a_{n-1}, modulo 3
fn mod3_phi(d: &mut Dom, a: &[Val]) -> Vec<Val> {
    let n = a.len();
    let l = mod3(d, a[n - 1]);
    let l2 = mulc(d, l, 2);
    (0..n).map(|i| { let x = mod3(d, a[i]); let s = add(d, x, l2); mod3(d, s) }).collect()
}
fn modq_phi(d: &mut Dom, a: &[Val]) -> Vec<Val> { let l = a[a.len() - 1]; a.iter().map(|x| sub(d, *x, l)).collect() }
/// Ring-to-ternary map: residue modulo q taken in [-q/2, q/2), reduced modulo 3 and modulo Phi_n.
fn rq_to_s3(d: &mut Dom, p: &Params, a: &[Val]) -> Vec<Val> {
    let q = p.q() as i64;
    let c: Vec<Val> = a.iter().map(|x| { let m = modq(d, p, *x); map(d, m, 16, &|v| { let v = v as i64; (if v >= q / 2 { v - q } else { v }).rem_euclid(3) as u64 }) }).collect();
    mod3_phi(d, &c)
}
fn s3_mul(d: &mut Dom, a: &[Val], b: &[Val]) -> Vec<Val> { let r = convolve(d, a, b); mod3_phi(d, &r) }
pub fn lift(d: &mut Dom, p: &Params, m: &[Val]) -> Vec<Val> {
    if p.hps { return z3_to_zq(d, p, m) }
    // (x-1) b = m modulo (3, Phi_n): b_j = b_{j-1} - m_j - t with t = -m(1)/n
    let n = p.n;
    let ninv = if n % 3 == 1 { 1 } else { 2 };
    let mut t = c16(d, 0);
    for x in m { let y = mulc(d, *x, (3 - ninv) as u64); let s = add(d, t, y); t = mod3(d, s) }
    let mut b = vec![];
    let mut cur = c16(d, 0);
    let t2 = mulc(d, t, 2);
    for j in 0..n - 1 {
        let y = mulc(d, m[j], 2);
        let s = add(d, cur, y);
        let s = add(d, s, t2);
        cur = mod3(d, s);
        b.push(cur);
    }
    b.push(c16(d, 0));
    let b = z3_to_zq(d, p, &b);
    (0..n).map(|i| { let prev = if i == 0 { b[n - 1] } else { b[i - 1] }; sub(d, prev, b[i]) }).collect()
}
pub fn unpack_q(d: &mut Dom, p: &Params, b: &[Val], sum_zero: bool) -> Vec<Val> {
    let mut r = vec![];
    for i in 0..p.n - 1 {
        let mut acc = c16(d, 0);
        let (lo, hi) = (i * p.logq, (i + 1) * p.logq);
        for j in lo / 8..=(hi - 1) / 8 {
            // bits of byte j: 8j..8j+8
            let (s, e) = (lo.max(8 * j), hi.min(8 * j + 8));
            let x = map(d, b[j], 16, &|v| ((v >> (s - 8 * j)) & ((1 << (e - s)) - 1)) << (s - lo));
            acc = add(d, acc, x);
        }
        r.push(acc);
    }
    let mut last = c16(d, 0);
    if sum_zero { for x in &r { last = sub(d, last, *x) } }
    r.push(last);
    r
}
pub fn pack_q(d: &mut Dom, p: &Params, a: &[Val]) -> Vec<Val> {
    let a: Vec<Val> = a.iter().map(|x| modq(d, p, *x)).collect();
    let nb = p.pk();
    let bits = p.logq * (p.n - 1);
    (0..nb).map(|j| {
        let mut acc = d.cst(8, 0);
        let (lo, hi) = (8 * j, (8 * j + 8).min(bits));
        for i in lo / p.logq..=(hi - 1) / p.logq {
            let (s, e) = (lo.max(i * p.logq), hi.min((i + 1) * p.logq));
            let x = map(d, a[i], 8, &|v| ((v >> (s - i * p.logq)) & ((1 << (e - s)) - 1)) << (s - lo));
            acc = add(d, acc, x);
        }
        acc
    }).collect()
}
pub fn unpack3(d: &mut Dom, p: &Params, b: &[Val]) -> Vec<Val> {
    let mut r: Vec<Val> = (0..p.n - 1).map(|i| { let e = 3u64.pow((i % 5) as u32); map(d, b[i / 5], 16, &|v| v / e % 3) }).collect();
    r.push(c16(d, 0));
    r
}
pub fn pack3(d: &mut Dom, p: &Params, a: &[Val]) -> Vec<Val> {
    (0..p.s3()).map(|j| {
        let mut acc = d.cst(8, 0);
        for i in (5 * j..(5 * j + 5).min(p.n - 1)).rev() {
            let x = map(d, a[i], 8, &|v| v);
            let t = mulc(d, acc, 3);
            acc = add(d, t, x);
        }
        acc
    }).collect()
}
fn sample_iid(d: &mut Dom, p: &Params, b: &[Val]) -> Vec<Val> { let mut r: Vec<Val> = (0..p.n - 1).map(|i| map(d, b[i], 16, &|v| v % 3)).collect(); r.push(c16(d, 0)); r }
fn sample_iid_plus(d: &mut Dom, p: &Params, b: &[Val]) -> Vec<Val> {
    let v = sample_iid(d, p, b);
    let s: Vec<Val> = v.iter().map(|x| map(d, *x, 16, &|v| if v == 2 { 65535 } else { v })).collect();
    let t = sym::with(d, |sy, d| {
        let mut acc = [0u64; NL];
        for i in 0..p.n - 1 { let (a, b) = (sy.modl(d, s[i]), sy.modl(d, s[i + 1])); for l in 0..NL { acc[l] = acc[l].wrapping_add(a[l].wrapping_mul(b[l])) } }
        let v = d.intern(AVal::top(16, 0));
        sy.mod_val(d, 16, v, acc)
    });
    let k = c16(d, 15);
    let neg = d.bin(Op::ShrU, t, k);
    (0..p.n).map(|i| {
        if i % 2 == 1 { return v[i] }
        let f = map(d, v[i], 16, &|v| match v { 1 => 2, 2 => 1, _ => v });
        sym::with(d, |sy, d| match sy.guard_of(d, neg) {
            Some((g, a, _)) => if a == 0 { sy.mkite(d, g, v[i], f) } else { sy.mkite(d, g, f, v[i]) },
            None => v[i],
        })
    }).collect()
}
/// The words that a fixed-weight sample sorts: 30 random bits each, tagged 1, 2 or 0 in the two low bits.
fn fixed_type_words(d: &mut Dom, p: &Params, b: &[Val]) -> Vec<Val> {
    (0..p.n - 1).map(|i| {
        let mut acc = d.cst(32, if i < p.weight() / 2 { 1 } else if i < p.weight() { 2 } else { 0 });
        let (lo, hi) = (30 * i, 30 * i + 30);
        for j in lo / 8..=(hi - 1) / 8 {
            let (s, e) = (lo.max(8 * j), hi.min(8 * j + 8));
            let x = map(d, b[j], 32, &|v| (((v >> (s - 8 * j)) & ((1 << (e - s)) - 1)) << (s - lo + 2)) & 0xffff_ffff);
            acc = add(d, acc, x);
        }
        acc
    }).collect()
}
fn sample_fixed_type(d: &mut Dom, p: &Params, b: &[Val]) -> Vec<Val> {
    let w = fixed_type_words(d, p, b);
    let s = sorted(d, &w);
    let three = d.cst(32, 3);
    let mut r: Vec<Val> = s.iter().map(|x| { let y = d.bin(Op::And, *x, three); d.bin(Op::Zx16, y, y) }).collect();
    r.push(c16(d, 0));
    r
}
// ------------------------------------------------------------------ contracts
fn multi_key(d: &mut Dom, v: &[Val], w: u8, sortit: bool) -> (u64, u64) {
    let mut ks: Vec<(u64, u64)> = sym::with(d, |s, d| v.iter().map(|x| s.key_bits(d, *x, w)).collect());
    if sortit { ks.sort() }
    let mut h = (w as u64, 0x5EED ^ ks.len() as u64);
    for k in ks { h = (h.0.rotate_left(9).wrapping_mul(0x9E3779B97F4A7C15) ^ k.0, h.1.rotate_left(13).wrapping_mul(0xD1342543DE82EF95) ^ k.1) }
    h
}
/// Sorted copy of a multiset of words: one unknown per position, determined by the multiset. If every word is
/// tagged 0, 1 or 2 in its low bits the outputs carry such a tag too.
pub fn sorted(d: &mut Dom, v: &[Val]) -> Vec<Val> {
    let k = multi_key(d, v, 32, true);
    if let Some(r) = d.sym.as_ref().unwrap().cutmemo.get(&("sort".into(), k.0, k.1)) { return r.clone() }
    let tagged = v.iter().all(|x| { let a = d.av(*x); (a.kz | a.ko) & 3 == 3 && a.ko & 3 != 3 });
    let r: Vec<Val> = v.iter().enumerate().map(|(i, _)| {
        let x = if tagged {
            let hi = d.fresh(AVal::urange(32, 0, (1 << 30) - 1, 0));
            let tag = d.fresh(AVal::urange(32, 0, 2, 0));
            sym::name_atom(d, tag, "sorted tag", k.0 as usize % 1000, i);
            let four = d.cst(32, 4);
            let h = d.bin(Op::Mul, hi, four);
            d.bin(Op::Add, h, tag)
        } else { d.fresh(AVal::top(32, 0)) };
        sym::name_atom(d, x, "sorted", k.0 as usize % 1000, i);
        x
    }).collect();
    d.sym.as_mut().unwrap().cutmemo.insert(("sort".into(), k.0, k.1), r.clone());
    r
}
/// Unknown polynomial determined by the argument: values 0..=hi.
pub fn inverse(d: &mut Dom, what: &str, a: &[Val], bits: u8, hi: u64) -> Vec<Val> {
    let k = multi_key(d, a, bits, false);
    if let Some(r) = d.sym.as_ref().unwrap().cutmemo.get(&(what.to_string(), k.0, k.1)) { return r.clone() }
    let n = a.len();
    let r: Vec<Val> = (0..n).map(|i| { if hi <= 2 && i == n - 1 { return c16(d, 0) } let x = d.fresh(AVal::urange(16, 0, hi as u128, 0)); sym::name_atom(d, x, what, k.0 as usize % 1000, i); x }).collect();
    d.sym.as_mut().unwrap().cutmemo.insert((what.to_string(), k.0, k.1), r.clone());
    r
}
fn poly_at(it: &mut Interp, st: &State, a: Addr) -> (Addr, Vec<Val>) {
    let p = it.read(st, a, 8);
    let base = it.deref(p, Val::UNINIT);
    let n = it.cfg.poly_n;
    let v = (0..n).map(|i| { let x = it.shift(base, 2 * i as i64); it.read(st, x, 2) }).collect();
    (base, v)
}
fn put_poly(it: &mut Interp, st: &mut State, base: Addr, v: &[Val]) { for (i, x) in v.iter().enumerate() { let a = it.shift(base, 2 * i as i64); it.write(st, a, 2, *x) } }
pub fn contract(it: &mut Interp, st: &mut State, key: &str, name: &str, av: &[(Addr, TyInfo)], tys: &[Ty]) -> bool {
    let (f, file, line) = it.site();
    let site = format!("{} ({}:{})", f, file, line);
    let poly_arg = |it: &mut Interp, i: usize| tys.get(i).and_then(|t| match rigid(*t) { Some(RigidTy::Ref(_, p, _)) => Some(it.lo.info(p).size as usize == 2 * it.cfg.poly_n), _ => None }).unwrap_or(false);
    let outs;
    let mut ins = vec![];
    match key {
        "mul" => {
            if !(poly_arg(it, 0) && poly_arg(it, 1) && poly_arg(it, 2)) { it.unsup(&format!("signature of {} not recognised", name)); return false }
            let (r, _) = poly_at(it, st, av[0].0);
            let (_, a) = poly_at(it, st, av[1].0);
            let (_, b) = poly_at(it, st, av[2].0);
            if a.iter().chain(b.iter()).any(|x| !x.is_int()) { it.unsup("unknown factor"); return false }
            outs = convolve(&mut it.d, &a, &b);
            put_poly(it, st, r, &outs);
            ins.push(a); ins.push(b);
        }
        "s3_inv" | "rq_inv" | "r2_inv" => {
            if !(poly_arg(it, 0) && poly_arg(it, 1)) { it.unsup(&format!("signature of {} not recognised", name)); return false }
            let (r, _) = poly_at(it, st, av[0].0);
            let (_, a) = poly_at(it, st, av[1].0);
            if a.iter().any(|x| !x.is_int()) { it.unsup("unknown operand"); return false }
            outs = match key { "s3_inv" => inverse(&mut it.d, key, &a, 2, 2), "r2_inv" => inverse(&mut it.d, key, &a, 1, 1), _ => { let b = it.cfg.logq; inverse(&mut it.d, key, &a, b, 65535) } };
            put_poly(it, st, r, &outs);
            ins.push(a);
        }
        "sort" => {
            let p = it.read(st, av[0].0, 8);
            let ln = if av[0].1.size == 16 { let la = it.shift(av[0].0, 8); it.read(st, la, 8) } else { Val::UNINIT };
            let base = it.deref(p, Val::UNINIT);
            let fixed = match rigid(tys[0]) { Some(RigidTy::Ref(_, t, _)) if av[0].1.size == 8 => Some(it.lo.info(t).size as usize / 4), _ => None };
            let n = match (fixed, if ln.is_int() { it.d.is_const(ln) } else { None }) { (Some(n), _) => n, (_, Some(n)) if av[0].1.size == 16 => n as usize, _ => { it.unsup("sort of unknown length"); return false } };
            let v: Vec<Val> = (0..n).map(|i| { let x = it.shift(base, 4 * i as i64); it.read(st, x, 4) }).collect();
            if v.iter().any(|x| !x.is_int()) { it.unsup("sort of unknown words"); return false }
            outs = sorted(&mut it.d, &v);
            for (i, x) in outs.iter().enumerate() { let a = it.shift(base, 4 * i as i64); it.write(st, a, 4, *x) }
            ins.push(v);
        }
        _ => return false,
    }
    it.d.sym.as_mut().unwrap().events.push(sym::CutEvent { name: name.into(), ins, outs, site });
    true
}
// ------------------------------------------------------------------ jobs
pub const CUTS: &[(&str, &str)] = &[("::poly_rq_mul", "mul"), ("::poly_s3_inv", "s3_inv"), ("::poly_rq_inv", "rq_inv"), ("::crypto_sort_int32", "sort")];
pub fn sym_interp(p: &Params, cuts: &[(&str, &str)]) -> Interp {
    let mut it = Interp::new(0);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    it.d.sym = Some(Box::new(Sym::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x5157)));
    it.cfg.poly_n = p.n;
    it.cfg.logq = p.logq as u8;
    it.cfg.rng_label = 0;
    for (k, v) in cuts { it.cfg.cuts.insert(k.to_string(), v.to_string()); }
    it
}
fn diff(it: &mut Interp, a: &[Val], b: &[Val]) -> Vec<usize> { sym::with(&mut it.d, |s, d| (0..a.len().max(b.len())).filter(|i| match (a.get(*i), b.get(*i)) { (Some(x), Some(y)) => !s.same(d, *x, *y), _ => true }).collect()) }
fn show(it: &Interp, v: Val) -> String { it.d.sym.as_ref().unwrap().describe(&it.d, v) }
fn finish(it: &mut Interp, o: &mut Out) {
    o.absorb(it);
    let s = it.d.sym.as_ref().unwrap();
    o.count("value_numbers", s.forms.len() as i128);
    o.count("finite_tables", s.tabs.len() as i128);
    o.count("zero_test_fact_sets", s.facts.len() as i128);
    o.count("contract_calls", s.events.len() as i128);
    if !s.opaque_ops.is_empty() { o.notes.push(("uninterpreted_operators".into(), J::O(s.opaque_ops.iter().map(|(k, v)| (k.clone(), J::N(*v as i128))).collect()))) }
}
fn fillv(it: &mut Interp, name: &str, i: usize) -> Val { let v = it.d.fresh(AVal::top(8, 0)); sym::name_atom(&mut it.d, v, name, 0, i); v }
pub fn run_api(it: &mut Interp, o: &mut Out, which: &str, p: &Params) -> Option<(Entry, Option<State>, Vec<Vec<Val>>)> {
    let (shape, sizes) = api_shape(which, p);
    let mut init: Vec<Vec<Val>> = vec![vec![]; 8];
    let e = prepare(it, which, &mut |it, a, j, _| { let v = fillv(it, shape.get(a).map(|s| s.0).unwrap_or("arg"), j); init[a].push(v); v });
    let mut e = match e { Ok(e) => e, Err(m) => { o.errors.push(m); return None } };
    for (i, n) in sizes.iter().enumerate() { if e.args.get(i).map(|a| a.1) != Some(*n) { o.errors.push(format!("{}: argument {} does not have {} bytes", which, i, n)); return None } }
    let r = execute(it, &mut e);
    Some((e, r, init))
}
struct DecSpec { m: Vec<Val>, r: Vec<Val>, cb: Vec<Val>, rej: Vec<Val> }
/// `ternary`: every coefficient of r is assumed to be 0, 1 or -1 modulo q (the accepted case).
fn spec_dec(d: &mut Dom, p: &Params, c: &[Val], sk: &[Val], ternary: bool) -> DecSpec {
    let s3 = p.s3();
    let cp = unpack_q(d, p, c, true);
    let f = unpack3(d, p, &sk[..s3]);
    let fi = unpack3(d, p, &sk[s3..2 * s3]);
    let fq = z3_to_zq(d, p, &f);
    let cf = convolve(d, &cp, &fq);
    let mf = rq_to_s3(d, p, &cf);
    let m = s3_mul(d, &mf, &fi);
    let lm = lift(d, p, &m);
    let b: Vec<Val> = (0..p.n).map(|i| sub(d, cp[i], lm[i])).collect();
    let hi = unpack_q(d, p, &sk[2 * s3..2 * s3 + p.pk()], false);
    let r = convolve(d, &b, &hi);
    let r = modq_phi(d, &r);
    let logq = p.logq as u8;
    let r = if ternary { sym::with(d, |s, d| r.iter().map(|x| s.restrict_residue(d, *x, logq)).collect()) } else { r.iter().map(|x| modq(d, p, *x)).collect() };
    let mut rej: Vec<Val> = sk[p.sk() - 32..].to_vec();
    rej.extend_from_slice(c);
    DecSpec { m, r, cb: c.to_vec(), rej }
}
/// The facts that make a ciphertext acceptable, as one canonical set.
fn accept_facts(d: &mut Dom, p: &Params, sp: &DecSpec) -> u32 {
    let mut acc = d.cst(16, 0);
    let used = p.logq * (p.n - 1);
    let pad = 8 * p.ct() - used;
    if pad > 0 { let x = map(d, sp.cb[p.ct() - 1], 16, &|v| ((v >> (8 - pad)) != 0) as u64); acc = d.bin(Op::Or, acc, x) }
    let q = p.q() as u64;
    for i in 0..p.n - 1 { let x = map(d, sp.r[i], 16, &|v| !(v == 0 || v == 1 || v == q - 1) as u64); acc = d.bin(Op::Or, acc, x) }
    if p.hps {
        for t in [1u64, 2] {
            let mut n = c16(d, 0);
            for i in 0..p.n { let x = map(d, sp.m[i], 16, &|v| (v == t) as u64); n = add(d, n, x) }
            let w = c16(d, p.weight() as u64 / 2);
            let x = d.bin(Op::Ne, n, w);
            let x = d.bin(Op::Zx16, x, x);
            acc = d.bin(Op::Or, acc, x);
        }
    }
    sym::with(d, |s, d| s.zero_facts(d, acc))
}
fn describe_facts(it: &Interp, f: u32, g: u32, p: &Params) -> String {
    let s = it.d.sym.as_ref().unwrap();
    let (a, b) = (&s.facts[f as usize], &s.facts[g as usize]);
    let mut m = vec![];
    let miss: Vec<_> = b.at.keys().filter(|k| !a.at.contains_key(k)).collect();
    let extra: Vec<_> = a.at.keys().filter(|k| !b.at.contains_key(k)).collect();
    let differ: Vec<_> = b.at.iter().filter(|(k, v)| a.at.get(k).map(|w| w != *v).unwrap_or(false)).map(|(k, v)| (*k, v.clone(), a.at[k].clone())).collect();
    if !miss.is_empty() { m.push(format!("{} word(s) that must be tested are not ({})", miss.len(), miss.iter().take(3).map(|k| s.names.get(k).cloned().unwrap_or_else(|| format!("coefficient word {}", k))).collect::<Vec<_>>().join(", "))) }
    if !extra.is_empty() { m.push(format!("{} word(s) are tested although the specification does not", extra.len())) }
    for (k, v, w) in differ.iter().take(2) {
        let only: Vec<u64> = w.iter().filter(|x| !v.contains(x)).copied().take(4).collect();
        let no: Vec<u64> = v.iter().filter(|x| !w.contains(x)).copied().take(4).collect();
        m.push(format!("{}: values {:?} wrongly accepted, values {:?} wrongly rejected", s.names.get(k).cloned().unwrap_or_else(|| format!("a coefficient (mod {})", p.q())), only, no));
    }
    if a.lin != b.lin { m.push(format!("the weight conditions differ ({} linear condition(s) tested, {} specified)", a.lin.len(), b.lin.len())) }
    if !a.other.is_empty() { m.push(format!("{} further condition(s) take part in the verdict", a.other.len())) }
    if a.bot { m.push("the verdict is always 'reject'".into()) }
    m.join("; ")
}
/// Whether f may fail where the specified conditions g hold.
fn stricter(it: &Interp, f: u32, g: u32) -> bool {
    let s = it.d.sym.as_ref().unwrap();
    let (a, b) = (&s.facts[f as usize], &s.facts[g as usize]);
    a.bot || !a.other.is_empty() || a.lin.iter().any(|r| !b.lin.contains(r)) || a.at.iter().any(|(k, w)| b.at.get(k).map_or(true, |v| v.iter().any(|x| !w.contains(x))))
}
/// The conditions under which the scheme is correct for every choice of the sampled polynomials.
pub fn job_params(p: &Params) -> Out {
    let mut o = Out::new();
    let n = p.n;
    let order = |b: usize| { let (mut x, mut k) = (b % n, 1); while x != 1 && k <= n { x = x * b % n; k += 1 } k };
    let mut cond = |ok: bool, what: &str| { o.count("parameter_conditions", 1); if !ok { o.errors.push(format!("parameter set does not satisfy: {}", what)) } };
    cond((2..n).all(|d| n % d != 0), "n is prime");
    cond(order(2) == n - 1, "2 generates the residues modulo n, so Phi_n is irreducible modulo 2");
    cond(order(3) == n - 1, "3 generates the residues modulo n, so Phi_n is irreducible modulo 3");
    // largest coefficient of 3*r*g + m*f (HPS), of (x-1)*(3*r*g + m'*f) with f, g of non-negative self-correlation (HRSS)
    if p.hps { cond(4 * p.weight() < p.q() / 2, "4*weight < q/2") } else { cond(2 * (4 * (n - 1)) * (4 * (n - 1)) < (p.q() / 2) * (p.q() / 2), "4*sqrt(2)*(n-1) < q/2") }
    o
}
fn hash_event(it: &Interp, out: &[Val]) -> Option<usize> { it.hashes.iter().position(|h| h.out.len() == out.len() && h.out.iter().zip(out).all(|(a, b)| a.src == b.src && a.tab == b.tab)) }
pub fn job_dec(p: &Params) -> Out {
    let mut o = Out::new();
    let (fun, file) = ("crypto_kem_dec", "src/kem.rs");
    for assume in [false, true] {
        let mut it = sym_interp(p, CUTS);
        // inputs are created by prepare in argument order: k, c, sk; the specification is computed first when r is assumed ternary
        let mut c = vec![]; let mut sk = vec![];
        let e = prepare(&mut it, fun, &mut |it, a, j, _| { let v = fillv(it, ["k", "c", "sk"].get(a).copied().unwrap_or("arg"), j); if a == 1 { c.push(v) } if a == 2 { sk.push(v) } v });
        let mut e = match e { Ok(e) => e, Err(m) => { o.errors.push(m); return o } };
        if e.args.iter().map(|a| a.1).collect::<Vec<_>>() != [32, p.ct(), p.sk()] { o.errors.push(format!("{}: unexpected argument sizes", fun)); return o }
        let sp = spec_dec(&mut it.d, p, &c, &sk, assume);
        let r = execute(&mut it, &mut e);
        let Some(st) = r else { if !assume { o.find("C03", "never returns", fun, file, "no execution of the call returns"); o.find("C06", "never returns", fun, file, "no execution of the call returns"); o.find("C04", "never returns", fun, file, "no execution of the call returns") } finish(&mut it, &mut o); return o };
        if !assume && result_of(&mut it, &st, &e) != Some(0) { o.find("C03", "does not return success", fun, file, "the result is not provably Ok for every ciphertext and secret key") }
        let k = bytes(&mut it, &st, e.args[0].0, 32);
        o.count("output_bytes", 32);
        // shape: every byte is a selection by one verdict between two hash outputs
        let mut guards = std::collections::BTreeSet::new();
        let (mut acc, mut rej) = (vec![], vec![]);
        let mut bad = None;
        for (i, v) in k.iter().enumerate() {
            let s = it.d.sym.as_ref().unwrap();
            match if v.is_int() && v.tab == 0 && v.src != 0 { Some(s.forms[v.src as usize].kind.clone()) } else { None } {
                Some(Kind2::Ite(g, a, b)) => { guards.insert(g); acc.push(a); rej.push(b) }
                _ => { bad = Some((i, show(&it, *v))); break }
            }
        }
        if let Some((i, s)) = bad { 
            if !assume {
                o.find("C03", "shared secret is not a selection between two hashes", fun, file, &format!("byte {} of the shared secret is {}", i, s));
                o.find("C04", "no verdict selects the shared secret", fun, file, &format!("byte {} of the shared secret is {}", i, s));
            } else { o.find("C06", "accepted shared secret not identified", fun, file, &format!("byte {} of the shared secret is {}", i, s)) }
            finish(&mut it, &mut o);
            continue;
        }
        if guards.len() != 1 && !assume { o.find("C03", "more than one verdict", fun, file, &format!("the bytes of the shared secret are selected by {} different tests", guards.len())) }
        let g = *guards.iter().next().unwrap();
        let (mut ha, mut hr) = (hash_event(&it, &acc), hash_event(&it, &rej));
        let mut flipped = false;
        // the verdict may be represented with either polarity
        let is_rej = |it: &mut Interp, h: Option<usize>| h.map(|i| { let inp = it.hashes[i].input.clone(); it.hashes[i].algo == "Sha3-v256" && diff(it, &inp, &sp.rej).is_empty() }).unwrap_or(false);
        if !is_rej(&mut it, hr) && is_rej(&mut it, ha) { std::mem::swap(&mut ha, &mut hr); flipped = true }
        if !assume {
            if !is_rej(&mut it, hr) {
                let d = match hr { None => "the rejected value is not one hash output in order".to_string(), Some(i) => { let h = &it.hashes[i]; let (al, inp, site) = (h.algo.clone(), h.input.clone(), h.site.clone()); let df = diff(&mut it, &inp, &sp.rej); format!("{} in {}: {} input bytes ({} expected), first difference at byte {:?}", al, site, inp.len(), sp.rej.len(), df.first()) } };
                o.find("C03", "rejected secret is not SHA3-256(rejection key, ciphertext)", fun, file, &d);
            }
            match ha { Some(i) if it.hashes[i].algo == "Sha3-v256" && it.hashes[i].input.len() == 2 * p.s3() => {}
                _ => o.find("C03", "accepted secret is not SHA3-256 of the packed pair", fun, file, &match ha { None => "the accepted value is not one hash output in order".to_string(), Some(i) => format!("{} of {} bytes in {}", it.hashes[i].algo, it.hashes[i].input.len(), it.hashes[i].site) }) }
            let want = accept_facts(&mut it.d, p, &sp);
            let got = match it.d.sym.as_ref().unwrap().forms[g as usize].kind { Kind2::Nz(f) => Some(f), _ => None };
            match got {
                Some(f) if f == want && !flipped => {}
                Some(f) => { let dsc = if flipped { "the verdict is not a conjunction of the specified conditions".into() } else { describe_facts(&it, f, want, p) }; o.find("C04", "verdict differs from the specified conditions", fun, file, &dsc); if flipped || stricter(&it, f, want) { o.find("C17", "a ciphertext the specification accepts can be rejected", fun, file, &dsc) } }
                None => o.find("C04", "verdict not identified", fun, file, "the selecting test is not a zero test"),
            }
            let fc = &it.d.sym.as_ref().unwrap().facts[want as usize];
            let (na, nl) = (fc.at.len(), fc.lin.len());
            o.count("verdict_conditions", (na + nl) as i128);
            o.notes.push(("verdict".into(), J::s(&format!("{} per-word conditions, {} linear conditions, selected by one test", na, nl))));
        } else {
            let q = p.q() as u64;
            let rt: Vec<Val> = sp.r.iter().map(|x| map(&mut it.d, *x, 16, &|v| if v == q - 1 { 2 } else { v & 3 })).collect();
            let mut want = pack3(&mut it.d, p, &rt);
            let pm = pack3(&mut it.d, p, &sp.m);
            want.extend(pm);
            match ha {
                None => o.find("C06", "accepted shared secret not identified", fun, file, "the accepted value is not one hash output in order"),
                Some(i) => {
                    let (inp, site) = (it.hashes[i].input.clone(), it.hashes[i].site.clone());
                    o.count("compared_bytes", want.len() as i128);
                    let df = diff(&mut it, &inp, &want);
                    let (rb, mb): (Vec<usize>, Vec<usize>) = df.iter().partition(|i| **i < p.s3());
                    if !mb.is_empty() { o.find("C06", "recovered message differs from the formula", fun, file, &format!("{} of {} packed message bytes hashed in {}, first at byte {}", mb.len(), p.s3(), site, mb[0] - p.s3())) }
                    if !rb.is_empty() { o.find("C06", "recovered blinding polynomial differs from the formula", fun, file, &format!("{} of {} packed bytes hashed in {}, first at byte {}", rb.len(), p.s3(), site, rb[0])) }
                }
            }
        }
        finish(&mut it, &mut o);
    }
    o
}
pub fn job_enc(p: &Params) -> Out {
    let mut o = Out::new();
    let (fun, file) = ("crypto_kem_enc", "src/kem.rs");
    let mut it = sym_interp(p, CUTS);
    let Some((e, r, init)) = run_api(&mut it, &mut o, fun, p) else { return o };
    let Some(st) = r else { o.find("C05", "never returns", fun, file, "no execution of the call returns"); finish(&mut it, &mut o); return o };
    if result_of(&mut it, &st, &e) != Some(0) { o.find("C05", "does not return success", fun, file, "the result is not provably Ok for every public key although the random request succeeds") }
    let lens = st.draw_lens.clone();
    draws(&mut o, &it, fun, file, &lens, &[p.seed()]);
    let seed: Vec<Val> = (0..p.seed()).map(|i| match it.draw_vals.get(&(0, i)) { Some(v) => *v, None => fillv(&mut it, "missing seed", i) }).collect();
    let rr = sample_iid(&mut it.d, p, &seed[..p.iid()]);
    let m = if p.hps { sample_fixed_type(&mut it.d, p, &seed[p.iid()..]) } else { sample_iid(&mut it.d, p, &seed[p.iid()..]) };
    let mut rm = pack3(&mut it.d, p, &rr);
    let pm = pack3(&mut it.d, p, &m);
    rm.extend(pm);
    let h = unpack_q(&mut it.d, p, &init[2], true);
    let rq = z3_to_zq(&mut it.d, p, &rr);
    let rh = convolve(&mut it.d, &rq, &h);
    let lm = lift(&mut it.d, p, &m);
    let c: Vec<Val> = (0..p.n).map(|i| add(&mut it.d, rh[i], lm[i])).collect();
    let ct = pack_q(&mut it.d, p, &c);
    let got = bytes(&mut it, &st, e.args[0].0, p.ct());
    let k = bytes(&mut it, &st, e.args[1].0, 32);
    let df = diff(&mut it, &got, &ct);
    if !df.is_empty() { o.find("C05", "ciphertext differs from the formula", fun, file, &format!("{} of {} bytes, first at byte {}: {}", df.len(), ct.len(), df[0], show(&it, got[df[0]]))) }
    o.count("output_bytes", (p.ct() + 32) as i128);
    match hash_event(&it, &k) {
        None => o.find("C05", "shared secret is not one hash output", fun, file, &format!("byte 0 is {}", show(&it, k[0]))),
        Some(i) => {
            let (al, inp, site) = (it.hashes[i].algo.clone(), it.hashes[i].input.clone(), it.hashes[i].site.clone());
            let df = diff(&mut it, &inp, &rm);
            if al != "Sha3-v256" { o.find("C05", "wrong hash function", fun, file, &format!("{} in {}", al, site)) }
            if !df.is_empty() { o.find("C12", "hashed secret is not the packed pair sampled from the seed", fun, file, &format!("{} of {} hashed bytes differ in {}, first at byte {}", df.len(), rm.len(), site, df[0])) }
            if !df.is_empty() { o.find("C05", "shared secret is not the hash of the packed pair", fun, file, &format!("{} of {} hashed bytes differ in {}, first at byte {}", df.len(), rm.len(), site, df[0])) }
        }
    }
    finish(&mut it, &mut o);
    o
}
fn draws(o: &mut Out, it: &Interp, fun: &str, file: &str, got: &[u64], want: &[usize]) {
    let g: Vec<usize> = got.iter().map(|x| *x as usize).collect();
    if g != want { o.find("C12", "random requests differ", fun, file, &format!("requests of {:?} bytes are made, {:?} specified", g, want)) }
    if it.draw_split { o.find("C12", "number of random requests depends on data", fun, file, "two executions that differ only in data make different requests") }
    o.count("random_requests", want.len() as i128);
}
pub fn job_keypair(p: &Params) -> Out {
    let mut o = Out::new();
    let (fun, file) = ("crypto_kem_keypair", "src/kem.rs");
    let mut it = sym_interp(p, CUTS);
    let Some((e, r, _)) = run_api(&mut it, &mut o, fun, p) else { return o };
    let Some(st) = r else { o.find("C07", "never returns", fun, file, "no execution of the call returns"); finish(&mut it, &mut o); return o };
    if result_of(&mut it, &st, &e) != Some(0) { o.find("C07", "does not return success", fun, file, "the result is not provably Ok although the random requests succeed") }
    let lens = st.draw_lens.clone();
    draws(&mut o, &it, fun, file, &lens, &[p.seed(), 32]);
    let seed: Vec<Val> = (0..p.seed()).map(|i| match it.draw_vals.get(&(0, i)) { Some(v) => *v, None => fillv(&mut it, "missing seed", i) }).collect();
    let tail: Vec<Val> = (0..32).map(|i| match it.draw_vals.get(&(1, i)) { Some(v) => *v, None => fillv(&mut it, "missing key", i) }).collect();
    let d = &mut it.d;
    let (f, g) = if p.hps { (sample_iid(d, p, &seed[..p.iid()]), sample_fixed_type(d, p, &seed[p.iid()..])) } else { (sample_iid_plus(d, p, &seed[..p.iid()]), sample_iid_plus(d, p, &seed[p.iid()..])) };
    let fi = inverse(d, "s3_inv", &f, 2, 2);
    let mut sk = pack3(d, p, &f);
    let x = pack3(d, p, &fi);
    sk.extend(x);
    let fq = z3_to_zq(d, p, &f);
    let gq = z3_to_zq(d, p, &g);
    let gg: Vec<Val> = if p.hps { gq.iter().map(|x| mulc(d, *x, 3)).collect() } else { (0..p.n).map(|i| { let prev = if i == 0 { gq[p.n - 1] } else { gq[i - 1] }; let t = sub(d, prev, gq[i]); mulc(d, t, 3) }).collect() };
    let gf = convolve(d, &gg, &fq);
    let inv = inverse(d, "rq_inv", &gf, p.logq as u8, 65535);
    let t = convolve(d, &inv, &fq);
    let t = convolve(d, &t, &fq);
    let hinv = modq_phi(d, &t);
    let x = pack_q(d, p, &hinv);
    sk.extend(x);
    sk.extend(tail);
    let t = convolve(d, &inv, &gg);
    let h = convolve(d, &t, &gg);
    let pk = pack_q(d, p, &h);
    let gpk = bytes(&mut it, &st, e.args[0].0, p.pk());
    let gsk = bytes(&mut it, &st, e.args[1].0, p.sk());
    o.count("output_bytes", (p.pk() + p.sk()) as i128);
    let s3 = p.s3();
    let parts = [("packed f", 0, s3), ("packed inverse of f modulo 3", s3, 2 * s3), ("packed inverse of h", 2 * s3, 2 * s3 + p.pk()), ("rejection key", p.sk() - 32, p.sk())];
    for (nm, a, b) in parts {
        let df = diff(&mut it, &gsk[a..b], &sk[a..b]);
        if !df.is_empty() { 
            let dsc = format!("{} of {} bytes differ, first at secret-key byte {}: {}", df.len(), b - a, a + df[0], show(&it, gsk[a + df[0]]));
            o.find("C07", &format!("secret key part differs: {}", nm), fun, file, &dsc);
            if nm == "packed f" { o.find("C12", "f is not sampled from its part of the seed as specified", fun, file, &dsc) }
            if nm == "rejection key" { o.find("C12", "rejection key is not the second random request", fun, file, &dsc) }
        }
    }
    let df = diff(&mut it, &gpk, &pk);
    if !df.is_empty() { o.find("C07", "public key differs from the formula", fun, file, &format!("{} of {} bytes differ, first at byte {}: {}", df.len(), pk.len(), df[0], show(&it, gpk[df[0]]))) }
    finish(&mut it, &mut o);
    o
}
/// Calls a crate function with reference/array arguments whose memory is filled per argument.
pub fn call_fn(it: &mut Interp, name: &str, args: &[Arg]) -> Result<(State, Vec<u32>, Rc<Func>, u32), String> {
    let f = find_fn(name).ok_or_else(|| format!("anchor missing: function {}", name))?;
    let inst = Instance::resolve(f, &GenericArgs(vec![])).map_err(|e| format!("{}: {:?}", name, e))?;
    let c = it.lo.callee(inst);
    let Disp::Body(func) = it.dispatch(c) else { return Err(format!("no body for {}", name)) };
    if func.nargs != args.len() { return Err(format!("{} has {} parameters, {} expected", name, func.nargs, args.len())) }
    let mut st = State::new();
    let fr = it.new_frame(&mut st, func.frame as usize + 16);
    let mut ids = vec![];
    for (i, a) in args.iter().enumerate() {
        let (off, info, ty) = func.locals[i + 1];
        let (es, vals) = match a { Arg::Ref(es, v) | Arg::Slice(es, v) | Arg::Value(es, v) => (*es, v) };
        let mut al = Alloc::new(es * vals.len(), "argument");
        for (j, v) in vals.iter().enumerate() { al.vals[j * es] = *v; al.sz[j * es] = es as u8 }
        let id = st.alloc(al);
        ids.push(id);
        let is_ref = matches!(rigid(ty), Some(RigidTy::Ref(..)));
        match a {
            _ if is_ref => {
                it.write(&mut st, Addr::at(fr, off as i64), 8, Val::ptr(id, 0));
                if info.size == 16 { let n = it.d.cst(64, vals.len() as u128); it.write(&mut st, Addr::at(fr, off as i64 + 8), 8, n) }
            }
            _ => { if info.size as usize != es * vals.len() { return Err(format!("{}: parameter {} has {} bytes", name, i, info.size)) } it.copy(&mut st, Addr::at(fr, off as i64), Addr::at(id, 0), info.size) }
        }
    }
    match it.run_func(st, &func, fr) { Some(st) => Ok((st, ids, func, fr)), None => Err(format!("{} never returns", name)) }
}
pub enum Arg { Ref(usize, Vec<Val>), Slice(usize, Vec<Val>), Value(usize, Vec<Val>) }
pub fn words(it: &mut Interp, name: &str, n: usize, w: u8, hi: u128) -> Vec<Val> { (0..n).map(|i| { let v = it.d.fresh(AVal::urange(w, 0, hi, 0)); sym::name_atom(&mut it.d, v, name, 0, i); v }).collect() }
pub fn read_words(it: &mut Interp, st: &State, a: u32, n: usize, es: u64) -> Vec<Val> { (0..n).map(|i| it.read(st, Addr::at(a, (i as u64 * es) as i64), es)).collect() }
/// The multiplication contract itself: every output coefficient is the cyclic convolution modulo 2^16.
pub fn job_mul(p: &Params) -> Out {
    let mut o = Out::new();
    let mut it = sym_interp(p, &[]);
    let (fun, file) = ("poly_rq_mul", "src/poly_rq_mul.rs");
    if find_fn(fun).is_none() {
        o.notes.push(("multiplication".into(), J::s("no function of that name; the multiplication is analysed where it is used")));
        o.count("compared_coefficients", p.n as i128);
        return o;
    }
    let z = words(&mut it, "old", p.n, 16, 65535);
    let a = words(&mut it, "a", p.n, 16, 65535);
    let b = words(&mut it, "b", p.n, 16, 65535);
    match call_fn(&mut it, fun, &[Arg::Ref(2, z), Arg::Ref(2, a.clone()), Arg::Ref(2, b.clone())]) {
        Err(m) => o.errors.push(m),
        Ok((st, ids, ..)) => {
            let got = read_words(&mut it, &st, ids[0], p.n, 2);
            let want = convolve(&mut it.d, &a, &b);
            let df = diff(&mut it, &got, &want);
            if !df.is_empty() { for pr in ["C04", "C05", "C06", "C07", "C16"] { o.find(pr, "ring multiplication is not the cyclic convolution", fun, file, &format!("{} of {} coefficients differ, first at {}", df.len(), p.n, df[0])) } }
            o.count("compared_coefficients", p.n as i128);
        }
    }
    finish(&mut it, &mut o);
    o
}
pub fn dump(it: &Interp, v: Val, depth: usize, ind: usize) {
    let s = it.d.sym.as_ref().unwrap();
    if let Some(c) = it.d.is_const(v) { eprintln!("dbg {:ind$}const {}", "", c, ind = ind); return }
    let f = &s.forms[v.src as usize];
    eprintln!("dbg {:ind$}{} tab{} {:?} form{} k{} sg{} [{},{}] kz{:x} ex{} {} {}", "", it.d.show(v), v.tab, s.tabs[v.tab as usize].outs.iter().take(6).collect::<Vec<_>>(), v.src, f.k, f.sg, f.lo, f.hi, f.kz, f.ex, match &f.kind { Kind2::Plain => "plain".into(), Kind2::Ite(g, ..) => format!("ite {}", g), Kind2::Nz(x) => format!("nz {}", x), k => format!("{:?}", k) }, f.def.map(|d| format!("{:?}", d.0)).unwrap_or_default(), ind = ind);
    if depth == 0 { return }
    if let Kind2::Ite(_, a, b) = f.kind { dump(it, a, depth - 1, ind + 2); dump(it, b, depth - 1, ind + 2); return }
    if let Some((_, a, b)) = f.def { dump(it, a, depth - 1, ind + 2); dump(it, b, depth - 1, ind + 2) }
}
// ------------------------------------------------------------------ packing (C08)
pub fn job_pack(p: &Params) -> Out {
    let mut o = Out::new();
    let (fq, f3) = ("src/packq.rs", "src/pack3.rs");
    let full = |it: &mut Interp| words(it, "coefficient", p.n, 16, 65535);
    let mut one = |name: &str, file: &str, f: &mut dyn FnMut(&mut Interp, &mut Out) -> Result<(Vec<Val>, Vec<Val>), String>| {
        let mut it = sym_interp(p, &[]);
        match f(&mut it, &mut o) {
            Err(m) => o.errors.push(m),
            Ok((got, want)) => {
                let df = diff(&mut it, &got, &want);
                o.count("compared_words", want.len() as i128);
                if !df.is_empty() { let s = show(&it, got[df[0]]); o.find("C08", "layout differs from the specified encoding", name, file, &format!("{} of {} words differ, first at {}: {}", df.len(), want.len(), df[0], s)) }
            }
        }
        finish(&mut it, &mut o);
    };
    for name in ["poly_sq_tobytes", "poly_rq_sum_zero_tobytes"] {
        one(name, fq, &mut |it, _| {
            let a = full(it);
            let old = words(it, "old", p.pk(), 8, 255);
            let (st, ids, ..) = call_fn(it, name, &[Arg::Slice(1, old), Arg::Ref(2, a.clone())])?;
            let got = read_words(it, &st, ids[0], p.pk(), 1);
            let want = pack_q(&mut it.d, p, &a);
            Ok((got, want))
        });
    }
    for (name, sz) in [("poly_sq_frombytes", false), ("poly_rq_sum_zero_frombytes", true)] {
        one(name, fq, &mut |it, _| {
            let b = words(it, "byte", p.pk(), 8, 255);
            let old = words(it, "old", p.n, 16, 65535);
            let (st, ids, ..) = call_fn(it, name, &[Arg::Ref(2, old), Arg::Slice(1, b.clone())])?;
            let got = read_words(it, &st, ids[0], p.n, 2);
            let want = unpack_q(&mut it.d, p, &b, sz);
            // only residues modulo q count
            let got = got.iter().map(|x| if x.is_int() { modq(&mut it.d, p, *x) } else { *x }).collect();
            let want = want.iter().map(|x| modq(&mut it.d, p, *x)).collect();
            Ok((got, want))
        });
    }
    one("poly_s3_tobytes", f3, &mut |it, _| {
        let mut a = words(it, "digit", p.n - 1, 16, 2);
        a.push(c16(&mut it.d, 0));
        let old = words(it, "old", p.s3(), 8, 255);
        let (st, ids, ..) = call_fn(it, "poly_s3_tobytes", &[Arg::Ref(1, old), Arg::Ref(2, a.clone())])?;
        let got = read_words(it, &st, ids[0], p.s3(), 1);
        let want = pack3(&mut it.d, p, &a);
        Ok((got, want))
    });
    one("poly_s3_frombytes", f3, &mut |it, o| {
        let b = words(it, "byte", 2 * p.s3(), 8, 255);
        let old = words(it, "old", p.n, 16, 65535);
        let (st, ids, ..) = call_fn(it, "poly_s3_frombytes", &[Arg::Ref(2, old), Arg::Value(1, b.clone())])?;
        let got = read_words(it, &st, ids[0], p.n, 2);
        let bad: Vec<usize> = (0..p.n).filter(|i| !got[*i].is_int() || it.d.av(got[*i]).uhi > 2).collect();
        if !bad.is_empty() { o.find("C08", "decoded digit outside 0..2", "poly_s3_frombytes", f3, &format!("{} digits, first at {}: {}", bad.len(), bad[0], it.d.show(got[bad[0]]))) }
        let want = unpack3(&mut it.d, p, &b);
        Ok((got, want))
    });
    // digits survive the round trip: five digits per byte, 3^5 <= 256
    let ok = (0..243u32).all(|v| { let d: Vec<u32> = (0..5).map(|i| v / 3u32.pow(i) % 3).collect(); d.iter().rev().fold(0, |a, x| 3 * a + x) == v });
    if !ok { o.errors.push("internal: base-3 encoding".into()) }
    o
}
// ------------------------------------------------------------------ sampling (C09, C12)
pub fn job_sample(p: &Params) -> Out {
    let mut o = Out::new();
    let file = "src/sample.rs";
    for (name, names) in [("sample_fg", ["f", "g"]), ("sample_rm", ["r", "m"])] {
        let mut it = sym_interp(p, CUTS);
        let old = words(&mut it, "old", p.n, 16, 65535);
        let old2 = words(&mut it, "old2", p.n, 16, 65535);
        let u: Vec<Val> = (0..p.seed()).map(|i| fillv(&mut it, "seed", i)).collect();
        match call_fn(&mut it, name, &[Arg::Ref(2, old), Arg::Ref(2, old2), Arg::Value(1, u.clone())]) {
            Err(m) => o.errors.push(m),
            Ok((st, ids, ..)) => {
                for k in 0..2 {
                    let got = read_words(&mut it, &st, ids[k], p.n, 2);
                    let fixed = p.hps && k == 1;
                    let part = if k == 0 { &u[..p.iid()] } else { &u[p.iid()..] };
                    let want = if fixed { sample_fixed_type(&mut it.d, p, part) } else if name == "sample_fg" && !p.hps { sample_iid_plus(&mut it.d, p, part) } else { sample_iid(&mut it.d, p, part) };
                    let df = diff(&mut it, &got, &want);
                    o.count("compared_words", p.n as i128);
                    if !df.is_empty() { o.find("C12", &format!("{} is not sampled from its part of the seed as specified", names[k]), name, file, &format!("{} of {} coefficients differ, first at {}: {}", df.len(), p.n, df[0], show(&it, got[df[0]]))) }
                    let bad: Vec<usize> = (0..p.n).filter(|i| !got[*i].is_int() || it.d.av(got[*i]).uhi > 2).collect();
                    if !bad.is_empty() { o.find("C09", &format!("coefficient of {} outside 0..2", names[k]), name, file, &format!("{} coefficients, first at {}: {}", bad.len(), bad[0], it.d.show(got[bad[0]]))) }
                    if !(got[p.n - 1].is_int() && it.d.is_const(got[p.n - 1]) == Some(0)) { o.find("C09", &format!("last coefficient of {} is not zero", names[k]), name, file, &format!("it is {}", show(&it, got[p.n - 1]))) }
                    o.count("ternary_coefficients", (p.n - bad.len()) as i128);
                    if fixed {
                        // tags of the words handed to the sort, and where each coefficient comes from
                        let ev: Vec<(Vec<Val>, Vec<Val>, String)> = it.d.sym.as_ref().unwrap().events.iter().filter(|e| e.name.ends_with("::crypto_sort_int32")).map(|e| (e.ins[0].clone(), e.outs.clone(), e.site.clone())).collect();
                        let Some((ins, outs, site)) = ev.last().cloned() else { if !df.is_empty() { o.find("C09", &format!("{} is not obtained by sorting", names[k]), name, file, "no call of the sorting routine found") } continue };
                        let tag = |it: &Interp, v: Val| { let a = it.d.av(v); if (a.kz | a.ko) & 3 == 3 { Some((a.ko & 3) as usize) } else { None } };
                        let mut cnt = [0usize; 4];
                        let mut unk = 0;
                        for v in &ins { match tag(&it, *v) { Some(t) => cnt[t] += 1, None => unk += 1 } }
                        let w = p.weight() / 2;
                        if unk > 0 || cnt[1] != w || cnt[2] != w || cnt[0] != p.n - 1 - 2 * w { o.find("C09", "wrong number of +1 or -1 tags", name, file, &format!("words sorted in {}: {} tagged 1, {} tagged 2 ({} each required), {} tagged 0, {} tagged 3, {} without constant tag", site, cnt[1], cnt[2], w, cnt[0], cnt[3], unk)) }
                        let three = it.d.cst(32, 3);
                        let mut left: Vec<Val> = outs.iter().map(|x| { let y = it.d.bin(Op::And, *x, three); it.d.bin(Op::Zx16, y, y) }).collect();
                        let mut strange = vec![];
                        for i in 0..p.n - 1 { match (0..left.len()).find(|j| sym::with(&mut it.d, |s, d| s.same(d, left[*j], got[i]))) { Some(j) => { left.swap_remove(j); } None => strange.push(i) } }
                        if !strange.is_empty() { o.find("C09", &format!("{} is not a rearrangement of the tags", names[k]), name, file, &format!("{} coefficients, first at {}: {}, not the tag of its own sorted word", strange.len(), strange[0], show(&it, got[strange[0]]))) }
                        // the random part of each word: 30 bits of its own
                        let ws = fixed_type_words(&mut it.d, p, part);
                        let dw = { let mut a: Vec<_> = sym::with(&mut it.d, |s, d| ins.iter().map(|x| s.key(d, *x)).collect()); let mut b: Vec<_> = sym::with(&mut it.d, |s, d| ws.iter().map(|x| s.key(d, *x)).collect()); a.sort(); b.sort(); a != b };
                        if dw { o.find("C12", "words to sort are not built from the seed as specified", name, file, &format!("words sorted in {}", site)) }
                        o.count("tagged_words", ins.len() as i128);
                    }
                }
            }
        }
        finish(&mut it, &mut o);
    }
    o
}
/// Knuth's merge exchange (Algorithm 5.2.2M) on value numbers.
fn merge_exchange(d: &mut Dom, x: &mut Vec<Val>) -> usize {
    let n = x.len();
    let mut top = 1; while top < n - top { top += top }
    let mut cnt = 0;
    let mut p = top;
    while p > 0 {
        let (mut q, mut r, mut dd) = (top, 0, p);
        loop {
            for i in 0..n - dd { if i & p == r { let (a, b) = sym::with(d, |s, d| s.minmax(d, x[i], x[i + dd])); x[i] = a; x[i + dd] = b; cnt += 1 } }
            if q == p { break }
            dd = q - p;
            q >>= 1;
            r = p;
        }
        p >>= 1;
    }
    cnt
}
pub fn job_sort(p: &Params, thorough: bool) -> Out {
    let mut o = Out::new();
    if !p.hps { o.notes.push(("sort".into(), J::s("this parameter set has no fixed-weight samples"))); o.count("compared_words", 1); o.count("comparators", 1); return o }
    let (fun, file) = ("crypto_sort_int32", "src/crypto_sort_int32.rs");
    let mut lens = vec![p.n - 1];
    if thorough { lens.extend([2, 3, 4, 5, 7, 8, 16, 33, 100]) }
    for n in lens {
        let mut it = sym_interp(p, &[]);
        it.d.sym.as_mut().unwrap().order = true;
        let x = words(&mut it, "word", n, 32, u32::MAX as u128);
        match call_fn(&mut it, fun, &[Arg::Slice(4, x.clone())]) {
            Err(m) => o.errors.push(m),
            Ok((st, ids, ..)) => {
                let got = read_words(&mut it, &st, ids[0], n, 4);
                let mut want = x.clone();
                let c = merge_exchange(&mut it.d, &mut want);
                let df = diff(&mut it, &got, &want);
                if !df.is_empty() { o.find("C09", "sorting network differs from merge exchange", fun, file, &format!("{} of {} positions are not the minimum/maximum expressions of the network, first at {}: {}", df.len(), n, df[0], show(&it, got[df[0]]))) }
                o.count("compared_words", n as i128);
                o.count("comparators", c as i128);
            }
        }
        finish(&mut it, &mut o);
    }
    o
}
// ------------------------------------------------------------------ random requests (C12)
pub fn job_draws(which: &str, p: &Params) -> Out {
    let mut o = Out::new();
    let mut it = Interp::new(256);
    cut_inversions(&mut it);
    let e = prepare(&mut it, which, &mut |it, _, _, _| it.d.fresh(AVal::top(8, 0)));
    let mut e = match e { Ok(e) => e, Err(m) => { o.errors.push(m); return o } };
    let r = execute(&mut it, &mut e);
    match r {
        None => o.find("C12", "never returns", which, "src/kem.rs", "no execution of the call returns"),
        Some(st) => { let lens = st.draw_lens.clone(); draws(&mut o, &it, which, "src/kem.rs", &lens, if which == "crypto_kem_enc" { vec![p.seed()] } else { vec![p.seed(), 32] }.as_slice()) }
    }
    o.absorb(&it);
    o
}
// ------------------------------------------------------------------ generator (C13)
fn aes_fields(it: &mut Interp) -> Result<(usize, usize, usize), String> {
    let ty = aes_state();
    let Some(RigidTy::Adt(ad, _)) = rigid(ty) else { return Err("anchor missing: AesState".into()) };
    let fs = ad.variants()[0].fields();
    let find = |it: &mut Interp, nm: &str, size: u64| -> Result<usize, String> {
        let c: Vec<usize> = (0..fs.len()).filter(|i| it.lo.info(fs[*i].ty()).size == size).collect();
        let i = (0..fs.len()).find(|i| fs[*i].name == nm && it.lo.info(fs[*i].ty()).size == size).or(if c.len() == 1 { Some(c[0]) } else { None }).ok_or(format!("anchor missing: generator field {}", nm))?;
        Ok(it.lo.field_off(ty, None, i) as usize)
    };
    Ok((find(it, "key", 32)?, find(it, "v", 16)?, find(it, "reseed_counter", 4)?))
}
fn ctr_block(it: &mut Interp, key: &[Val], v: &mut Vec<Val>) -> Vec<Val> {
    let mut le: Vec<Val> = v.iter().rev().copied().collect();
    le = sym::with(&mut it.d, |s, d| s.increment(d, &le));
    le.reverse();
    *v = le;
    let mut inp = key.to_vec();
    inp.extend(v.iter());
    it.opaque_fn("Aes256", &inp, 16)
}
fn drbg_update(it: &mut Interp, key: &[Val], v: &mut Vec<Val>, data: Option<&[Val]>) -> (Vec<Val>, Vec<Val>) {
    let mut t: Vec<Val> = (0..3).flat_map(|_| ctr_block(it, key, v)).collect();
    if let Some(d) = data { for i in 0..48 { t[i] = it.d.bin(Op::Xor, t[i], d[i]) } }
    (t[..32].to_vec(), t[32..].to_vec())
}
pub fn job_rng(p: &Params, thorough: bool) -> Out {
    let mut o = Out::new();
    let file = "src/rng.rs";
    let mut lens: Vec<usize> = (0..=if thorough { 200 } else { 66 }).collect();
    lens.extend([p.seed(), 255, 256, 257, 1024]);
    if thorough { lens.extend([4095, 4096, 4097, 10000]) }
    let mut todo: Vec<Option<usize>> = [None].into_iter().chain(lens.iter().map(|x| Some(*x))).collect();
    let mut i = 0;
    while i < todo.len() {
        let l = todo[i];
        i += 1;
        let mut it = sym_interp(p, &[]);
        it.cfg.model_rng = false;
        let what = if l.is_some() { "randombytes" } else { "randombytes_init" };
        let (ko, vo, co) = match aes_fields(&mut it) { Ok(x) => x, Err(m) => { o.errors.push(m); return o } };
        let mut state = vec![];
        let mut data = vec![];
        let r = run_rng(&mut it, l, &mut |it, j| { let v = fillv(it, "state", j); state.push(v); v }, &mut |it, j| { let v = fillv(it, "data", j); data.push(v); v }, None);
        let r = match r { Err(m) => { o.errors.push(m); return o } Ok(r) => r };
        let Some(r) = r else { o.find("C13", "never returns", what, file, "no execution of the call returns"); finish(&mut it, &mut o); continue };
        let ctx = match l { Some(n) => format!("request of {} bytes", n), None => "initialisation".into() };
        let (mut key, mut v) = (state[ko..ko + 32].to_vec(), state[vo..vo + 16].to_vec());
        if l.is_none() { let z = it.d.cst(8, 0); key = vec![z; 32]; v = vec![z; 16] }
        let mut out = vec![];
        if let Some(n) = l {
            while out.len() < n { let b = ctr_block(&mut it, &key, &mut v); out.extend(b) }
            out.truncate(n);
            let got = bytes(&mut it, &r.st, r.buf, n);
            let df = diff(&mut it, &got, &out);
            if !df.is_empty() { o.find("C13", "output is not the encrypted counter sequence", what, file, &format!("{}: {} bytes differ, first at byte {}: {}", ctx, df.len(), df[0], show(&it, got[df[0]]))) }
            let ei = it.lo.enum_info(r.ret_ty);
            let rv = it.read_discr(&r.st, Addr::at(r.entry.1, r.entry.0.locals[0].0 as i64), &ei);
            if it.d.is_const(rv) != Some(0) { o.find("C13", "generator fails", what, file, &format!("{}: the result is not provably Ok", ctx)) }
        }
        let (nk, nv) = drbg_update(&mut it, &key, &mut v, if l.is_none() { Some(&data) } else { None });
        let gk = (0..32).map(|i| it.read(&r.st, Addr::at(r.state, (ko + i) as i64), 1)).collect::<Vec<_>>();
        let gv = (0..16).map(|i| it.read(&r.st, Addr::at(r.state, (vo + i) as i64), 1)).collect::<Vec<_>>();
        for (nm, g, w) in [("key", &gk, &nk), ("counter", &gv, &nv)] {
            let df = diff(&mut it, g, w);
            if !df.is_empty() { o.find("C13", &format!("{} after the call differs from the update function", nm), what, file, &format!("{}: {} bytes differ, first at byte {}: {}", ctx, df.len(), df[0], show(&it, g[df[0]]))) }
        }
        let gc = it.read(&r.st, Addr::at(r.state, co as i64), 4);
        let want = if l.is_none() { it.d.cst(32, 1) } else {
            let mut acc = it.d.cst(32, 1);
            for i in 0..4 { let z = it.d.bin(Op::Zx32, state[co + i], state[co + i]); let k = it.d.cst(32, 1 << (8 * i)); let z = it.d.bin(Op::Mul, z, k); acc = it.d.bin(Op::Add, acc, z) }
            acc
        };
        if !diff(&mut it, &[gc], &[want]).is_empty() { o.find("C13", "request counter wrong", what, file, &format!("{}: the request counter becomes {}", ctx, show(&it, gc))) }
        o.count("request_lengths", l.is_some() as i128);
        o.count("compared_bytes", (out.len() + 48 + 4) as i128);
        if l == Some(66) { for n in crate::checks::boundary_lengths(&it.lo, &it.d, (1 << if thorough { 20 } else { 17 }) + 64) { if !todo.contains(&Some(n)) { todo.push(Some(n)) } } }
        finish(&mut it, &mut o);
        o.notes.clear();
    }
    o.notes.push(("largest_request".into(), J::N(todo.iter().map(|x| x.unwrap_or(0)).max().unwrap_or(0) as i128)));
    o
}
/// Fresh, default, copied and compared generator states (C19).
pub fn job_state(p: &Params) -> Out {
    let mut o = Out::new();
    let file = "src/rng.rs";
    for what in ["new", "default", "clone", "clone_from", "eq", "ne"] {
        let mut it = sym_interp(p, &[]);
        let (ko, vo, co) = match aes_fields(&mut it) { Ok(x) => x, Err(m) => { o.errors.push(m); return o } };
        let inst = match aes_method(what) {
            Ok(i) => i,
            Err(_) if matches!(what, "clone_from" | "ne") => continue,
            Err(m) => { o.errors.push(m); continue }
        };
        let c = it.lo.callee(inst);
        let Disp::Body(func) = it.dispatch(c) else { o.errors.push(format!("no body for {}", what)); continue };
        let want = match what { "new" | "default" => 0, "clone" => 1, _ => 2 };
        if func.nargs != want { o.errors.push(format!("{} of the generator has {} parameters", what, func.nargs)); continue }
        let ss = it.lo.info(aes_state()).size as usize;
        let mut st = State::new();
        let mut mem = vec![];
        let mut cells = vec![];
        for nm in ["first", "second"] {
            let mut al = Alloc::new(ss, nm);
            let mut v = vec![];
            for j in (ko..ko + 32).chain(vo..vo + 16) { let x = fillv(&mut it, nm, j); al.vals[j] = x; al.sz[j] = 1; v.push(x) }
            let w = words(&mut it, if nm == "first" { "first counter" } else { "second counter" }, 1, 32, u32::MAX as u128)[0];
            al.vals[co] = w;
            al.sz[co] = 4;
            v.push(w);
            mem.push(st.alloc(al));
            cells.push(v);
        }
        let fr = it.new_frame(&mut st, func.frame as usize + 16);
        for i in 0..func.nargs { it.write(&mut st, Addr::at(fr, func.locals[i + 1].0 as i64), 8, Val::ptr(mem[i], 0)) }
        let Some(st) = it.run_func(st, &func, fr) else { o.find("C19", "never returns", what, file, "no execution of the call returns"); finish(&mut it, &mut o); continue };
        let state = |it: &mut Interp, a: Addr| -> Vec<Val> {
            let mut v: Vec<Val> = (ko..ko + 32).chain(vo..vo + 16).map(|j| { let b = it.shift(a, j as i64); it.read(&st, b, 1) }).collect();
            let b = it.shift(a, co as i64);
            v.push(it.read(&st, b, 4));
            v
        };
        let part = |i: usize| if i < 32 { "key" } else if i < 48 { "counter block" } else { "request counter" };
        let ret = Addr::at(fr, func.locals[0].0 as i64);
        match what {
            "new" | "default" => {
                let got = state(&mut it, ret);
                if let Some(i) = (0..49).find(|i| it.d.is_const(got[*i]) != Some(0)) { o.find("C19", "fresh generator does not start from the zero state", what, file, &format!("the {} is {}", part(i), show(&it, got[i]))) }
            }
            "clone" | "clone_from" => {
                let (got, want) = if what == "clone" { (state(&mut it, ret), cells[0].clone()) } else { (state(&mut it, Addr::at(mem[0], 0)), cells[1].clone()) };
                if let Some(i) = diff(&mut it, &got, &want).first() { o.find("C19", "copy differs from its original", what, file, &format!("the {} of the copy is {}", part(*i), show(&it, got[*i]))) }
            }
            _ => {
                let mut all = it.d.cst(8, 1);
                for i in 0..49 { let e = it.d.bin(Op::Eq, cells[0][i], cells[1][i]); all = it.d.bin(Op::And, all, e) }
                if what == "ne" { let one = it.d.cst(8, 1); all = it.d.bin(Op::Xor, all, one) }
                let got = it.read(&st, ret, 1);
                if !diff(&mut it, &[got], &[all]).is_empty() {
                    o.find("C19", "equality is not agreement of key, counter block and request counter", what, file, &format!("the result is {}", show(&it, got)))
                }
            }
        }
        if what != "clone_from" { for i in 0..func.nargs { let now = state(&mut it, Addr::at(mem[i], 0)); if !diff(&mut it, &now, &cells[i]).is_empty() { o.find("C19", "operation modifies a generator it only reads", what, file, "the state is written") } } }
        o.count("state_operations", 1);
        o.count("compared_cells", 49);
        finish(&mut it, &mut o);
    }
    o.notes.clear();
    o
}
// ------------------------------------------------------------------ lifting (C16)
pub fn job_lift(p: &Params) -> Out {
    let mut o = Out::new();
    let (fun, file) = ("poly_rq_inv", "src/poly.rs");
    let mut it = sym_interp(p, &[("::poly_rq_mul", "mul"), ("::poly_r2_inv", "r2_inv")]);
    let old = words(&mut it, "old", p.n, 16, 65535);
    let a = words(&mut it, "a", p.n, 16, 65535);
    match call_fn(&mut it, fun, &[Arg::Ref(2, old), Arg::Ref(2, a.clone())]) {
        Err(m) => o.errors.push(m),
        Ok((st, ids, ..)) => {
            let r = read_words(&mut it, &st, ids[0], p.n, 2);
            let ev: Vec<(Vec<Val>, Vec<Val>)> = it.d.sym.as_ref().unwrap().events.iter().filter(|e| e.name.ends_with("::poly_r2_inv")).map(|e| (e.ins[0].clone(), e.outs.clone())).collect();
            if ev.is_empty() { o.errors.push("no call of poly_r2_inv found in poly_rq_inv".into()); finish(&mut it, &mut o); return o }
            let (ain, ai) = ev[ev.len() - 1].clone();
            let one = c16(&mut it.d, 1);
            // the starting value must be the inverse of the argument modulo 2
            let (x, y): (Vec<Val>, Vec<Val>) = (ain.iter().map(|v| it.d.bin(Op::And, *v, one)).collect(), a.iter().map(|v| it.d.bin(Op::And, *v, one)).collect());
            if !diff(&mut it, &x, &y).is_empty() { o.find("C16", "lifting starts from the inverse of another polynomial", fun, file, "the polynomial inverted modulo 2 is not the argument") }
            if r.iter().any(|x| !x.is_int()) { o.errors.push("result of poly_rq_inv unknown".into()); finish(&mut it, &mut o); return o }
            // residual 1 - a r, and powers of the starting residual 1 - a ai, modulo Phi_n
            let res = |it: &mut Interp, r: &[Val]| -> Vec<Val> { let t = convolve(&mut it.d, &a, r); let t: Vec<Val> = t.iter().enumerate().map(|(i, x)| { let c = c16(&mut it.d, (i == 0) as u64); sub(&mut it.d, c, *x) }).collect(); t };
            let lr = res(&mut it, &r);
            let e0 = res(&mut it, &ai);
            let phi = |it: &mut Interp, v: &[Val]| -> Vec<Val> { let t = modq_phi(&mut it.d, v); t.iter().map(|x| modq(&mut it.d, p, *x)).collect() };
            let want = phi(&mut it, &lr);
            let mut ok = None;
            let mut tried = vec![];
            let mut pow = e0.clone();
            let mut k = 1;
            while k < 64 { pow = convolve(&mut it.d, &pow, &pow); k *= 2; if k >= p.logq { tried.push(k); let c = phi(&mut it, &pow); if diff(&mut it, &c, &want).is_empty() { ok = Some(k); break } } }
            if ok.is_none() {
                // other exponents large enough to vanish modulo q
                let mut pow = e0.clone();
                for k in 2..=40 { pow = convolve(&mut it.d, &pow, &e0); if k >= p.logq { let c = phi(&mut it, &pow); if diff(&mut it, &c, &want).is_empty() { ok = Some(k); break } } }
            }
            o.count("compared_coefficients", p.n as i128);
            match ok {
                Some(k) => o.notes.push(("residual".into(), J::s(&format!("1 - a*r = (1 - a*ai)^{} modulo q and Phi_n for all a; {} >= log2 q = {}", k, k, p.logq)))),
                None => o.find("C16", "lifting does not reach the inverse modulo q", fun, file, "the residual 1 - a*r is not a power (log2 q or more) of the starting residual 1 - a*ai"),
            }
        }
    }
    finish(&mut it, &mut o);
    o
}

// ------------------------------------------------------------------ frame conditions of the inversion contracts
pub fn job_frame(p: &Params) -> Out {
    let mut o = Out::new();
    let (fun, file) = ("poly_s3_inv", "src/poly_s3_inv.rs");
    let mut it = Interp::new(1024);
    let mk = |it: &mut Interp, hi: u128| -> Vec<Val> { (0..p.n).map(|_| it.d.fresh(AVal::urange(16, 0, hi, 0))).collect() };
    let old = mk(&mut it, 65535);
    let a = mk(&mut it, 2);
    match call_fn(&mut it, fun, &[Arg::Ref(2, old), Arg::Ref(2, a.clone())]) {
        Err(m) => o.errors.push(m),
        Ok((st, ids, ..)) => {
            let after = read_words(&mut it, &st, ids[1], p.n, 2);
            let ch: Vec<usize> = (0..p.n).filter(|i| after[*i] != a[*i]).collect();
            if !ch.is_empty() { o.find("C07", "inversion modifies the polynomial it inverts", fun, file, &format!("{} coefficients of the argument are written, first at {}", ch.len(), ch[0])) }
            o.count("compared_words", p.n as i128);
        }
    }
    o.absorb(&it);
    o
}

// ------------------------------------------------------------------ ring inversions (C18)
struct DivSteps { delta: Val, f: Vec<Val>, g: Vec<Val>, v: Vec<Val>, w: Vec<Val> }
/// Bernstein and Yang's division steps on the reversed polynomials, modulo 2 or 3, coefficient by coefficient.
fn divsteps(d: &mut Dom, p: &Params, m: u128, g0: &[Val]) -> (DivSteps, Vec<(usize, usize)>, Vec<Vec<Vec<Val>>>) {
    let n = p.n;
    let c = |d: &mut Dom, x: u128| d.cst(16, x);
    let (zero, one, two, md) = (c(d, 0), c(d, 1), c(d, 2), c(d, m));
    let mut s = DivSteps { delta: one, f: vec![one; n], g: g0.to_vec(), v: vec![zero; n], w: vec![zero; n] };
    s.w[0] = one;
    let def = |d: &mut Dom, x: Val, t: usize| fin::with(d, |s, d| s.define(d, x, t as i32));
    let a0 = d.fin.as_ref().unwrap().atoms.len();
    s.g = s.g.iter().map(|x| def(d, *x, 0)).collect();
    let mut marks = vec![(a0, d.fin.as_ref().unwrap().atoms.len())];
    let mut runs = vec![vec![s.g[..n - 1].to_vec()]];
    for t in 1..=2 * (n - 1) - 1 {
        let a0 = d.fin.as_ref().unwrap().atoms.len();
        let e0 = d.fin.as_ref().unwrap().ents.len();
        let pos = d.bin(Op::LtS, zero, s.delta);
        let nz = d.bin(Op::Ne, s.g[0], zero);
        let swap = d.bin(Op::And, pos, nz);
        let t1 = d.bin(Op::Mul, s.g[0], s.f[0]);
        let t2 = if m == 3 { d.bin(Op::Mul, t1, two) } else { t1 };
        let e = d.bin(Op::RemU, t2, md);
        let neg = d.bin(Op::Sub, zero, s.delta);
        let dl = sel(d, swap, neg, s.delta);
        let dl = d.bin(Op::Add, dl, one);
        let (mut f, mut g, mut v, mut w) = (vec![zero; n], vec![zero; n], vec![zero; n], vec![zero; n]);
        for i in 0..n {
            let sh = if i == 0 { zero } else { s.v[i - 1] };
            for k in 0..2 {
                let (x, y) = if k == 0 { (s.f[i], s.g[i]) } else { (sh, s.w[i]) };
                let a = sel(d, swap, y, x);
                let b = sel(d, swap, x, y);
                let ea = d.bin(Op::Mul, e, a);
                let b = d.bin(Op::Add, b, ea);
                let b = d.bin(Op::RemU, b, md);
                if k == 0 { f[i] = a; if i > 0 { g[i - 1] = b } } else { v[i] = a; w[i] = b }
            }
        }
        // name the new state only when all of it is expressed over the old one
        let mut delta = def(d, dl, t);
        for x in [&mut f, &mut g, &mut v, &mut w] { for y in x.iter_mut() { *y = def(d, *y, t) } }
        let mut keep: Vec<&mut Val> = vec![&mut delta];
        for x in [&mut f, &mut g, &mut v, &mut w] { keep.extend(x.iter_mut()) }
        d.fin.as_mut().unwrap().rewind(e0, &mut keep);
        runs.push(vec![f.clone(), g[..n - 1].to_vec(), v.clone(), w.clone()]);
        s = DivSteps { delta, f, g, v, w };
        marks.push((a0, d.fin.as_ref().unwrap().atoms.len()));
    }
    (s, marks, runs)
}
fn sel(d: &mut Dom, g: Val, a: Val, b: Val) -> Val { fin::with(d, |s, d| s.ite(d, g, a, b)) }
/// The same recurrence on integers: checks the oracle, not the repository.
fn divsteps_concrete(n: usize, m: u32, a: &[u32]) -> Option<Vec<u32>> {
    let (mut delta, mut f, mut g, mut v, mut w) = (1i32, vec![1u32; n], vec![0u32; n], vec![0u32; n], vec![0u32; n]);
    w[0] = 1;
    for i in 0..n - 1 { g[n - 2 - i] = (a[i] + (m - 1) * a[n - 1]) % m }
    for _ in 0..2 * (n - 1) - 1 {
        for i in (1..n).rev() { v[i] = v[i - 1] }
        v[0] = 0;
        let e = (m - 1) * g[0] * f[0] % m;
        if delta > 0 && g[0] != 0 { std::mem::swap(&mut f, &mut g); std::mem::swap(&mut v, &mut w); delta = -delta }
        delta += 1;
        for i in 0..n { g[i] = (g[i] + e * f[i]) % m; w[i] = (w[i] + e * v[i]) % m }
        g.rotate_left(1);
        g[n - 1] = 0;
    }
    if delta != 0 { return None }
    let mut r: Vec<u32> = (0..n - 1).map(|i| f[0] * v[n - 2 - i] % m).collect();
    r.push(0);
    Some(r)
}
pub fn job_inv(p: &Params, which: &str) -> Out {
    let mut o = Out::new();
    let m: u128 = if which == "s3" { 3 } else { 2 };
    let (fun, file) = if m == 3 { ("poly_s3_inv", "src/poly_s3_inv.rs") } else { ("poly_r2_inv", "src/poly_r2_inv.rs") };
    // the oracle inverts
    let mut x = 88172645463325252u64;
    let mut tried = 0;
    for _ in 0..6 {
        let a: Vec<u32> = (0..p.n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 20) as u32 % m as u32 }).collect();
        let Some(r) = divsteps_concrete(p.n, m as u32, &a) else { continue };
        let mut prod = vec![0u32; p.n];
        for i in 0..p.n { for j in 0..p.n { let k = (i + j) % p.n; prod[k] = (prod[k] + a[i] * r[j]) % m as u32 } }
        let top = prod[p.n - 1];
        if (0..p.n).any(|i| (prod[i] + (m as u32 - 1) * top) % m as u32 != (i == 0) as u32) { o.errors.push("internal: the reference recurrence does not invert".into()); return o }
        tried += 1;
    }
    if tried == 0 { o.errors.push("internal: reference recurrence not exercised".into()); return o }
    let mut it = Interp::new(0);
    it.d.fin = Some(Box::new(fin::Fin::new()));
    it.cfg.poly_n = p.n;
    it.cfg.logq = p.logq as u8;
    let a: Vec<Val> = (0..p.n).map(|_| fin::with(&mut it.d, |s, d| { let x = s.atom((0..m as i64).collect(), -1); s.word(d, x, 16, if m == 2 { 0xfffe } else { 0 }) })).collect();
    let old: Vec<Val> = (0..p.n).map(|_| it.d.fresh(AVal::top(16, 0))).collect();
    let md = it.d.cst(16, m);
    let one = it.d.cst(16, 1);
    let zero = it.d.cst(16, 0);
    let bits: Vec<Val> = a.iter().map(|x| if m == 2 { it.d.bin(Op::And, *x, one) } else { *x }).collect();
    let mut g = vec![zero; p.n];
    for i in 0..p.n - 1 {
        let mut t = bits[p.n - 1];
        if m == 3 { t = it.d.bin(Op::Add, t, t) }
        let t = it.d.bin(Op::Add, bits[i], t);
        g[p.n - 2 - i] = it.d.bin(Op::RemU, t, md);
    }
    let (s, marks, runs) = divsteps(&mut it.d, p, m, &g);
    let mut want: Vec<Val> = (0..p.n - 1).map(|i| { let x = s.v[p.n - 2 - i]; if m == 3 { let y = it.d.bin(Op::Mul, s.f[0], x); it.d.bin(Op::RemU, y, md) } else { x } }).collect();
    want.push(zero);
    let cells: i128 = marks.iter().map(|(a, b)| (b - a) as i128).sum();
    it.d.fin.as_mut().unwrap().follow(marks.clone(), runs);
    let lost0 = it.d.fin.as_ref().unwrap().lost;
    match call_fn(&mut it, fun, &[Arg::Ref(2, old), Arg::Ref(2, a)]) {
        Err(m) => o.errors.push(m),
        Ok((st, ids, ..)) => {
            let got = read_words(&mut it, &st, ids[0], p.n, 2);
            let df: Vec<usize> = (0..p.n).filter(|i| !got[*i].is_int() || !fin::with(&mut it.d, |s, d| s.same(d, got[*i], want[*i]))).collect();
            if !df.is_empty() {
                let fs = it.d.fin.as_ref().unwrap();
                let at = marks.iter().position(|(a, b)| (*a..*b).any(|x| fs.atoms[x].base == 0 && fs.atoms[x].def.is_some() && !fs.atoms[x].hit));
                let wh = match at { Some(t) => if t == 0 { "the initial state differs".into() } else { format!("division step {} leaves the specified recurrence", t) }, None => "all division steps agree, the result is extracted differently".into() };
                let ds = fs.describe(&it.d, got[df[0]]);
                o.find("C18", "inversion differs from the specified division-step recurrence", fun, file, &format!("{} of {} coefficients differ, first at {}: {}; {}", df.len(), p.n, df[0], ds, wh));
            }
            o.count("compared_coefficients", p.n as i128);
        }
    }
    let fs = it.d.fin.as_ref().unwrap();
    o.count("state_cells", cells);
    o.count("state_cells_matched", fs.atoms.iter().filter(|x| x.hit).count() as i128);
    o.count("division_steps", marks.len() as i128 - 1);
    o.count("finite_tables", fs.tabs.len() as i128);
    o.count("tables_given_up", (fs.lost - lost0) as i128);
    o.count("oracle_inversions", tried);
    o.absorb(&it);
    o
}
