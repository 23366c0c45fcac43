//! Analysis jobs. Each job analyses the type-checked program and yields findings and counts.
use crate::dom::*;
use crate::interp::*;
use crate::json::J;
use crate::lower::*;
use crate::models::Disp;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::{FnDef, GenericArgKind, GenericArgs, RigidTy, Ty};
use rustc_public::{CrateDef, CrateDefType};
use std::rc::Rc;

pub const L_SECRET: u64 = 1;
pub const L_OLD: u64 = 2;
pub const L_PRF: u64 = 4;
pub const L_PK: u64 = 8;
pub const L_UNFILLED: u64 = 16;
pub const L_CT: u64 = 32;

/// What the published parameter sets prescribe (NTRU round-3 submission, sections 1.3 and 1.8-1.10).
#[derive(Clone)]
pub struct Params { pub name: &'static str, pub n: usize, pub logq: usize, pub hps: bool }
impl Params {
    pub fn by_name(v: &str) -> Params {
        match v {
            "ntruhps2048509" => Params { name: "ntruhps2048509", n: 509, logq: 11, hps: true },
            "ntruhps2048677" => Params { name: "ntruhps2048677", n: 677, logq: 11, hps: true },
            "ntruhps4096821" => Params { name: "ntruhps4096821", n: 821, logq: 12, hps: true },
            "ntruhrss701" => Params { name: "ntruhrss701", n: 701, logq: 13, hps: false },
            _ => panic!("unknown parameter set {}", v),
        }
    }
    pub fn q(&self) -> usize { 1 << self.logq }
    pub fn weight(&self) -> usize { self.q() / 8 - 2 }
    pub fn iid(&self) -> usize { self.n - 1 }
    pub fn ft(&self) -> usize { (30 * (self.n - 1) + 7) / 8 }
    pub fn seed(&self) -> usize { if self.hps { self.iid() + self.ft() } else { 2 * self.iid() } }
    pub fn s3(&self) -> usize { (self.n - 1 + 4) / 5 }
    pub fn pk(&self) -> usize { (self.logq * (self.n - 1) + 7) / 8 }
    pub fn ct(&self) -> usize { self.pk() }
    pub fn sk(&self) -> usize { 2 * self.s3() + self.pk() + 32 }
}

pub struct Out {
    pub findings: Vec<(String, String, Finding)>,
    pub errors: Vec<String>,
    pub counts: Vec<(String, i128)>,
    pub notes: Vec<(String, J)>,
}
impl Out {
    pub fn new() -> Out { Out { findings: vec![], errors: vec![], counts: vec![], notes: vec![] } }
    pub fn find(&mut self, prop: &str, kind: &str, func: &str, file: &str, detail: &str) {
        let key = format!("{}|{}|{}", kind, func, file);
        self.findings.push((prop.into(), key, Finding { kind: kind.into(), func: func.into(), file: file.into(), line: 0, detail: detail.into(), count: 1 }));
    }
    pub fn count(&mut self, k: &str, n: i128) { match self.counts.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 += n, None => self.counts.push((k.into(), n)) } }
    pub fn json(&self, job: &str, variant: &str, secs: f64) -> J {
        let fs = self.findings.iter().map(|(p, k, f)| J::O(vec![
            ("prop".into(), J::s(p)), ("key".into(), J::s(k)), ("kind".into(), J::s(&f.kind)), ("func".into(), J::s(&f.func)), ("file".into(), J::s(&f.file)),
            ("line".into(), J::N(f.line as i128)), ("detail".into(), J::s(&f.detail)), ("count".into(), J::N(f.count as i128)),
        ])).collect();
        J::O(vec![
            ("job".into(), J::s(job)), ("variant".into(), J::s(variant)), ("findings".into(), J::A(fs)), ("errors".into(), J::strs(&self.errors)),
            ("counts".into(), J::O(self.counts.iter().map(|(k, v)| (k.clone(), J::N(*v))).collect())), ("notes".into(), J::O(self.notes.clone())), ("ms".into(), J::N((secs * 1000.0) as i128)),
        ])
    }
    pub fn absorb(&mut self, it: &Interp) {
        for (k, _) in &it.rep.unsup { if !self.errors.contains(k) { self.errors.push(k.clone()) } }
        let r = &it.rep;
        for (k, n) in [("statements", r.steps), ("calls", r.calls), ("asserts", r.asserts), ("asserts_discharged", r.asserts_proved), ("branches", r.branches), ("undecided_branches", r.undecided), ("memory_accesses", r.mem_accesses), ("hash_or_cipher_calls", it.hashes.len() as u64), ("heap_allocations", it.heap_allocs)] { self.count(k, n as i128) }
        self.count("assert_sites", r.assert_sites.len() as i128);
        self.count("undecided_branch_sites", r.branch_sites.len() as i128);
        self.count("variable_index_sites", r.index_sites.len() as i128);
        self.count("functions_local", r.local_funcs.len() as i128);
        self.count("functions_all", r.funcs.len() as i128);
        self.notes.push(("local_functions".into(), J::strs(&r.local_funcs)));
        if !r.externals.is_empty() { self.notes.push(("externals".into(), J::strs(&r.externals))) }
    }
    pub fn wide(&mut self, it: &Interp) {
        for (_, f) in &it.rep.wide { let key = format!("{}|{}|{}", f.kind, f.func, f.file); self.findings.push(("C21".into(), key, f.clone())) }
        self.count("word_uses", it.rep.words as i128);
    }
    pub fn panics(&mut self, prop: &str, it: &Interp, ctx: &str) {
        for (_, f) in &it.rep.panics {
            let mut f = f.clone();
            f.detail = format!("{}: {}", ctx, f.detail);
            let key = format!("{}|{}|{}", f.kind, f.func, f.file);
            self.findings.push((prop.into(), key, f));
        }
    }
}

/// Functions whose bodies are analysed on their own: name, module, shape of the parameters
/// (P polynomial, b bytes, i 32-bit words).
const ANCHORS: &[(&str, &str, &str)] = &[
    ("poly_rq_mul", "poly_rq_mul", "PPP"), ("poly_s3_mul", "poly", "PPP"), ("poly_sq_mul", "poly", "PPP"),
    ("poly_s3_inv", "poly_s3_inv", "PP"), ("poly_r2_inv", "poly_r2_inv", "PP"), ("poly_rq_inv", "poly", "PP"),
    ("sample_fg", "sample", "PPb"), ("sample_rm", "sample", "PPb"), ("crypto_sort_int32", "crypto_sort_int32", "i"),
    ("poly_sq_tobytes", "packq", "bP"), ("poly_rq_sum_zero_tobytes", "packq", "bP"), ("poly_sq_frombytes", "packq", "Pb"), ("poly_rq_sum_zero_frombytes", "packq", "Pb"),
    ("poly_s3_tobytes", "pack3", "bP"), ("poly_s3_frombytes", "pack3", "Pb"),
];
/// Names of functions that are known under their own name.
const KNOWN: &[&str] = &["aes256_ctr_update", "aes256_ecb", "both_negative_mask", "build", "cmov", "crypto_kem_dec", "crypto_kem_enc", "crypto_kem_keypair", "crypto_sort_int32", "default", "fmt", "int32_minmax", "mod3", "new", "owcpa_check_ciphertext", "owcpa_check_m", "owcpa_check_r", "owcpa_dec", "owcpa_enc", "owcpa_keypair", "poly_lift", "poly_mod_3_phi_n", "poly_mod_q_phi_n", "poly_r2_inv", "poly_r2_inv_to_rq_inv", "poly_rq_inv", "poly_rq_mul", "poly_rq_sum_zero_frombytes", "poly_rq_sum_zero_tobytes", "poly_rq_to_s3", "poly_s3_frombytes", "poly_s3_inv", "poly_s3_mul", "poly_s3_tobytes", "poly_sq_frombytes", "poly_sq_mul", "poly_sq_tobytes", "poly_trinary_zq_to_z3", "poly_z3_to_zq", "randombytes", "randombytes_init", "sample_fg", "sample_fixed_type", "sample_iid", "sample_iid_plus", "sample_rm", "sha3_256"];
fn shape(f: &FnDef) -> String {
    let mut s = String::new();
    for t in f.fn_sig().skip_binder().inputs() {
        let mut t = *t;
        if let Some(RigidTy::Ref(_, u, _)) = rigid(t) { t = u }
        s.push(match rigid(t) {
            Some(RigidTy::Adt(d, _)) if d.name().ends_with("Poly") => 'P',
            Some(RigidTy::Array(e, _)) | Some(RigidTy::Slice(e)) => match rigid(e) { Some(RigidTy::Uint(rustc_public::ty::UintTy::U8)) => 'b', Some(RigidTy::Int(rustc_public::ty::IntTy::I32)) => 'i', _ => '?' },
            _ => '?',
        });
    }
    s
}
/// Renamed functions: the only new function of the shape takes the place of one that is gone.
fn renamed() -> &'static Vec<(String, &'static str)> {
    static R: std::sync::OnceLock<Vec<(String, &'static str)>> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        let fns = rustc_public::local_crate().fn_defs();
        let last = |n: &str| n.rsplit("::").next().unwrap_or("").to_string();
        let present: Vec<String> = fns.iter().map(|f| last(&f.name())).collect();
        let mut out: Vec<(String, &'static str)> = vec![];
        for (a, m, sh) in ANCHORS {
            if present.iter().any(|x| x == a) { continue }
            let c: Vec<String> = fns.iter().filter(|f| !KNOWN.contains(&last(&f.name()).as_str()) && shape(f) == *sh).map(|f| f.name()).collect();
            let inside: Vec<&String> = c.iter().filter(|n| n.rsplit("::").nth(1) == Some(*m)).collect();
            let pick = if inside.len() == 1 { inside[0].clone() } else if c.len() == 1 { c[0].clone() } else { continue };
            if !out.iter().any(|(n, _)| *n == pick) { out.push((pick, *a)) }
        }
        out
    })
}
/// The name under which the analyses know a function.
pub fn known_as(name: String) -> String {
    match renamed().iter().find(|(n, _)| *n == name) { Some((_, a)) => match name.rfind("::") { Some(i) => format!("{}::{}", &name[..i], a), None => a.to_string() }, None => name }
}
pub fn find_fn(suffix: &str) -> Option<FnDef> { rustc_public::local_crate().fn_defs().into_iter().find(|f| { let n = known_as(f.name()); n == suffix || n.ends_with(&format!("::{}", suffix)) }) }
pub fn adt_name(t: Ty) -> Option<String> { match rigid(t) { Some(RigidTy::Adt(d, _)) => Some(d.name()), _ => None } }
pub fn aes_state() -> Ty {
    for f in rustc_public::local_crate().fn_defs() {
        let sig = f.ty().kind().fn_sig().map(|s| s.skip_binder());
        if let Some(s) = sig {
            for t in s.inputs_and_output.iter() {
                let t = pointee_ref(*t).unwrap_or(*t);
                if let Some(n) = adt_name(t) { if n.ends_with("AesState") { return t } }
            }
        }
    }
    panic!("anchor missing: AesState");
}
fn pointee_ref(t: Ty) -> Option<Ty> { match rigid(t)? { RigidTy::Ref(_, t, _) => Some(t), _ => None } }

pub struct Entry {
    pub name: String,
    pub func: Rc<Func>,
    pub frame: u32,
    pub st: Option<State>,
    /// allocation, size and mutability of what each argument points to
    pub args: Vec<(u32, usize, bool)>,
    pub ret_ty: Ty,
}
/// Prepares a call of a public function: every `&`/`&mut` argument points to its own buffer filled by `fill(arg, byte)`.
pub fn prepare(it: &mut Interp, name: &str, fill: &mut dyn FnMut(&mut Interp, usize, usize, bool) -> Val) -> Result<Entry, String> {
    let f = find_fn(name).ok_or_else(|| format!("anchor missing: function {}", name))?;
    let ga = if f.generics_of().params.len() > 0 { GenericArgs(vec![GenericArgKind::Type(aes_state())]) } else { GenericArgs(vec![]) };
    let inst = Instance::resolve(f, &ga).map_err(|e| format!("cannot resolve {}: {:?}", name, e))?;
    let c = it.lo.callee(inst);
    let Disp::Body(func) = it.dispatch(c) else { return Err(format!("no body for {}", name)) };
    let mut st = State::new();
    let fr = it.new_frame(&mut st, func.frame as usize + 16);
    let mut args = vec![];
    for i in 1..=func.nargs {
        let (off, info, ty) = func.locals[i];
        match rigid(ty) {
            Some(RigidTy::Ref(_, pt, m)) => {
                let pd = matches!(rigid(pt), Some(RigidTy::Dynamic(..)));
                let pi = it.lo.info(if pd { aes_state() } else { pt });
                if !pi.sized { return Err(format!("{}: argument {} is unsized", name, i)) }
                let n = pi.size as usize;
                let mu = format!("{:?}", m) == "Mut";
                let mut al = Alloc::new(n, "argument");
                for j in 0..n { al.vals[j] = fill(it, i - 1, j, mu); al.sz[j] = 1 }
                al.ro = !mu;
                let a = st.alloc(al);
                it.write(&mut st, Addr::at(fr, off as i64), 8, Val::ptr(a, 0));
                if pd { let v = it.opq(Opaque::VTable("random source".into(), Some(aes_state()))); it.write(&mut st, Addr::at(fr, off as i64 + 8), 8, v) }
                args.push((a, n, mu));
            }
            _ => {
                let n = info.size as usize;
                for j in 0..n { let v = fill(it, i - 1, j, true); it.write(&mut st, Addr::at(fr, off as i64 + j as i64), 1, v) }
                args.push((u32::MAX, n, false));
            }
        }
    }
    let ret_ty = func.locals[0].2;
    Ok(Entry { name: name.into(), func, frame: fr, st: Some(st), args, ret_ty })
}
pub fn execute(it: &mut Interp, e: &mut Entry) -> Option<State> {
    let st = e.st.take().unwrap();
    let f = e.func.clone();
    it.run_func(st, &f, e.frame)
}
/// 0 = Ok, 1 = Err, None = undecided
pub fn result_of(it: &mut Interp, st: &State, e: &Entry) -> Option<u128> {
    let ei = it.lo.enum_info(e.ret_ty);
    let v = it.read_discr(st, Addr::at(e.frame, e.func.locals[0].0 as i64), &ei);
    it.d.is_const(v)
}
pub fn bytes(it: &mut Interp, st: &State, alloc: u32, n: usize) -> Vec<Val> { (0..n).map(|i| it.read(st, Addr::at(alloc, i as i64), 1)).collect() }

pub fn api_shape(which: &str, p: &Params) -> (&'static [(&'static str, bool)], Vec<usize>) {
    match which {
        "crypto_kem_keypair" => (&[("pk", true), ("sk", true), ("rng", true)], vec![p.pk(), p.sk()]),
        "crypto_kem_enc" => (&[("c", true), ("k", true), ("pk", false), ("rng", true)], vec![p.ct(), 32, p.pk()]),
        _ => (&[("k", true), ("c", false), ("sk", false)], vec![32, p.ct(), p.sk()]),
    }
}
pub fn cut_inversions(it: &mut Interp) {
    for f in ["poly_s3_inv", "poly_r2_inv", "poly_rq_inv", "poly_rq_mul", "poly_s3_mul", "poly_sq_mul"] { it.cfg.cuts.insert(format!("::{}", f), "havoc".into()); }
}

/// One abstract execution of an API call with dependence labels: serves C01, C02 and C10.
pub fn job_kem(which: &str, p: &Params) -> Out {
    let mut o = Out::new();
    let mut it = Interp::new(1024);
    it.cfg.check_ct = true;
    it.cfg.secret = L_SECRET;
    it.cfg.rng_label = L_SECRET;
    it.cfg.draw_labels = if which == "crypto_kem_keypair" { vec![L_SECRET, L_SECRET | L_PRF] } else { vec![] };
    let (shape, sizes) = api_shape(which, p);
    let tail = p.sk() - 32;
    let e = prepare(&mut it, which, &mut |it, a, j, _| {
        let t = match shape.get(a) {
            Some(("sk", false)) => L_SECRET | if j >= tail { L_PRF } else { 0 },
            Some(("pk", false)) => L_PK,
            Some(("c", false)) => L_CT,
            Some(("rng", _)) => L_SECRET,
            _ => L_OLD,
        };
        it.d.fresh(AVal::top(8, t))
    });
    let mut e = match e { Ok(e) => e, Err(m) => { o.errors.push(m); return o } };
    for (i, n) in sizes.iter().enumerate() { if e.args.get(i).map(|a| a.1) != Some(*n) { o.errors.push(format!("{}: argument {} does not have {} bytes", which, i, n)); return o } }
    let r = execute(&mut it, &mut e);
    o.wide(&it);
    o.panics("C01", &it, which);
    for (_, f) in &it.rep.ct { let mut f = f.clone(); f.detail = format!("{}: {}", which, f.detail); let key = format!("{}|{}|{}", f.kind, f.func, f.file); o.findings.push(("C02".into(), key, f)) }
    for (_, f) in &it.rep.writes_ro { let mut f = f.clone(); f.detail = format!("{}: {}", which, f.detail); let key = format!("{}|{}|{}", f.kind, f.func, f.file); o.findings.push(("C10".into(), key, f)) }
    let file = "src/kem.rs";
    match r {
        None => { if it.rep.panics.is_empty() { o.find("C01", "never returns", which, file, "no execution of the call returns") } }
        Some(st) => {
            if result_of(&mut it, &st, &e) != Some(0) { for pr in ["C10", "C11"] { o.find(pr, "does not return success", which, file, "result is not provably Ok although every random request succeeds") } }
            let mut ob = 0;
            for (i, (nm, mu)) in shape.iter().enumerate() {
                if !*mu || *nm == "rng" { continue }
                let (a, n, _) = e.args[i];
                let bs = bytes(&mut it, &st, a, n);
                let mut old = vec![]; let mut prf = vec![]; let mut pk = vec![]; let mut unk = vec![];
                for (j, v) in bs.iter().enumerate() {
                    ob += 1;
                    let t = it.d.taint(*v);
                    if !v.is_int() { unk.push(j) }
                    if t & L_OLD != 0 { old.push(j) }
                    if t & L_PRF != 0 && which == "crypto_kem_keypair" && (*nm == "pk" || j < tail) { prf.push(j) }
                    if t & L_PK != 0 && which == "crypto_kem_enc" && *nm == "k" { pk.push(j) }
                }
                let mut rep = |o: &mut Out, v: &Vec<usize>, k: &str, d: &str| if !v.is_empty() { o.find("C10", k, which, file, &format!("{}: {} byte(s), first at offset {}, {}", nm, v.len(), v[0], d)) };
                rep(&mut o, &old, &format!("output {} depends on its previous content", nm), "not written on every path or computed from the old buffer content");
                rep(&mut o, &prf, &format!("output {} depends on the rejection key", nm), "derived from the random bytes reserved for implicit rejection");
                rep(&mut o, &pk, &format!("output {} depends on the public key", nm), "shared secret derived from the public key");
                if !unk.is_empty() { o.errors.push(format!("{}: {} bytes of {} unknown", which, unk.len(), nm)) }
            }
            o.count("output_bytes", ob);
            o.notes.push(("draw_lengths".into(), J::A(st.draw_lens.iter().map(|x| J::N(*x as i128)).collect())));
        }
    }
    o.absorb(&it);
    o
}

/// Random source failing at each request in turn (C11).
pub fn job_fail(which: &str, p: &Params) -> Out {
    let mut o = Out::new();
    let (shape, _) = api_shape(which, p);
    let file = "src/kem.rs";
    let mut k = 0u32;
    let mut scen = 0;
    loop {
        if k > 16 { o.errors.push(format!("{}: more than 16 random requests", which)); break }
        let mut it = Interp::new(256);
        it.cfg.rng_label = 0;
        it.cfg.rng_fail_at = Some(k);
        cut_inversions(&mut it);
        let mut init: Vec<Vec<Val>> = vec![vec![]; 8];
        let e = prepare(&mut it, which, &mut |it, a, _, _| { let v = it.d.fresh(AVal::top(8, L_OLD)); init[a].push(v); v });
        let mut e = match e { Ok(e) => e, Err(m) => { o.errors.push(m); return o } };
        let r = execute(&mut it, &mut e);
        o.absorb(&it);
        let Some(st) = r else { o.find("C11", "never returns", which, file, &format!("no execution returns when request {} fails", k)); break };
        if let Some(i) = shape.iter().position(|x| x.0 == "rng") {
            let (a, n, _) = e.args[i];
            let when = if st.draws <= k { "no request fails".to_string() } else { format!("request {} fails", k) };
            let bs = bytes(&mut it, &st, a, n);
            let ch: Vec<usize> = (0..n).filter(|j| bs[*j] != init[i][*j]).collect();
            if !ch.is_empty() { o.find("C20", "random source changed", which, file, &format!("{} byte(s) of the caller's random source, first at offset {}, are changed other than by a request when {}", ch.len(), ch[0], when)) }
            for (d, s) in it.rep.draws.iter().zip(&it.rep.draw_srcs) { if *s != a { o.find("C20", "request to another source", which, file, &format!("request {} in {} is not made to the random source the caller passed", d.0, d.2)) } }
            o.count("source_bytes", n as i128);
            o.count("requests_followed", it.rep.draws.len() as i128);
        }
        if st.draws <= k { 
            // the request was never made: this is the run in which nothing fails
            if result_of(&mut it, &st, &e) != Some(0) { o.find("C11", "fails without a failing request", which, file, "result is not provably Ok although no random request fails") }
            break;
        }
        scen += 1;
        let at = it.rep.draws.iter().find(|d| d.0 == k).map(|d| d.2.clone()).unwrap_or_default();
        let res = result_of(&mut it, &st, &e);
        if res != Some(1) { o.find("C11", "failed request not reported", which, file, &format!("random request {} made in {} fails but the call {}", k, at, if res == Some(0) { "returns success" } else { "does not provably return an error" })) }
        else {
            let pv = it.read(&st, Addr::at(e.frame, e.func.locals[0].0 as i64), 8);
            let same = pv.is_ptr() && it.err_allocs.contains(&pv.idx());
            if !same { o.find("C11", "error replaced", which, file, &format!("the error returned when request {} fails (made in {}) is not the one the random source gave", k, at)) }
        }
        if st.draws != k + 1 { o.find("C11", "requests after a failure", which, file, &format!("{} further request(s) are made after request {} failed in {}", st.draws - k - 1, k, at)) }
        for (i, (nm, mu)) in shape.iter().enumerate() {
            if !*mu || *nm == "rng" { continue }
            let (a, n, _) = e.args[i];
            let bs = bytes(&mut it, &st, a, n);
            // what the failing source itself leaves in a buffer it was handed is its own doing
            let direct = it.rep.draws.iter().zip(&it.rep.draw_dsts).any(|(d, t)| d.0 == k && *t == a);
            let own: std::collections::HashSet<Val> = if direct { it.draw_vals.iter().filter(|x| x.0 .0 == k as usize).map(|x| *x.1).collect() } else { Default::default() };
            let leaked: Vec<usize> = bs.iter().enumerate().filter(|x| !own.contains(x.1)).filter(|(_, v)| it.d.taint(**v) & L_UNFILLED != 0).map(|x| x.0).collect();
            if !leaked.is_empty() { o.find("C11", &format!("{} computed from a buffer that was not filled", nm), which, file, &format!("{} byte(s) of {}, first at offset {}, when request {} in {} fails", leaked.len(), nm, leaked[0], k, at)) }
            if which == "crypto_kem_enc" {
                let ch: Vec<usize> = (0..n).filter(|j| bs[*j] != init[i][*j]).collect();
                if !ch.is_empty() { o.find("C11", &format!("{} changed although the request failed", nm), which, file, &format!("{} byte(s) of {}, first at offset {}, are written when request {} in {} fails", ch.len(), nm, ch[0], k, at)) }
            }
            o.count("output_bytes", n as i128);
        }
        k += 1;
    }
    o.count("failure_scenarios", scen);
    if scen == 0 { o.errors.push(format!("{}: no random request found", which)) }
    o
}

/// The bundled generator from an arbitrary state (C01 part).
pub fn job_rng_panic(lens: &[usize]) -> Out {
    let mut o = Out::new();
    let mut todo: Vec<Option<usize>> = [None].into_iter().chain(lens.iter().map(|x| Some(*x))).collect();
    let mut i = 0;
    while i < todo.len() {
        let l = todo[i];
        i += 1;
        let mut it = Interp::new(1024);
        it.cfg.model_rng = false;
        let what = match l { Some(n) => format!("randombytes, {} bytes", n), None => "randombytes_init".to_string() };
        match run_rng(&mut it, l, &mut |it, _| it.d.fresh(AVal::top(8, 0)), &mut |it, _| it.d.fresh(AVal::top(8, 0)), None) {
            Err(m) => { o.errors.push(m); return o }
            Ok(r) => { o.wide(&it); o.panics("C01", &it, &what); if r.is_none() && it.rep.panics.is_empty() { o.find("C01", "never returns", &what, "src/rng.rs", "no execution of the call returns") } }
        }
        o.absorb(&it);
        o.count("request_lengths", 1);
        if l == Some(80) { for n in boundary_lengths(&it.lo, &it.d, (1 << 20) + 64).into_iter().chain([65537, (1 << 20) + 17]) { if !todo.contains(&Some(n)) { todo.push(Some(n)) } } }
    }
    o.notes.clear();
    o.notes.push(("largest_request".into(), J::N(todo.iter().map(|x| x.unwrap_or(0)).max().unwrap_or(0) as i128)));
    o
}
/// Request lengths at which the generator's code could start to behave differently: next to the integer constants of its
/// functions, and to the sizes of the integer types it uses, both as a number of bytes and as a number of blocks.
pub fn boundary_lengths(lo: &crate::lower::Lower, d: &Dom, cap: usize) -> Vec<usize> {
    use crate::lower::{Kind, Operand, Rv, Stmt, Term};
    let mut c: std::collections::BTreeSet<u128> = [256].into();
    let mut op = |o: &Operand, c: &mut std::collections::BTreeSet<u128>| match o {
        Operand::Const(v, t) if matches!(t.kind, Kind::Int { .. }) => { if let Some(k) = d.is_const(*v) { c.insert(k); } }
        _ => {}
    };
    for f in lo.callees.iter().filter(|k| k.local).filter_map(|k| k.body.as_ref()) {
        if f.locals.iter().any(|l| matches!(l.1.kind, Kind::Int { w: 16, .. })) { c.insert(65536); }
        for b in &f.blocks {
            for s in &b.stmts {
                match s {
                    Stmt::Assign(_, rv, _) => match rv {
                        Rv::Use(a) | Rv::Un(_, a) | Rv::CastInt(_, a) | Rv::Repeat(a, ..) => op(a, &mut c),
                        Rv::Bin(_, x, y) | Rv::PtrBin(_, x, y, _) | Rv::Cmp3(x, y, _) | Rv::Checked(_, _, x, y, _) => { op(x, &mut c); op(y, &mut c) }
                        Rv::Agg(v, _) => for (_, a) in v { op(a, &mut c) },
                        _ => {}
                    },
                    _ => {}
                }
            }
            match &b.term {
                Term::Switch { targets, .. } => for (v, _) in targets { c.insert(*v); },
                Term::Call { args, .. } => for a in args { op(a, &mut c) },
                _ => {}
            }
        }
    }
    for m in lo.consts.iter().filter(|m| !m.mutable && m.bytes.len() <= 24) {
        for w in m.bytes.chunks_exact(8) { if let Some(b) = w.iter().copied().collect::<Option<Vec<u8>>>() { c.insert(u64::from_le_bytes(b.try_into().unwrap()) as u128); } }
    }
    let mut l = std::collections::BTreeSet::new();
    for k in c.into_iter().filter(|k| *k > 4 && *k <= cap as u128) {
        let k = k as usize;
        for x in [k - 1, k, k + 1, 16 * k - 1, 16 * k, 16 * k + 1, 16 * k + 17] { if x <= cap { l.insert(x); } }
    }
    l.into_iter().collect()
}
pub struct RngRun { pub st: State, pub state: u32, pub buf: u32, pub entry: (Rc<Func>, u32), pub ret_ty: Ty }
pub fn aes_method(name: &str) -> Result<Instance, String> {
    // trait method of RNGState resolved for AesState
    let tr = rustc_public::local_crate().trait_decls().into_iter().find(|t| t.name().ends_with("RNGState")).ok_or("anchor missing: trait RNGState")?;
    let _ = tr;
    let f = rustc_public::local_crate().fn_defs().into_iter().find(|f| { let n = f.name(); n.ends_with(&format!("::{}", name)) && n.contains("AesState") });
    let f = match f { Some(f) => f, None => return Err(format!("anchor missing: {} of AesState", name)) };
    Instance::resolve(f, &GenericArgs(vec![])).map_err(|e| format!("{:?}", e))
}
/// Calls `randombytes` with a buffer of n bytes (Some) or `randombytes_init` (None).
pub fn run_rng(it: &mut Interp, n: Option<usize>, state: &mut dyn FnMut(&mut Interp, usize) -> Val, data: &mut dyn FnMut(&mut Interp, usize) -> Val, prev: Option<(State, u32)>) -> Result<Option<RngRun>, String> {
    let inst = aes_method(if n.is_some() { "randombytes" } else { "randombytes_init" })?;
    let c = it.lo.callee(inst);
    let Disp::Body(func) = it.dispatch(c) else { return Err("no body".into()) };
    let ss = it.lo.info(aes_state()).size as usize;
    let (mut st, sa) = match prev { Some((st, a)) => (st, a), None => {
        let mut st = State::new();
        let mut al = Alloc::new(ss, "generator");
        for j in 0..ss { al.vals[j] = state(it, j); al.sz[j] = 1 }
        let a = st.alloc(al);
        (st, a)
    } };
    let fr = it.new_frame(&mut st, func.frame as usize + 16);
    let off = |i: usize| func.locals[i].0 as i64;
    it.write(&mut st, Addr::at(fr, off(1)), 8, Val::ptr(sa, 0));
    let len = n.unwrap_or(48);
    let mut al = Alloc::new(len, "buffer");
    for j in 0..len { al.vals[j] = data(it, j); al.sz[j] = 1 }
    let ba = st.alloc(al);
    match n {
        Some(n) => { it.write(&mut st, Addr::at(fr, off(2)), 8, Val::ptr(ba, 0)); let l = it.d.cst(64, n as u128); it.write(&mut st, Addr::at(fr, off(2) + 8), 8, l) }
        None => it.copy(&mut st, Addr::at(fr, off(2)), Addr::at(ba, 0), 48),
    }
    let r = it.run_func(st, &func, fr);
    Ok(r.map(|st| RngRun { st, state: sa, buf: ba, entry: (func.clone(), fr), ret_ty: func.locals[0].2 }))
}

pub fn run(tcx: rustc_middle::ty::TyCtxt<'_>) {
    let variant = std::env::var("NTRU_VARIANT").expect("NTRU_VARIANT");
    let p = Params::by_name(&variant);
    let jobs = std::env::var("NTRU_JOB").expect("NTRU_JOB");
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut res = vec![];
    for job in jobs.split(',') {
        let t0 = std::time::Instant::now();
        let o = match job {
            "kem:dec" => job_kem("crypto_kem_dec", &p),
            "kem:enc" => job_kem("crypto_kem_enc", &p),
            "kem:keypair" => job_kem("crypto_kem_keypair", &p),
            "fail:enc" => job_fail("crypto_kem_enc", &p),
            "fail:keypair" => job_fail("crypto_kem_keypair", &p),
            "rngpanic" => {
                let mut l: Vec<usize> = (0..=if thorough { 400 } else { 80 }).collect();
                l.extend([p.seed(), 255, 256, 1000]);
                job_rng_panic(&l)
            }
            "sym:dec" => crate::spec::job_dec(&p),
            "sym:enc" => crate::spec::job_enc(&p),
            "sym:keypair" => crate::spec::job_keypair(&p),
            "sym:pack" => crate::spec::job_pack(&p),
            "sym:sample" => crate::spec::job_sample(&p),
            "sym:sort" => crate::spec::job_sort(&p, thorough),
            "sym:rng" => crate::spec::job_rng(&p, thorough),
            "sym:state" => crate::spec::job_state(&p),
            "sym:lift" => crate::spec::job_lift(&p),
            "inv:s3" => crate::spec::job_inv(&p, "s3"),
            "inv:r2" => crate::spec::job_inv(&p, "r2"),
            "frame" => crate::spec::job_frame(&p),
            "params" => crate::spec::job_params(&p),
            "draws:enc" => crate::spec::job_draws("crypto_kem_enc", &p),
            "draws:keypair" => crate::spec::job_draws("crypto_kem_keypair", &p),
            "sym:mul" => crate::spec::job_mul(&p),
            "portable" => crate::effects::job_portable(tcx),
            "types" => crate::effects::job_types(tcx),
            "source" => crate::effects::job_source(tcx),
            "effects" => crate::effects::job_effects(tcx),
            "consts" => crate::effects::job_consts(tcx, &p),
            _ => panic!("unknown job {}", job),
        };
        res.push(o.json(job, &variant, t0.elapsed().as_secs_f64()));
    }
    let out = J::A(res).show();
    match std::env::var("NTRU_OUT") { Ok(f) => std::fs::write(f, out).unwrap(), Err(_) => println!("{}", out) }
}
