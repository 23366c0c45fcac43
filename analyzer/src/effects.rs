//! Lints over the type-checked program: effects (C14) and published constants (C15).
use crate::checks::{Out, Params};
use crate::json::J;
use crate::lower::rigid;
use rustc_hir as hir;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::{self, TyCtxt};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::{self as smir, Rvalue, TerminatorKind};
use rustc_public::ty::RigidTy;
use rustc_public::{CrateDef, CrateDefType};
use rustc_span::def_id::{LocalDefId, CRATE_DEF_ID};
use std::collections::BTreeSet;

struct Hv<'tcx> { tcx: TyCtxt<'tcx>, owner: LocalDefId, found: Vec<(String, String, String, usize)>, bodies: u64, exprs: u64, blocks: u64 }
impl<'tcx> Hv<'tcx> {
    fn at(&mut self, kind: &str, span: rustc_span::Span) {
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(span.lo());
        let f = l.file.name.prefer_local_unconditionally().to_string();
        let o = self.tcx.def_path_str(self.owner);
        self.found.push((kind.into(), o, f, l.line));
    }
}
impl<'tcx> Visitor<'tcx> for Hv<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        let old = self.owner;
        self.owner = i.owner_id.def_id;
        match &i.kind {
            hir::ItemKind::Impl(im) => if let Some(t) = im.of_trait { if matches!(t.safety, hir::Safety::Unsafe) { self.at("unsafe impl", i.span) } },
            hir::ItemKind::ForeignMod { .. } => self.at("foreign function declarations", i.span),
            hir::ItemKind::GlobalAsm { .. } => self.at("inline assembly", i.span),
            hir::ItemKind::Static(m, ..) => {
                let d = i.owner_id.def_id.to_def_id();
                let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let freeze = t.is_freeze(self.tcx, ty::TypingEnv::post_analysis(self.tcx, d));
                let attrs = self.tcx.codegen_fn_attrs(d).flags;
                if matches!(m, hir::Mutability::Mut) { self.at("mutable global state", i.span) }
                else if !freeze { self.at("global with interior mutability", i.span) }
                if attrs.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::THREAD_LOCAL) { self.at("thread-local state", i.span) }
            }
            _ => {}
        }
        intravisit::walk_item(self, i);
        self.owner = old;
    }
    fn visit_fn(&mut self, k: intravisit::FnKind<'tcx>, d: &'tcx hir::FnDecl<'tcx>, b: hir::BodyId, s: rustc_span::Span, id: LocalDefId) {
        let old = self.owner;
        self.owner = id;
        self.bodies += 1;
        if let Some(h) = k.header() { if h.is_unsafe() { self.at("unsafe function", s) } }
        intravisit::walk_fn(self, k, d, b, id);
        self.owner = old;
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        self.blocks += 1;
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules { self.at("unsafe block", b.span) }
        intravisit::walk_block(self, b);
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        self.exprs += 1;
        if let hir::ExprKind::InlineAsm(_) = e.kind { self.at("inline assembly", e.span) }
        intravisit::walk_expr(self, e);
    }
}

/// Whether library code may call this function.
fn allowed(krate: &str, path: &str) -> Result<(), &'static str> {
    let seg: Vec<&str> = path.split("::").collect();
    let m = |k: &str, s: &str| -> Option<&'static str> {
        if !matches!(k, "core" | "std" | "alloc") { return None }
        match s {
            "io" => Some("console or stream access"),
            "fs" => Some("file access"),
            "net" => Some("network access"),
            "env" => Some("environment access"),
            "process" => Some("process control"),
            "thread" => Some("thread access"),
            "time" => Some("clock access"),
            "os" | "sys" | "backtrace" => Some("operating-system access"),
            "cell" | "sync" | "rc" => Some("shared or interior mutability"),
            "arch" => Some("machine-specific code"),
            _ => None,
        }
    };
    // `<core::cell::Cell<T> as ..>` style paths: look at every `crate::module` pair
    let flat: String = path.chars().map(|c| if c.is_alphanumeric() || c == '_' || c == ':' { c } else { ' ' }).collect();
    for w in flat.split_whitespace() {
        let s: Vec<&str> = w.trim_start_matches(':').split("::").collect();
        if s.len() >= 2 { if let Some(e) = m(s[0], s[1]) { return Err(e) } }
    }
    match krate {
        "core" | "alloc" | "tiny_keccak" | "aes" | "cipher" | "generic_array" | "typenum" | "crypto_common" => Ok(()),
        "std" => {
            if flat.contains("RandomState") || flat.contains("hash::random") || flat.contains("DefaultHasher") { return Err("operating-system randomness") }
            if seg.len() >= 2 && matches!(seg[1], "error" | "f32" | "f64" | "num" | "ascii" | "collections" | "panic" | "panicking" | "rt") { return Ok(()) }
            if path.starts_with('<') { return Ok(()) }
            Err("operating-system facing part of the standard library")
        }
        _ => Err("code outside the crate"),
    }
}
struct Mv<'a> { body: &'a smir::Body, calls: Vec<(String, String, rustc_public::ty::Span)>, bad: Vec<(String, rustc_public::ty::Span)>, ncalls: u64, nty: u64 }
impl<'a> MirVisitor for Mv<'a> {
    fn visit_terminator(&mut self, t: &smir::Terminator, l: Location) {
        match &t.kind {
            TerminatorKind::Call { func, .. } => {
                self.ncalls += 1;
                if let Ok(ft) = func.ty(self.body.locals()) {
                    if let Some(RigidTy::FnDef(d, a)) = rigid(ft) {
                        let k = d.krate();
                        if !k.is_local { self.calls.push((k.name.clone(), d.name(), t.source_info.span)) }
                        // the implementation behind a trait call on a known type
                        if let Ok(i) = rustc_public::mir::mono::Instance::resolve(d, &a) { let k = i.def.krate(); if !k.is_local { self.calls.push((k.name.clone(), i.def.name(), t.source_info.span)) } }
                    }
                }
            }
            TerminatorKind::InlineAsm { .. } => self.bad.push(("inline assembly".into(), t.source_info.span)),
            _ => {}
        }
        self.super_terminator(t, l)
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        if let Rvalue::ThreadLocalRef(_) = r { self.bad.push(("thread-local state".into(), self.body.span)) }
        self.super_rvalue(r, l)
    }
    fn visit_local_decl(&mut self, _l: smir::Local, d: &smir::LocalDecl) {
        self.nty += 1;
        if let Some(n) = shared_type(d.ty) { self.bad.push((format!("value of type {}", n), d.span)) }
    }
}
fn shared_type(t: rustc_public::ty::Ty) -> Option<String> {
    let mut todo = vec![t];
    let mut n = 0;
    while let Some(t) = todo.pop() {
        n += 1;
        if n > 200 { break }
        match rigid(t) {
            Some(RigidTy::Adt(d, a)) => {
                let nm = d.name();
                for p in ["core::cell::", "std::cell::", "std::sync::", "core::sync::", "alloc::sync::", "alloc::rc::", "std::rc::", "std::thread::", "std::fs::", "std::net::", "std::io::", "std::process::", "std::time::"] { if nm.starts_with(p) { return Some(nm) } }
                for g in &a.0 { if let rustc_public::ty::GenericArgKind::Type(t) = g { todo.push(*t) } }
            }
            Some(RigidTy::Ref(_, t, _)) | Some(RigidTy::RawPtr(t, _)) | Some(RigidTy::Slice(t)) | Some(RigidTy::Array(t, _)) => todo.push(t),
            Some(RigidTy::Tuple(ts)) => todo.extend(ts),
            _ => {}
        }
    }
    None
}
pub fn job_effects(tcx: TyCtxt<'_>) -> Out {
    let mut o = Out::new();
    let mut v = Hv { tcx, owner: CRATE_DEF_ID, found: vec![], bodies: 0, exprs: 0, blocks: 0 };
    tcx.hir_walk_toplevel_module(&mut v);
    for (k, func, file, line) in v.found.drain(..) { o.find("C14", &k, &func, &file, &format!("{} at line {}", k, line)) }
    o.count("function_bodies_hir", v.bodies as i128);
    o.count("expressions", v.exprs as i128);
    o.count("blocks", v.blocks as i128);
    // field types of the crate's own types
    let mut fields = 0;
    for id in tcx.hir_crate_items(()).definitions() {
        if !matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union) { continue }
        let ad = tcx.adt_def(id);
        for f in ad.all_fields() {
            fields += 1;
            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
            let s = rustc_public::rustc_internal::stable(t);
            if let Some(n) = shared_type(s) { o.find("C14", "type with shared mutability", &tcx.def_path_str(id), "", &format!("field {} contains {}", f.name, n)) }
        }
    }
    o.count("type_fields", fields);
    let mut callees = BTreeSet::new();
    let mut crates = BTreeSet::new();
    for it in rustc_public::all_local_items() {
        let Some(body) = it.body() else { continue };
        let mut m = Mv { body: &body, calls: vec![], bad: vec![], ncalls: 0, nty: 0 };
        m.visit_body(&body);
        o.count("mir_bodies", 1);
        o.count("call_sites", m.ncalls as i128);
        o.count("typed_locals", m.nty as i128);
        let fname = it.name();
        let file = body.span.get_filename();
        for (k, sp) in m.bad { o.find("C14", &k, &fname, &file, &format!("{} at line {}", k, sp.get_lines().start_line)) }
        for (k, p, sp) in m.calls {
            callees.insert(p.clone());
            crates.insert(k.clone());
            if let Err(why) = allowed(&k, &p) {
                let l = sp.get_lines();
                o.find("C14", &format!("{}: {}", why, p), &fname, &file, &format!("call to {} at {}:{}", p, sp.get_filename(), l.start_line));
            }
        }
    }
    for s in rustc_public::local_crate().statics() {
        o.count("statics", 1);
        let _ = s;
    }
    o.count("distinct_external_callees", callees.len() as i128);
    o.notes.push(("external_callees".into(), J::strs(&callees)));
    o.notes.push(("crates_called".into(), J::strs(&crates)));
    // self-test of the allowlist: it must refuse these
    for (k, p) in [("std", "std::io::_print"), ("std", "std::fs::read"), ("std", "std::env::var"), ("std", "std::thread::spawn"), ("core", "core::cell::Cell::<T>::set"), ("std", "std::time::Instant::now"), ("rand", "rand::random"), ("core", "core::sync::atomic::AtomicUsize::fetch_add")] {
        if allowed(k, p).is_ok() { o.errors.push(format!("allowlist self-test: {} not refused", p)) }
        o.count("rule_self_tests", 1);
    }
    o
}

fn const_value(tcx: TyCtxt<'_>, id: rustc_span::def_id::DefId) -> Option<Result<u128, String>> {
    let v = tcx.const_eval_poly(id).ok()?;
    let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
    if let Some(s) = v.try_to_scalar_int() { return Some(Ok(s.to_bits_unchecked())) }
    if t.is_ref() { if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) { return Some(Err(String::from_utf8_lossy(b).to_string())) } }
    None
}
pub fn job_consts<'tcx>(tcx: TyCtxt<'tcx>, p: &Params) -> Out {
    let mut o = Out::new();
    let file = "src/api.rs";
    let hps = p.hps;
    let root = tcx.module_children_local(CRATE_DEF_ID);
    let find = |n: &str, ns: &dyn Fn(&Res<rustc_hir::def_id::DefId>) -> bool| root.iter().find(|c| c.ident.name.as_str() == n && c.vis.is_public() && { let r = c.res.expect_non_local::<rustc_hir::HirId>(); match r { Res::Def(k, d) => ns(&Res::Def(k, d)), _ => false } }).and_then(|c| c.res.opt_def_id());
    let mut seen = 0;
    for (n, want) in [("CRYPTO_PUBLICKEYBYTES", p.pk()), ("CRYPTO_SECRETKEYBYTES", p.sk()), ("CRYPTO_CIPHERTEXTBYTES", p.ct()), ("CRYPTO_BYTES", 32)] {
        o.count("published_constants", 1);
        match find(n, &|r| matches!(r, Res::Def(DefKind::Const { .. }, _))) {
            None => o.find("C15", &format!("{} is not published", n), "crate root", "src/lib.rs", &format!("no public constant {} at the crate root", n)),
            Some(d) => match const_value(tcx, d) { Some(Ok(v)) => { seen += 1; if v != want as u128 { o.find("C15", &format!("{} differs from the parameter set", n), n, file, &format!("{} is {} but {} prescribes {}", n, v, p.name, want)) } } _ => o.errors.push(format!("cannot evaluate {}", n)) },
        }
    }
    o.count("published_constants", 1);
    match find("CRYPTO_ALGNAME", &|r| matches!(r, Res::Def(DefKind::Const { .. }, _))) {
        None => o.find("C15", "CRYPTO_ALGNAME is not published", "crate root", "src/lib.rs", "no public constant CRYPTO_ALGNAME at the crate root"),
        Some(d) => match const_value(tcx, d) { Some(Err(s)) => { seen += 1; if s != p.name { o.find("C15", "CRYPTO_ALGNAME differs from the parameter set", "CRYPTO_ALGNAME", file, &format!("algorithm name is {:?} in the {} configuration", s, p.name)) } } _ => o.errors.push("cannot evaluate CRYPTO_ALGNAME".into()) },
    }
    // API signatures
    let arr = |t: ty::Ty<'tcx>| -> Option<(u64, bool)> { if let ty::Ref(_, t, m) = t.kind() { if let ty::Array(e, n) = t.kind() { if *e == tcx.types.u8 { return n.try_to_target_usize(tcx).map(|n| (n, m.is_mut())) } } } None };
    for f in ["crypto_kem_keypair", "crypto_kem_enc", "crypto_kem_dec"] {
        let (shape, sizes) = crate::checks::api_shape(f, p);
        match find(f, &|r| matches!(r, Res::Def(DefKind::Fn, _))) {
            None => o.find("C15", &format!("{} is not published", f), "crate root", "src/lib.rs", "API function missing at the crate root"),
            Some(d) => {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                for (i, n) in sizes.iter().enumerate() {
                    o.count("api_buffers", 1);
                    let got = sig.inputs().get(i).and_then(|t| arr(tcx.normalize_erasing_regions(ty::TypingEnv::post_analysis(tcx, d), ty::Unnormalized::new_wip(*t))));
                    if got != Some((*n as u64, shape[i].1)) { o.find("C15", &format!("{} argument {}", f, shape[i].0), f, "src/kem.rs", &format!("argument {} must be a reference to exactly {} bytes ({}), found {:?}", shape[i].0, n, if shape[i].1 { "output" } else { "input" }, got)) }
                }
                if sig.inputs().len() != shape.len() { o.find("C15", &format!("{} arity", f), f, "src/kem.rs", "number of arguments changed") }
            }
        }
    }
    for n in ["AesState", "RNGState"] { o.count("published_types", 1); if find(n, &|r| matches!(r, Res::Def(DefKind::Struct | DefKind::Trait, _))).is_none() { o.find("C15", &format!("{} is not published", n), "crate root", "src/lib.rs", "type missing at the crate root") } }
    // internal parameters, wherever they are defined, by name
    let want: Vec<(&str, usize)> = vec![
        ("NTRU_N", p.n), ("NTRU_LOGQ", p.logq), ("NTRU_Q", p.q()), ("NTRU_WEIGHT", p.weight()), ("NTRU_SAMPLE_IID_BYTES", p.iid()), ("NTRU_SAMPLE_FT_BYTES", p.ft()),
        ("NTRU_SAMPLE_FG_BYTES", p.seed()), ("NTRU_SAMPLE_RM_BYTES", p.seed()), ("NTRU_PRFKEYBYTES", 32), ("NTRU_SHAREDKEYBYTES", 32), ("NTRU_PACK_DEG", p.n - 1), ("NTRU_PACK_TRINARY_BYTES", p.s3()),
        ("NTRU_OWCPA_MSGBYTES", 2 * p.s3()), ("NTRU_OWCPA_BYTES", p.pk()), ("NTRU_CIPHERTEXTBYTES", p.ct()), ("NTRU_OWCPA_SECRETKEYBYTES", p.sk() - 32), ("NTRU_OWCPA_PUBLICKEYBYTES", p.pk()),
    ];
    let mut found = 0;
    for id in tcx.hir_crate_items(()).definitions() {
        if !matches!(tcx.def_kind(id), DefKind::Const { .. }) { continue }
        let n = tcx.item_name(id.to_def_id()).to_string();
        if let Some((_, w)) = want.iter().find(|x| x.0 == n) {
            if let Some(Ok(v)) = const_value(tcx, id.to_def_id()) { found += 1; if v != *w as u128 && !(n == "NTRU_WEIGHT" && !hps) { o.find("C15", &format!("{} differs from the parameter set", n), &n, "src/params.rs", &format!("{} is {} but {} prescribes {}", n, v, p.name, w)) } }
        }
    }
    o.count("constants_evaluated", seen + found);
    o.count("internal_parameters", found);
    o
}

/// Calls of methods of the random-source trait on a source of unknown type.
struct Rv<'a> { body: &'a smir::Body, calls: Vec<(String, rustc_public::ty::Span)>, ncalls: u64 }
impl<'a> MirVisitor for Rv<'a> {
    fn visit_terminator(&mut self, t: &smir::Terminator, l: Location) {
        if let TerminatorKind::Call { func, .. } = &t.kind {
            self.ncalls += 1;
            if let Ok(ft) = func.ty(self.body.locals()) {
                if let Some(RigidTy::FnDef(d, a)) = rigid(ft) {
                    let n = d.name();
                    let unknown = match a.0.first() { Some(rustc_public::ty::GenericArgKind::Type(s)) => unknown_source(*s), _ => false };
                    if n.contains("RNGState::") && unknown { self.calls.push((n, t.source_info.span)) }
                }
            }
        }
        self.super_terminator(t, l)
    }
}
fn unknown_source(t: rustc_public::ty::Ty) -> bool {
    match t.kind() {
        rustc_public::ty::TyKind::Param(_) => true,
        rustc_public::ty::TyKind::RigidTy(RigidTy::Dynamic(..)) => true,
        rustc_public::ty::TyKind::RigidTy(RigidTy::Ref(_, t, _)) => unknown_source(t),
        _ => false,
    }
}
/// What the API calls demand of a random source and which of its operations they use (C20).
pub fn job_source(tcx: TyCtxt<'_>) -> Out {
    let mut o = Out::new();
    let root = tcx.module_children_local(CRATE_DEF_ID);
    let find = |n: &str| root.iter().find(|c| c.ident.name.as_str() == n && c.vis.is_public()).and_then(|c| c.res.opt_def_id());
    let Some(src) = find("RNGState") else { o.errors.push("anchor missing: trait RNGState".into()); return o };
    let sm = tcx.sess.source_map();
    let place = |d: rustc_span::def_id::DefId| sm.lookup_char_pos(tcx.def_span(d).lo()).file.name.prefer_local_unconditionally().to_string();
    let li = tcx.lang_items();
    let free = |d: rustc_span::def_id::DefId| d == src || [li.sized_trait(), li.meta_sized_trait(), li.pointee_sized_trait()].contains(&Some(d));
    // what the interface asks of an implementation
    let mut provided = BTreeSet::new();
    for i in tcx.associated_items(src).in_definition_order() {
        let n = i.name().to_string();
        o.count("interface_items", 1);
        if i.defaultness(tcx).has_value() && n != "randombytes_init" { provided.insert(n); continue }
        if !["randombytes", "randombytes_init"].contains(&n.as_str()) { o.find("C20", &format!("interface requires {}", n), "RNGState", &place(src), &format!("every random source must also provide {}", n)) }
    }
    let mut bounds = |o: &mut Out, d: rustc_span::def_id::DefId, who: &str| {
        for (c, _) in tcx.clauses_of(d).instantiate_identity(tcx).into_iter() {
            let c = c.skip_norm_wip();
            o.count("bounds", 1);
            let bad = match c.kind().skip_binder() {
                ty::ClauseKind::Trait(t) => (!free(t.def_id())).then(|| tcx.def_path_str(t.def_id())),
                ty::ClauseKind::TypeOutlives(t) => t.1.is_static().then(|| "'static".to_string()),
                ty::ClauseKind::RegionOutlives(_) | ty::ClauseKind::WellFormed(_) => None,
                c => Some(format!("{:?}", c)),
            };
            if let Some(b) = bad { o.find("C20", &format!("{} requires {}", who, b), who, &place(d), &format!("a random source must also satisfy {}", b)) }
        }
    };
    bounds(&mut o, src, "RNGState");
    for f in ["crypto_kem_keypair", "crypto_kem_enc"] {
        let Some(d) = find(f) else { o.errors.push(format!("anchor missing: {}", f)); continue };
        bounds(&mut o, d, f);
        o.count("entry_points", 1);
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        let ok = sig.inputs().iter().any(|t| match t.kind() {
            ty::Ref(_, t, m) if m.is_mut() => match t.kind() { ty::Param(_) => true, ty::Dynamic(p, _) => p.principal_def_id() == Some(src) && p.auto_traits().next().is_none(), _ => false },
            _ => false,
        });
        if !ok { o.find("C20", "random source of a fixed kind", f, &place(d), "no parameter accepts an arbitrary random source by mutable reference") }
    }
    for it in rustc_public::all_local_items() {
        let Some(body) = it.body() else { continue };
        let mut m = Rv { body: &body, calls: vec![], ncalls: 0 };
        m.visit_body(&body);
        o.count("mir_bodies", 1);
        o.count("call_sites", m.ncalls as i128);
        let fname = it.name();
        for (n, sp) in m.calls {
            let base = n.rsplit("::").next().unwrap_or("").to_string();
            o.count("source_operations", 1);
            // a source that forwards to another one does the same as it is asked to do
            let own = fname.rsplit("::").next().unwrap_or("");
            if base != "randombytes" && !provided.contains(&base) && !(own == base && fname.contains("RNGState")) { o.find("C20", &format!("operation {} on the caller's source", base), &fname, &body.span.get_filename(), &format!("{} at line {}", n, sp.get_lines().start_line)) }
        }
    }
    if !o.counts.iter().any(|c| c.0 == "source_operations") { o.errors.push("no request to a random source found".into()) }
    o
}
/// What the compiler guarantees about values of the generator's state type (C19).
pub fn job_types(tcx: TyCtxt<'_>) -> Out {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let mut o = Out::new();
    let root = tcx.module_children_local(CRATE_DEF_ID);
    let Some(d) = root.iter().find(|c| c.ident.name.as_str() == "AesState" && c.vis.is_public()).and_then(|c| c.res.opt_def_id()) else { o.errors.push("anchor missing: type AesState".into()); return o };
    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
    let at = tcx.sess.source_map().lookup_char_pos(tcx.def_span(d).lo()).file.name.prefer_local_unconditionally().to_string();
    let (icx, env) = tcx.infer_ctxt().build_with_typing_env(ty::TypingEnv::fully_monomorphized());
    let holds = |tr: rustc_span::def_id::DefId, t: ty::Ty<'_>| { let t = unsafe { std::mem::transmute::<ty::Ty<'_>, ty::Ty<'_>>(t) }; icx.type_implements_trait(tr, [t], env).must_apply_modulo_regions() };
    let li = tcx.lang_items();
    let (Some(send), Some(sync), Some(copy), Some(unpin)) = (tcx.get_diagnostic_item(rustc_span::sym::Send), li.sync_trait(), li.copy_trait(), li.unpin_trait()) else { o.errors.push("marker traits not found".into()); return o };
    if !tcx.generics_of(d).is_empty() { o.find("C19", "state type with parameters", "AesState", &at, "the state type has generic or lifetime parameters") }
    for (what, tr) in [("moved to another thread", send), ("shared with another thread", sync), ("moved after use", unpin)] {
        o.count("type_guarantees", 1);
        if !holds(tr, t) { o.find("C19", &format!("state cannot be {}", what), "AesState", &at, &format!("a field prevents generator states from being {}", what)) }
    }
    o.count("type_guarantees", 1);
    if holds(copy, t) { o.find("C19", "state is duplicated implicitly", "AesState", &at, "generator states are copied on every by-value use, so the same random bytes can be produced twice") }
    // the query itself must tell both cases apart
    let raw = ty::Ty::new_imm_ptr(tcx, tcx.types.u8);
    if holds(send, raw) || holds(sync, raw) || !holds(copy, tcx.types.u8) || !holds(send, tcx.types.u8) { o.errors.push("self-test of the marker-trait query failed".into()) }
    o.count("rule_self_tests", 4);
    o
}

/// Library functions whose result depends on the byte order or word size of the machine.
fn machine_dependent(name: &str, args: &rustc_public::ty::GenericArgs) -> Option<&'static str> {
    let base = name.rsplit("::").next().unwrap_or("");
    let word = name.contains("<impl usize>") || name.contains("<impl isize>");
    let num = name.contains("::num::");
    if matches!(base, "to_ne_bytes" | "from_ne_bytes") || (num && matches!(base, "to_be" | "to_le" | "from_be" | "from_le")) { return Some("byte order of the machine") }
    if name.contains("__is_feature_detected") || name.starts_with("std_detect::") { return Some("instruction set of the machine") }
    if name.contains("ptr::") && matches!(base, "addr" | "expose_provenance" | "align_offset" | "is_aligned" | "is_aligned_to") || matches!(base, "align_to" | "align_to_mut") { return Some("addresses of the machine") }
    if word && matches!(base, "to_be_bytes" | "to_le_bytes" | "from_be_bytes" | "from_le_bytes" | "leading_zeros" | "leading_ones" | "count_zeros" | "rotate_left" | "rotate_right" | "swap_bytes" | "reverse_bits") { return Some("word size of the machine") }
    if name.contains("mem::") && matches!(base, "size_of" | "align_of" | "size_of_val" | "align_of_val") {
        let mut todo: Vec<rustc_public::ty::Ty> = args.0.iter().filter_map(|a| match a { rustc_public::ty::GenericArgKind::Type(t) => Some(*t), _ => None }).collect();
        while let Some(t) = todo.pop() {
            match rigid(t) {
                Some(RigidTy::Uint(rustc_public::ty::UintTy::Usize)) | Some(RigidTy::Int(rustc_public::ty::IntTy::Isize)) | Some(RigidTy::Ref(..)) | Some(RigidTy::RawPtr(..)) | Some(RigidTy::FnPtr(_)) => return Some("word size of the machine"),
                Some(RigidTy::Array(t, _)) | Some(RigidTy::Slice(t)) => todo.push(t),
                Some(RigidTy::Tuple(ts)) => todo.extend(ts),
                Some(RigidTy::Uint(_)) | Some(RigidTy::Int(_)) | Some(RigidTy::Bool) => if base.starts_with("align") { return Some("alignment rules of the machine") },
                _ => {}
            }
        }
    }
    None
}
/// Widths of the scalars a value of the type consists of (pointers count as one width of their own).
fn widths(t: rustc_public::ty::Ty, out: &mut std::collections::BTreeSet<u32>, depth: u32) {
    use rustc_public::ty::{AdtKind, FloatTy, IntTy, UintTy};
    if depth > 8 { out.insert(250); return }
    match rigid(t) {
        Some(RigidTy::Bool) => { out.insert(1); }
        Some(RigidTy::Char) => { out.insert(4); }
        Some(RigidTy::Int(i)) => { out.insert(match i { IntTy::I8 => 1, IntTy::I16 => 2, IntTy::I32 => 4, IntTy::I64 => 8, IntTy::I128 => 16, IntTy::Isize => 100 }); }
        Some(RigidTy::Uint(i)) => { out.insert(match i { UintTy::U8 => 1, UintTy::U16 => 2, UintTy::U32 => 4, UintTy::U64 => 8, UintTy::U128 => 16, UintTy::Usize => 100 }); }
        Some(RigidTy::Float(f)) => { out.insert(match f { FloatTy::F16 => 2, FloatTy::F32 => 4, FloatTy::F64 => 8, FloatTy::F128 => 16 }); }
        Some(RigidTy::Array(t, _)) | Some(RigidTy::Slice(t)) => widths(t, out, depth + 1),
        Some(RigidTy::Tuple(ts)) => for t in ts { widths(t, out, depth + 1) },
        Some(RigidTy::Str) => { out.insert(1); }
        Some(RigidTy::Ref(..)) | Some(RigidTy::RawPtr(..)) | Some(RigidTy::FnPtr(..)) => { out.insert(200); }
        Some(RigidTy::Adt(d, a)) if d.kind() != AdtKind::Enum => for v in d.variants() { for f in v.fields() { widths(f.ty_with_args(&a), out, depth + 1) } },
        Some(RigidTy::FnDef(..)) | Some(RigidTy::Never) => {}
        _ => { out.insert(250); }
    }
}
fn width_set(t: rustc_public::ty::Ty) -> std::collections::BTreeSet<u32> { let mut s = Default::default(); widths(t, &mut s, 0); s }
/// Whether numbers of one width would be seen as numbers of another.
fn reinterpreted(a: rustc_public::ty::Ty, b: rustc_public::ty::Ty) -> bool {
    let (x, y) = (width_set(a), width_set(b));
    let number = |s: &std::collections::BTreeSet<u32>| !s.is_empty() && s.iter().all(|w| *w <= 100);
    number(&x) && number(&y) && x != y
}
struct Pv<'a> { body: &'a smir::Body, bad: Vec<(String, &'static str, rustc_public::ty::Span)>, lz: Vec<(usize, String, rustc_public::ty::Span)>, ncalls: u64 }
impl<'a> Pv<'a> {
    /// Whether native-order conversions cannot show the byte order: the bytes are all alike, or words are
    /// only combined bit by bit and converted back.
    fn order_unseen(&self) -> bool {
        let stmts: Vec<(&smir::Place, &Rvalue)> = self.body.blocks.iter().flat_map(|b| &b.statements).filter_map(|s| match &s.kind { smir::StatementKind::Assign(p, r) => Some((p, r)), _ => None }).collect();
        let (mut from, mut to, mut other) = (0, 0, false);
        for b in &self.body.blocks {
            let TerminatorKind::Call { func, args, .. } = &b.terminator.kind else { continue };
            let Ok(ft) = func.ty(self.body.locals()) else { continue };
            let Some(RigidTy::FnDef(d, _)) = rigid(ft) else { continue };
            let n = d.name();
            match n.rsplit("::").next().unwrap_or("") {
                "from_ne_bytes" => {
                    let alike = matches!(args.first(), Some(smir::Operand::Copy(p) | smir::Operand::Move(p)) if p.projection.is_empty() && { let w: Vec<_> = stmts.iter().filter(|(q, _)| q.local == p.local).collect(); w.len() == 1 && matches!(w[0].1, Rvalue::Repeat(..)) });
                    if !alike { from += 1 }
                }
                "to_ne_bytes" => to += 1,
                x => if n.contains("::num::") && !n.contains("<impl u8>") && !n.contains("<impl usize>") && ["swap", "rotate", "reverse", "shl", "shr", "_be", "_le", "add", "mul"].iter().any(|y| x.contains(y)) { other = true },
            }
        }
        if from == 0 && to == 0 { return true }
        let arith = stmts.iter().any(|(_, r)| match r {
            Rvalue::BinaryOp(op, a, _) | Rvalue::CheckedBinaryOp(op, a, _) => matches!(op, smir::BinOp::Shl | smir::BinOp::Shr | smir::BinOp::ShlUnchecked | smir::BinOp::ShrUnchecked | smir::BinOp::Add | smir::BinOp::AddUnchecked | smir::BinOp::Mul | smir::BinOp::MulUnchecked | smir::BinOp::Div | smir::BinOp::Rem) && a.ty(self.body.locals()).map(|t| width_set(t).iter().any(|w| matches!(*w, 2 | 4 | 8 | 16))).unwrap_or(true),
            _ => false,
        });
        from > 0 && to > 0 && !other && !arith
    }
    /// Whether every count of leading zeros is subtracted from something.
    fn zeros_subtracted(&self) -> bool {
        let stmts: Vec<(&smir::Place, &Rvalue)> = self.body.blocks.iter().flat_map(|b| &b.statements).filter_map(|s| match &s.kind { smir::StatementKind::Assign(p, r) => Some((p, r)), _ => None }).collect();
        let of = |o: &smir::Operand, l: &Vec<usize>| matches!(o, smir::Operand::Copy(p) | smir::Operand::Move(p) if p.projection.is_empty() && l.contains(&p.local));
        self.lz.iter().all(|(d, ..)| {
            let mut l = vec![*d];
            let mut i = 0;
            while i < l.len() {
                for (p, r) in &stmts { if let Rvalue::Use(o, ..) = r { if p.projection.is_empty() && of(o, &vec![l[i]]) && !l.contains(&p.local) { l.push(p.local) } } }
                i += 1;
            }
            stmts.iter().any(|(_, r)| matches!(r, Rvalue::BinaryOp(smir::BinOp::Sub, _, y) | Rvalue::CheckedBinaryOp(smir::BinOp::Sub, _, y) if of(y, &l)))
        })
    }
}
impl<'a> MirVisitor for Pv<'a> {
    fn visit_terminator(&mut self, t: &smir::Terminator, l: Location) {
        if let TerminatorKind::Call { func, destination, .. } = &t.kind {
            self.ncalls += 1;
            if let Ok(ft) = func.ty(self.body.locals()) { if let Some(RigidTy::FnDef(d, a)) = rigid(ft) { if let Some(w) = machine_dependent(&d.name(), &a) {
                if d.name().ends_with("leading_zeros") && destination.projection.is_empty() { self.lz.push((destination.local, d.name(), t.source_info.span)) } else { self.bad.push((d.name(), w, t.source_info.span)) }
            } } }
        }
        self.super_terminator(t, l)
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        if let Rvalue::Cast(k, o, to) = r {
            if let Ok(from) = o.ty(self.body.locals()) {
                let w = match k {
                    smir::CastKind::Transmute => reinterpreted(from, *to).then_some("byte order of the machine"),
                    smir::CastKind::PtrToPtr => match (rigid(from), rigid(*to)) {
                        (Some(RigidTy::RawPtr(a, _)), Some(RigidTy::RawPtr(b, _))) => reinterpreted(a, b).then_some("byte order of the machine"),
                        _ => None,
                    },
                    smir::CastKind::PointerExposeAddress => Some("addresses of the machine"),
                    _ => None,
                };
                if let Some(w) = w { self.bad.push(("a cast".into(), w, l.span())) }
            }
        }
        self.super_rvalue(r, l)
    }
    fn visit_place(&mut self, p: &smir::Place, c: smir::visit::PlaceContext, l: Location) {
        for i in 0..p.projection.len() {
            if !matches!(p.projection[i], smir::ProjectionElem::Field(..)) { continue }
            let base = smir::Place { local: p.local, projection: p.projection[..i].to_vec() };
            let Ok(t) = base.ty(self.body.locals()) else { continue };
            let Some(RigidTy::Adt(d, a)) = rigid(t) else { continue };
            if d.kind() != rustc_public::ty::AdtKind::Union { continue }
            let fs: Vec<rustc_public::ty::Ty> = d.variants().iter().flat_map(|v| v.fields()).map(|f| f.ty_with_args(&a)).collect();
            if fs.iter().any(|x| fs.iter().any(|y| reinterpreted(*x, *y))) { self.bad.push(("a union".into(), "byte order of the machine", l.span())) }
        }
        self.super_place(p, c, l)
    }
}
const BITS: &str = "number of bits of a pointer-sized word";
/// Uses of the number of bits of a pointer-sized word.
struct Bv<'tcx> { tcx: TyCtxt<'tcx>, found: Vec<(String, rustc_span::Span)>, paths: u64 }
impl<'tcx> Visitor<'tcx> for Bv<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_qpath(&mut self, q: &'tcx hir::QPath<'tcx>, id: hir::HirId, sp: rustc_span::Span) {
        self.paths += 1;
        if let hir::QPath::TypeRelative(t, seg) = q {
            if let hir::TyKind::Path(hir::QPath::Resolved(_, p)) = &t.kind {
                if let Res::PrimTy(hir::PrimTy::Uint(ty::UintTy::Usize) | hir::PrimTy::Int(ty::IntTy::Isize)) = p.res { if seg.ident.as_str() == "BITS" { self.found.push((BITS.into(), sp)) } }
            }
        }
        if let hir::QPath::Resolved(_, p) = q {
            if let Res::Def(_, did) = p.res {
                let n = self.tcx.def_path_str(did);
                if n.contains("env::consts::") { self.found.push(("name of the machine".into(), sp)) }
                if matches!(n.rsplit("::").next(), Some("c_char" | "c_long" | "c_ulong")) && !did.is_local() { self.found.push(("word size of the machine".into(), sp)) }
            }
        }
        intravisit::walk_qpath(self, q, id);
    }
}
/// Configuration predicates of a source text that select code by target.
fn target_predicates(src: &str) -> Vec<(String, usize)> {
    use rustc_lexer::TokenKind as K;
    let mut pos = 0;
    let mut toks: Vec<(K, &str, usize)> = vec![];
    for t in rustc_lexer::tokenize(src, rustc_lexer::FrontmatterAllowed::No) {
        let s = &src[pos..pos + t.len as usize];
        if !matches!(t.kind, K::Whitespace | K::LineComment { .. } | K::BlockComment { .. }) { toks.push((t.kind, s, pos)) }
        pos += t.len as usize;
    }
    let mut out = vec![];
    let mut i = 0;
    while i < toks.len() {
        if toks[i].0 == K::Ident && matches!(toks[i].1, "cfg" | "cfg_attr") {
            let mut j = i + 1;
            if j < toks.len() && toks[j].0 == K::Bang { j += 1 }
            if j < toks.len() && toks[j].0 == K::OpenParen {
                let mut depth = 0;
                while j < toks.len() {
                    match toks[j].0 { K::OpenParen => depth += 1, K::CloseParen => { depth -= 1; if depth == 0 { break } } K::Ident if toks[j].1.starts_with("target_") || matches!(toks[j].1, "unix" | "windows") => out.push((toks[j].1.to_string(), src[..toks[j].2].matches('\n').count() + 1)), _ => {} }
                    j += 1;
                }
            }
        }
        i += 1;
    }
    out
}
/// Dependence on the machine or the build profile (C21).
pub fn job_portable(tcx: TyCtxt<'_>) -> Out {
    let mut o = Out::new();
    let sm = tcx.sess.source_map();
    let place = |sp: rustc_span::Span| { let l = sm.lookup_char_pos(sp.lo()); (l.file.name.prefer_local_unconditionally().to_string(), l.line) };
    let mut mir = vec![];
    let mut b = Bv { tcx, found: vec![], paths: 0 };
    tcx.hir_walk_toplevel_module(&mut b);
    o.count("paths", b.paths as i128);
    let mut bits: Vec<(String, String, usize)> = b.found.into_iter().map(|(k, sp)| { let (f, l) = place(sp); (k, f, l) }).collect();
    for it in rustc_public::all_local_items() {
        let Some(body) = it.body() else { continue };
        let mut m = Pv { body: &body, bad: vec![], lz: vec![], ncalls: 0 };
        m.visit_body(&body);
        // the number of bits minus the leading zeros is the length of the number on any machine
        let lines = body.span.get_lines();
        let file = body.span.get_filename();
        let inside = |x: &(String, String, usize)| x.0 == BITS && x.1 == file && x.2 >= lines.start_line && x.2 <= lines.end_line;
        if !m.lz.is_empty() && m.lz.len() == bits.iter().filter(|x| inside(x)).count() && m.zeros_subtracted() { bits.retain(|x| !inside(x)); m.lz.clear() }
        if m.bad.iter().any(|x| x.0.ends_with("_ne_bytes")) && m.order_unseen() { m.bad.retain(|x| !x.0.ends_with("_ne_bytes")) }
        for (_, n, sp) in std::mem::take(&mut m.lz) { m.bad.push((n, "word size of the machine", sp)) }
        o.count("mir_bodies", 1);
        o.count("call_sites", m.ncalls as i128);
        let fname = it.name();
        for (n, w, sp) in m.bad { o.find("C21", &format!("{} through {}", w, n), &fname, &body.span.get_filename(), &format!("{} at line {}", n, sp.get_lines().start_line)) }
        let mut text = vec![];
        let _ = body.dump(&mut text, &fname);
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        text.hash(&mut h);
        mir.push((fname, h.finish()));
    }
    mir.sort();
    let mut seen = std::collections::BTreeMap::new();
    for (n, h) in mir { let k = seen.entry(n.clone()).and_modify(|x| *x += 1).or_insert(0); o.notes.push((format!("mir:{}#{}", n, k), J::s(&format!("{:016x}", h)))) }
    for (k, f, l) in bits { o.find("C21", &k, "path", &f, &format!("used at line {}", l)) }
    for f in sm.files().iter() {
        let Some(src) = &f.src else { continue };
        let name = f.name.prefer_local_unconditionally().to_string();
        if !name.ends_with(".rs") { continue }
        o.count("source_files", 1);
        for (p, l) in target_predicates(src) { o.find("C21", &format!("code chosen by {}", p), "configuration predicate", &name, &format!("predicate at line {}", l)) }
    }
    // the rules must find these
    let n = target_predicates("#[cfg(all(test, target_endian = \"big\"))] fn f() { if cfg!(target_pointer_width = \"32\") {} } // cfg(unix)").len();
    let none = rustc_public::ty::GenericArgs(vec![]);
    if n != 2 || machine_dependent("core::num::<impl u32>::to_ne_bytes", &none).is_none() || machine_dependent("core::num::<impl usize>::leading_zeros", &none).is_none() || machine_dependent("core::num::<impl u128>::to_be_bytes", &none).is_some() { o.errors.push("rule self-test failed".into()) }
    o.count("rule_self_tests", 5);
    o
}
