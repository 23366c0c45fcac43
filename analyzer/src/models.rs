//! Models of compiler intrinsics and of the external primitives (hash, block cipher, allocator, RNG draw).
use crate::dom::*;
use crate::interp::*;
use crate::lower::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::{GenericArgKind, RigidTy, Ty};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum M {
    Cut,
    Rng,
    Intrinsic,
    Keccak,
    Aes,
    Alloc,
    Panic,
    Virtual,
    External,
}
#[derive(Clone)]
pub enum Disp { Body(Rc<Func>), Range(Rc<Func>), Model(M) }

pub fn basename(n: &str) -> String {
    // strip generic arguments, keep the last path segment
    let mut depth = 0i32;
    let mut s = String::new();
    for c in n.chars() { match c { '<' => depth += 1, '>' => depth -= 1, _ => if depth == 0 { s.push(c) } } }
    s.trim_end_matches("::").rsplit("::").next().unwrap_or("").to_string()
}

impl Interp {
    pub fn dispatch(&mut self, c: u32) -> Disp {
        if let Some(Some(d)) = self.disp.get(c as usize) { return d.clone() }
        let d = self.dispatch0(c);
        if self.disp.len() <= c as usize { self.disp.resize(c as usize + 1, None) }
        self.disp[c as usize] = Some(d.clone());
        d
    }
    fn dispatch0(&mut self, c: u32) -> Disp {
        let ci = &self.lo.callees[c as usize];
        let name = ci.name.clone();
        let base = basename(&name);
        if ci.local {
            for (k, _) in &self.cfg.cuts { if name.ends_with(k.as_str()) { return Disp::Model(M::Cut) } }
            if self.cfg.model_rng && base == "randombytes" && name.contains("RNGState") && (name.contains("AesState as ") || name.contains("AesState>::randombytes") || name.contains("dyn ") || ci.virt.is_some()) { return Disp::Model(M::Rng) }
        }
        if ci.virt.is_some() { return Disp::Model(M::Virtual) }
        if let Some(i) = ci.intrinsic.clone() {
            if known_intrinsic(&i) { return Disp::Model(M::Intrinsic) }
        }
        match ci.krate.as_str() {
            "tiny_keccak" => return Disp::Model(M::Keccak),
            "aes" => return Disp::Model(M::Aes),
            _ => {}
        }
        if ci.krate == "cipher" && matches!(base.as_str(), "new_from_slice" | "encrypt_block" | "encrypt_blocks" | "encrypt_par_blocks") { return Disp::Model(M::Aes) }
        if matches!(ci.krate.as_str(), "alloc" | "std" | "core") && matches!(base.as_str(), "exchange_malloc" | "alloc" | "alloc_zeroed" | "dealloc" | "realloc" | "__rust_alloc" | "__rust_dealloc" | "__rust_realloc" | "__rust_alloc_zeroed" | "box_new" | "box_free" | "__rust_no_alloc_shim_is_unstable_v2" | "alloc_impl" | "alloc_impl_runtime" | "deallocate" | "deallocate_impl" | "deallocate_impl_runtime" | "dealloc_nonnull" | "realloc_nonnull" | "grow_zeroed" | "grow_impl" | "grow_impl_runtime" | "shrink_impl" | "shrink_impl_runtime" | "allocate" | "allocate_zeroed" | "grow" | "shrink") && (name.contains("alloc::alloc") || name.contains("boxed") || name.starts_with("__rust") || name.contains("Global")) { return Disp::Model(M::Alloc) }
        if ci.never { return Disp::Model(M::Panic) }
        let range_next = base == "next" && name.contains("Range") && name.contains("Iterator") && !name.contains("RangeInclusive") && !name.contains("RangeFrom") && ci.krate == "core" && name.contains("ops::Range<");
        match self.lo.body(&mut self.d, c) {
            Some(f) => if range_next { Disp::Range(f) } else { Disp::Body(f) },
            None => Disp::Model(M::External),
        }
    }
    pub fn bytes_at(&mut self, st: &State, p: Val, n: u64) -> Vec<Val> {
        let a = self.deref(p, Val::UNINIT);
        (0..n as i64).map(|i| {
            let x = self.shift(a, i);
            let v = self.read(st, x, 1);
            if v == Val::UNINIT { self.unsup("unknown byte"); let t = self.cfg.secret; self.d.fresh(AVal::top(8, t)) } else { v }
        }).collect()
    }
    fn write_bytes_at(&mut self, st: &mut State, p: Val, vs: &[Val]) {
        let a = self.deref(p, Val::UNINIT);
        for (i, v) in vs.iter().enumerate() { let x = self.shift(a, i as i64); self.write(st, x, 1, *v) }
    }
    pub fn opaque_fn(&mut self, algo: &str, input: &[Val], n: usize) -> Vec<Val> {
        let key = (algo.to_string(), if self.d.sym.is_some() { crate::sym::with(&mut self.d, |s, d| input.iter().map(|v| s.key(d, *v)).collect()) } else { input.iter().map(|v| (v.k as u64 | (v.tab as u64) << 32, v.src)).collect::<Vec<(u64, u64)>>() }, n);
        if let Some(v) = self.ofn.get(&key) { return v.clone() }
        let mut t = 0;
        for v in input { t |= self.d.taint(*v) }
        let all_const = input.iter().all(|v| self.d.is_const(*v).is_some());
        let t = if all_const { 0 } else { t };
        let out: Vec<Val> = (0..n).map(|i| { let v = self.d.fresh(AVal::top(8, t)); crate::sym::name_atom(&mut self.d, v, algo, self.ofn.len(), i); v }).collect();
        self.ofn.insert(key, out.clone());
        let (f, file, line) = self.site();
        self.hashes.push(HashEvent { algo: algo.into(), input: Rc::new(input.to_vec()), out: out.clone(), site: format!("{} ({}:{})", f, file, line) });
        out
    }
    fn elem_size_of_ptr_arg(&mut self, t: Ty) -> u64 { match pointee(t) { Some(p) => self.lo.info(p).size, None => 1 } }

    pub fn model(&mut self, mut st: State, c: u32, av: &[(Addr, TyInfo)], dst: Addr, di: TyInfo, dty: Ty) -> Option<State> {
        let Disp::Model(m) = self.dispatch(c) else { unreachable!() };
        let name = self.lo.callees[c as usize].name.clone();
        let base = basename(&name);
        match m {
            M::Panic => {
                if base == "abort" { self.panic_at("abort", &name); } else { self.panic_at("explicit panic", &format!("call to {}", name)); }
                None
            }
            M::Cut => self.cut(st, c, av, dst, di, dty),
            M::Rng => {
                let p = self.read(&st, av[1].0, 8);
                let lenv = { let a = self.shift(av[1].0, 8); if av[1].1.size == 16 { self.read(&st, a, 8) } else { self.d.cst(64, 0) } };
                let k = st.draws;
                st.draws += 1;
                let n = match self.d.is_const(lenv) { Some(n) => n as u64, None => { self.unsup("random draw of unknown length"); 0 } };
                let (f, file, line) = self.site();
                let src = self.read(&st, av[0].0, 8);
                self.rep.draw_srcs.push(if src.is_ptr() { src.idx() } else { u32::MAX });
                self.rep.draw_dsts.push(if p.is_ptr() { p.idx() } else { u32::MAX });
                self.rep.draws.push((k, n, format!("{} ({}:{})", f, file, line)));
                st.draw_lens.push(n);
                let fail = self.cfg.rng_fail_at == Some(k);
                let lab = if fail { crate::checks::L_UNFILLED } else { *self.cfg.draw_labels.get(k as usize).unwrap_or(&self.cfg.rng_label) };
                let key = k as usize;
                let vs: Vec<Val> = (0..n as usize).map(|i| {
                    if let Some(v) = self.draw_vals.get(&(key, i)) { return *v }
                    let v = self.d.fresh(AVal::top(8, lab));
                    crate::sym::name_atom(&mut self.d, v, "rng", key, i);
                    self.draw_vals.insert((key, i), v);
                    v
                }).collect();
                self.write_bytes_at(&mut st, p, &vs);
                // Result<(), Box<dyn Error>>
                self.write_result(&mut st, dst, dty, fail);
                Some(st)
            }
            M::Keccak => {
                match base.as_str() {
                    "v256" | "v224" | "v384" | "v512" | "v128" => {
                        let algo = format!("{}", short_algo(&name));
                        let v = self.opq(Opaque::Hash(algo, Rc::new(vec![])));
                        self.write(&mut st, dst, 8, v);
                    }
                    "clone" => { let p = self.read(&st, av[0].0, 8); let a = self.deref(p, Val::UNINIT); let v = self.read(&st, a, 8); self.write(&mut st, dst, 8, v) }
                    "update" => {
                        let p = self.read(&st, av[0].0, 8);
                        let a = self.deref(p, Val::UNINIT);
                        let h = self.read(&st, a, 8);
                        let bp = self.read(&st, av[1].0, 8);
                        let la = self.shift(av[1].0, 8);
                        let ln = self.read(&st, la, 8);
                        let n = match self.d.is_const(ln) { Some(n) => n as u64, None => { self.unsup("hash input of unknown length"); if self.d.taint(ln) & self.cfg.secret != 0 { self.ct_at("secret-dependent address", "hash input length depends on secret data") } 0 } };
                        let bs = self.bytes_at(&st, bp, n);
                        let cur = if h.tag() == T_OPQ { self.opaque[h.idx() as usize].clone() } else { Opaque::Unknown };
                        let nh = match cur {
                            Opaque::Hash(al, v) => { let mut v2 = (*v).clone(); v2.extend(bs); self.opq(Opaque::Hash(al, Rc::new(v2))) }
                            _ => { self.unsup("unknown hash state"); Val::opq(0) }
                        };
                        self.write(&mut st, a, 8, nh);
                    }
                    "finalize" | "squeeze" => {
                        let h = if base == "squeeze" { let p = self.read(&st, av[0].0, 8); let a = self.deref(p, Val::UNINIT); self.read(&st, a, 8) } else { self.read(&st, av[0].0, 8) };
                        let bp = self.read(&st, av[1].0, 8);
                        let la = self.shift(av[1].0, 8);
                        let ln = self.read(&st, la, 8);
                        let n = self.d.is_const(ln).unwrap_or(0) as usize;
                        let cur = if h.tag() == T_OPQ { self.opaque[h.idx() as usize].clone() } else { Opaque::Unknown };
                        match cur {
                            Opaque::Hash(al, v) => { let out = self.opaque_fn(&al, &v, n); self.write_bytes_at(&mut st, bp, &out) }
                            _ => self.unsup("unknown hash state"),
                        }
                    }
                    _ => { self.unsup(&format!("unmodelled hash function {}", name)); self.havoc_ret(&mut st, dst, di) }
                }
                Some(st)
            }
            M::Aes => {
                match base.as_str() {
                    "new" | "new_from_slice" => {
                        let p = self.read(&st, av[0].0, 8);
                        let n = if av[0].1.size == 16 { let la = self.shift(av[0].0, 8); let v = self.read(&st, la, 8); self.d.is_const(v).unwrap_or(0) as u64 } else {
                            let t = self.lo.callees[c as usize].arg_tys.get(0).copied();
                            match t { Some(t) => self.elem_size_of_ptr_arg(t), None => 32 }
                        };
                        let k = self.bytes_at(&st, p, n);
                        let algo = self.aes_algo(c);
                        let v = self.opq(Opaque::Aes(algo, Rc::new(k)));
                        if base == "new_from_slice" { self.unsup("new_from_slice") }
                        self.write(&mut st, dst, 8, v);
                    }
                    "encrypt_block" => {
                        let p = self.read(&st, av[0].0, 8);
                        let a = self.deref(p, Val::UNINIT);
                        let h = self.read(&st, a, 8);
                        let bp = self.read(&st, av[1].0, 8);
                        let bs = self.bytes_at(&st, bp, 16);
                        let cur = if h.tag() == T_OPQ { self.opaque[h.idx() as usize].clone() } else { Opaque::Unknown };
                        match cur {
                            Opaque::Aes(al, k) => { let mut inp = (*k).clone(); inp.extend(bs); let out = self.opaque_fn(&al, &inp, 16); self.write_bytes_at(&mut st, bp, &out) }
                            _ => self.unsup("unknown cipher state"),
                        }
                    }
                    "drop" | "drop_in_place" => {}
                    "clone" => { let p = self.read(&st, av[0].0, 8); let a = self.deref(p, Val::UNINIT); let v = self.read(&st, a, 8); self.write(&mut st, dst, 8, v) }
                    _ => { self.unsup(&format!("unmodelled cipher function {}", name)); self.havoc_ret(&mut st, dst, di) }
                }
                Some(st)
            }
            M::Alloc => {
                match base.as_str() {
                    "dealloc" | "dealloc_nonnull" | "__rust_dealloc" | "deallocate" | "deallocate_impl" | "deallocate_impl_runtime" | "box_free" | "__rust_no_alloc_shim_is_unstable_v2" => {}
                    _ => {
                        // sizes: integer arguments and the size field of each Layout; a boolean asks for zeroed memory
                        self.heap_allocs += 1;
                        let tys = self.lo.callees[c as usize].arg_tys.clone();
                        let (mut layouts, mut ints, mut old, mut taint, mut zeroed) = (vec![], vec![], None, 0, base.contains("zeroed"));
                        for (k, (a, i)) in av.iter().enumerate() {
                            if i.size == 16 && i.kind == Kind::Other {
                                let o = tys.get(k).map_or(0, |t| self.lo.field_off(*t, None, 0));
                                let b = self.shift(*a, o as i64);
                                let v = self.read(&st, b, 8);
                                taint |= self.d.taint(v);
                                layouts.push(self.d.is_const(v));
                            } else if i.size == 8 || i.size == 1 {
                                let v = self.read(&st, *a, i.size);
                                if v.is_ptr() { old = Some(v); continue }
                                taint |= self.d.taint(v);
                                if i.size == 8 && matches!(i.kind, Kind::Int { .. }) { ints.push(self.d.is_const(v)) }
                                if i.kind == Kind::Bool { zeroed |= self.d.is_const(v) == Some(1) }
                            }
                        }
                        if taint & self.cfg.secret != 0 { self.ct_at("secret-dependent address", "allocation size depends on secret data") }
                        let resize = base.contains("realloc") || base.contains("grow") || base.contains("shrink");
                        let (before, size) = if !resize { (None, layouts.first().or(ints.first()).copied().flatten()) }
                            else if layouts.len() >= 2 { (layouts[0], layouts[1]) }
                            else if layouts.len() == 1 { (layouts[0], ints.last().copied().flatten()) }
                            else { (ints.first().copied().flatten(), ints.last().copied().flatten()) };
                        let n = match size { Some(n) => n as usize, None => { self.unsup("allocation of unknown size"); 64 } };
                        let id = st.alloc(Alloc::new(n, "heap"));
                        if zeroed { let z = self.d.cst(8, 0); let al = Rc::make_mut(st.allocs[id as usize].as_mut().unwrap()); for i in 0..n { al.vals[i] = z; al.sz[i] = 1 } }
                        if resize {
                            match (old, before) {
                                (Some(p), Some(b)) => { let src = self.deref(p, Val::UNINIT); self.copy(&mut st, Addr::at(id, 0), src, (b as u64).min(n as u64)) }
                                _ => self.unsup("reallocation of unknown memory"),
                            }
                        }
                        if di.size == 8 { self.write(&mut st, dst, 8, Val::ptr(id, 0)) }
                        else if di.size == 16 { self.write(&mut st, dst, 8, Val::ptr(id, 0)); let l = self.d.cst(64, n as u128); let b = self.shift(dst, 8); self.write(&mut st, b, 8, l) }
                    }
                }
                Some(st)
            }
            M::Virtual => {
                let selfa = av[0].0;
                let va = self.shift(selfa, 8);
                let vt = self.read(&st, va, 8);
                self.rep.externals.insert(format!("dyn {}", name));
                let _ = vt;
                self.havoc_ret(&mut st, dst, di);
                Some(st)
            }
            M::External if di.size == 16 && base == "from" && name.contains("boxed::convert") && name.contains("dyn std::error::Error") => {
                // an error object made from a message
                let id = st.alloc(Alloc::new(24, "error"));
                self.write(&mut st, dst, 8, Val::ptr(id, 0));
                let v = self.opq(Opaque::VTable("message".into(), None));
                let b = self.shift(dst, 8);
                self.write(&mut st, b, 8, v);
                Some(st)
            }
            M::External => {
                self.rep.externals.insert(name.clone());
                self.unsup(&format!("call to function without body: {}", name));
                self.havoc_ret(&mut st, dst, di);
                Some(st)
            }
            M::Intrinsic => self.intrinsic(st, c, av, dst, di),
        }
    }
    fn aes_algo(&mut self, c: u32) -> String {
        let n = &self.lo.callees[c as usize].name;
        for a in ["Aes256", "Aes192", "Aes128"] { if n.contains(a) { return a.to_string() } }
        "cipher".into()
    }
    pub fn write_result(&mut self, st: &mut State, dst: Addr, ty: Ty, err: bool) {
        // Result<(), Box<dyn Error>>: variant 0 = Ok, 1 = Err
        let e = self.lo.enum_info(ty);
        if err {
            let id = st.alloc(Alloc::new(16, "error"));
            self.write(st, dst, 8, Val::ptr(id, 0));
            let v = self.opq(Opaque::VTable("rng error".into(), None));
            let b = self.shift(dst, 8);
            self.write(st, b, 8, v);
            self.err_allocs.push(id);
        }
        self.write_discr(st, dst, &e, err as usize);
    }
    pub fn havoc_ret(&mut self, st: &mut State, dst: Addr, di: TyInfo) {
        if di.size == 0 { return }
        if let Kind::Int { w, .. } = di.kind { let t = self.cfg.secret; let v = self.d.fresh(AVal::top(w, t)); self.write(st, dst, di.size, v) }
        else if di.kind == Kind::Bool { let t = self.cfg.secret; let v = self.d.fresh(AVal::urange(8, 0, 1, t)); self.write(st, dst, 1, v) }
    }
    pub fn range_next(&mut self, st: &mut State, c: u32, arg: Addr, dst: Addr, dty: Ty) -> bool {
        // &mut Range<T> -> Option<T>
        let p = self.read(st, arg, 8);
        if !p.is_ptr() || p.tab != 0 { return false }
        let key = c as usize;
        if self.rlay.len() <= key { self.rlay.resize(key + 1, None) }
        let lay = match self.rlay[key] {
            Some(l) => l,
            None => {
                let t = match self.lo.callees[key].arg_tys.get(0).and_then(|t| pointee(*t)) { Some(t) => t, None => return false };
                let et = match rigid(t) { Some(RigidTy::Adt(_, ga)) => match &ga.0[0] { GenericArgKind::Type(t) => *t, _ => return false }, _ => return false };
                let i = self.lo.info(et);
                if !matches!(i.kind, Kind::Int { .. }) { return false }
                let e = self.lo.enum_info(dty);
                if e.niche.is_some() { return false }
                let (so, eo) = (self.lo.field_off(t, None, 0), self.lo.field_off(t, None, 1));
                let vo = self.lo.field_off(dty, Some(1), 0);
                let l = (i.w(), i.signed(), so, eo, vo, e.tag_off, e.tag_w);
                self.rlay[key] = Some(l);
                l
            }
        };
        let (w, s, so, eo, vo, to, tw) = lay;
        let a = self.deref(p, Val::UNINIT);
        let sz = w as u64 / 8;
        let (sa, ea) = (self.shift(a, so as i64), self.shift(a, eo as i64));
        let (x, y) = (self.read(st, sa, sz), self.read(st, ea, sz));
        let (xc, yc) = match (self.d.is_const(x), self.d.is_const(y)) { (Some(a), Some(b)) => (a, b), _ => return false };
        let lt = if s { sext(xc, w) < sext(yc, w) } else { xc < yc };
        let ta = self.shift(dst, to as i64);
        let tag = self.d.cst(tw, lt as u128);
        self.write(st, ta, tw as u64 / 8, tag);
        if lt {
            let n = self.d.cst(w, xc.wrapping_add(1));
            self.write(st, sa, sz, n);
            let va = self.shift(dst, vo as i64);
            self.write(st, va, sz, x);
        }
        true
    }
    fn intrinsic(&mut self, mut st: State, c: u32, av: &[(Addr, TyInfo)], dst: Addr, di: TyInfo) -> Option<State> {
        let n = self.lo.callees[c as usize].intrinsic.clone().unwrap();
        let targs: Vec<Ty> = self.lo.callees[c as usize].inst.map(|i| i.args().0.iter().filter_map(|g| match g { GenericArgKind::Type(t) => Some(*t), _ => None }).collect()).unwrap_or_default();
        let mut xs = vec![];
        for (a, i) in av { xs.push(if matches!(i.size, 1 | 2 | 4 | 8 | 16) { self.read(&st, *a, i.size.min(if i.kind == Kind::Fat { 8 } else { 16 })) } else { Val::UNINIT }) }
        let signed = av.get(0).map(|a| a.1.signed()).unwrap_or(false);
        let tsize = |s: &mut Self, i: usize| targs.get(i).map(|t| s.lo.info(*t).size).unwrap_or(0);
        let mut r: Option<Val> = None;
        match n.as_str() {
            "wrapping_add" | "unchecked_add" => r = Some(self.arith(Op::Add, xs[0], xs[1])),
            "wrapping_sub" | "unchecked_sub" => r = Some(self.arith(Op::Sub, xs[0], xs[1])),
            "wrapping_mul" | "unchecked_mul" => r = Some(self.arith(Op::Mul, xs[0], xs[1])),
            "rotate_left" | "rotate_right" => { let y = self.shift_amount(xs[0], xs[1]); r = Some(self.arith(if n == "rotate_left" { Op::RotL } else { Op::RotR }, xs[0], y)) }
            "bswap" => r = Some(self.arith(Op::Bswap, xs[0], xs[0])),
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" => {
                let op = if n == "ctpop" { Op::Ctpop } else if n.starts_with("ctlz") { Op::Clz } else { Op::Ctz };
                r = Some(self.d.un(op, xs[0]));
            }
            "saturating_add" | "saturating_sub" => {
                let add = n == "saturating_add";
                let w = self.d.av(xs[0]).w;
                let (vop, oop) = match (add, signed) { (true, false) => (Op::Add, Op::AddOvU), (false, false) => (Op::Sub, Op::SubOvU), (true, true) => (Op::Add, Op::AddOvS), (false, true) => (Op::Sub, Op::SubOvS) };
                let v = self.arith(vop, xs[0], xs[1]);
                let o = self.arith(oop, xs[0], xs[1]);
                let lim = if signed {
                    // sign of first operand decides
                    let k = self.d.cst(w, (w - 1) as u128);
                    let s = self.d.bin(Op::ShrU, xs[0], k);
                    let m = self.d.cst(w, smax(w) as u128);
                    self.d.bin(Op::Add, m, s)
                } else { self.d.cst(w, if add { mask(w) } else { 0 }) };
                r = Some(match self.d.is_const(o) { Some(0) => v, Some(_) => lim, None => { let t = self.d.taint(o); self.d.join(v, lim, t) } });
            }
            "exact_div" => { self.divchk(xs[0], xs[1]); r = Some(self.arith(if signed { Op::DivS } else { Op::DivU }, xs[0], xs[1])) }
            "unchecked_div" | "unchecked_rem" => { self.divchk(xs[0], xs[1]); let op = match (n.as_str(), signed) { ("unchecked_div", true) => Op::DivS, ("unchecked_div", _) => Op::DivU, (_, true) => Op::RemS, _ => Op::RemU }; r = Some(self.arith(op, xs[0], xs[1])) }
            "unchecked_shl" | "unchecked_shr" => { let y = self.shift_amount(xs[0], xs[1]); r = Some(self.arith(if n == "unchecked_shl" { Op::Shl } else if signed { Op::ShrS } else { Op::ShrU }, xs[0], y)) }
            "disjoint_bitor" => r = Some(self.arith(Op::Or, xs[0], xs[1])),
            "arith_offset" | "offset" => { let s = tsize(self, 0); r = Some(self.ptr_offset(xs[0], xs[1], s)) }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let s = tsize(self, 0).max(1);
                let dlt = self.arith(Op::Sub, xs[0], xs[1]);
                let k = self.d.cst(64, s as u128);
                r = Some(self.arith(Op::DivS, dlt, k));
            }
            "copy" | "copy_nonoverlapping" | "volatile_copy_memory" | "volatile_copy_nonoverlapping_memory" => {
                let s = tsize(self, 0);
                if n.starts_with("volatile") { self.memcpy(&mut st, xs[0], xs[1], xs[2], s) } else { self.memcpy(&mut st, xs[1], xs[0], xs[2], s) }
            }
            "write_bytes" | "volatile_set_memory" => {
                let s = tsize(self, 0);
                match self.d.is_const(xs[2]) {
                    Some(k) => {
                        let total = k as u64 * s;
                        let a = self.deref(xs[0], Val::UNINIT);
                        let t = targs.get(0).map(|t| self.lo.info(*t));
                        let z = self.d.is_const(xs[1]);
                        match (t, z) {
                            (Some(i), Some(z)) if matches!(i.kind, Kind::Int { .. }) => {
                                let mut b = 0u128; for j in 0..s { b |= z << (8 * j) }
                                let v = self.d.cst(i.w(), b);
                                for q in 0..k as i64 { let x = self.shift(a, q * s as i64); self.write(&mut st, x, s, v) }
                            }
                            _ => for q in 0..total as i64 { let x = self.shift(a, q); self.write(&mut st, x, 1, xs[1]) },
                        }
                    }
                    None => { if self.d.taint(xs[2]) & self.cfg.secret != 0 { self.ct_at("secret-dependent address", "fill length depends on secret data") } self.unsup("fill of unknown length") }
                }
            }
            "volatile_load" | "unaligned_volatile_load" | "read_via_copy" => { let a = self.deref(xs[0], Val::UNINIT); self.copy(&mut st, dst, a, di.size) }
            "volatile_store" | "unaligned_volatile_store" | "write_via_move" => { let a = self.deref(xs[0], Val::UNINIT); self.copy(&mut st, a, av[1].0, av[1].1.size) }
            "raw_eq" => { let s = tsize(self, 0); let v = self.cmp_bytes(&st, xs[0], xs[1], s, true); r = Some(v) }
            "compare_bytes" => match self.d.is_const(xs[2]) { Some(k) => { let v = self.cmp_bytes(&st, xs[0], xs[1], k as u64, false); r = Some(v) } None => { self.unsup("compare of unknown length"); let t = self.cfg.secret; r = Some(self.d.fresh(AVal::top(32, t))) } },
            "black_box" | "select_unpredictable" if n == "black_box" => self.copy(&mut st, dst, av[0].0, di.size),
            "select_unpredictable" => match self.d.is_const(xs[0]) {
                Some(b) => { let s = if b != 0 { av[1].0 } else { av[2].0 }; self.copy(&mut st, dst, s, di.size) }
                None => {
                    let t = self.d.taint(xs[0]);
                    if t & self.cfg.secret != 0 { self.ct_at("secret-dependent branch", "select on secret data") }
                    let v = self.join_val(xs[1], xs[2], t);
                    r = Some(v);
                }
            },
            "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" | "forget" => {}
            "likely" | "unlikely" => r = Some(xs[0]),
            "size_of" => { let s = tsize(self, 0); r = Some(self.d.cst(64, s as u128)) }
            "size_of_val" => {
                let i = targs.get(0).map(|t| self.lo.info(*t));
                match i {
                    Some(i) if i.sized => r = Some(self.d.cst(64, i.size as u128)),
                    _ => {
                        let la = self.shift(av[0].0, 8);
                        let m = self.read(&st, la, 8);
                        let es = match targs.get(0).and_then(|t| rigid(*t)) { Some(RigidTy::Slice(t)) => self.lo.info(t).size, Some(RigidTy::Str) => 1, _ => 1 };
                        let k = self.d.cst(64, es as u128);
                        r = Some(self.arith(Op::Mul, m, k));
                    }
                }
            }
            "min_align_of" | "align_of" | "min_align_of_val" | "align_of_val" | "pref_align_of" => {
                let al = targs.get(0).and_then(|t| t.layout().ok()).map(|l| l.shape().abi_align).unwrap_or(1);
                r = Some(self.d.cst(64, al as u128));
            }
            "needs_drop" => r = Some(self.d.cst(8, 1)),
            "is_val_statically_known" => r = Some(self.d.cst(8, 0)),
            "ub_checks" | "contract_checks" => r = Some(self.d.cst(8, 0)),
            "overflow_checks" => r = Some(self.d.cst(8, 1)),
            "abort" | "breakpoint" | "unreachable" => { if n != "unreachable" { self.panic_at("abort", "abort") } return None }
            "const_eval_select" => {
                // (args tuple, const fn, runtime fn): run the runtime version
                let inst = self.lo.callees[c as usize].inst.unwrap();
                let ga = inst.args();
                let tys: Vec<Ty> = ga.0.iter().filter_map(|g| match g { GenericArgKind::Type(t) => Some(*t), _ => None }).collect();
                let rt = tys.iter().rev().find_map(|t| match rigid(*t) { Some(RigidTy::FnDef(d, g)) => Some((d, g)), _ => None });
                // generic order: ARG, F (const), G (runtime), RET
                let fns: Vec<_> = tys.iter().filter_map(|t| match rigid(*t) { Some(RigidTy::FnDef(d, g)) => Some((d, g)), _ => None }).collect();
                let pick = if fns.len() == 2 { Some(fns[1].clone()) } else { rt };
                let Some((d, g)) = pick else { self.unsup("const_eval_select"); return Some(st) };
                let i = Instance::resolve(d, &g).unwrap();
                let ce = self.lo.callee(i);
                let tup = tys[0];
                let fl = self.tuple_fields(tup);
                match self.dispatch(ce) {
                    Disp::Body(f) | Disp::Range(f) => {
                        let nf = self.new_frame(&mut st, f.frame as usize + 16);
                        for (k, (o, inf)) in fl.iter().enumerate() {
                            let s = self.shift(av[0].0, *o as i64);
                            let off = f.locals[k + 1].0 as i64;
                            self.copy(&mut st, Addr::at(nf, off), s, inf.size);
                        }
                        let mut s2 = self.run_func(st, &f, nf)?;
                        if di.size > 0 { self.copy(&mut s2, dst, Addr::at(nf, f.locals[0].0 as i64), di.size) }
                        self.drop_frame(&mut s2, nf);
                        return Some(s2);
                    }
                    Disp::Model(_) => {
                        let av2: Vec<(Addr, TyInfo)> = fl.iter().map(|(o, i)| (av[0].0.plus(*o as i64), *i)).collect();
                        let dty = self.lo.callees[ce as usize].ret_ty.unwrap_or(tup);
                        return self.model(st, ce, &av2, dst, di, dty);
                    }
                }
            }
            _ => { self.unsup(&format!("intrinsic {}", n)); self.havoc_ret(&mut st, dst, di) }
        }
        if let Some(v) = r { if di.size > 0 { self.write(&mut st, dst, di.size, v) } }
        Some(st)
    }
    fn divchk(&mut self, x: Val, y: Val) {
        let t = self.d.taint(x) | self.d.taint(y);
        if t & self.cfg.secret != 0 && !matches!(self.d.is_const(y), Some(c) if c.is_power_of_two()) { self.ct_at("secret-dependent division", "operand of a division or remainder depends on secret data") }
    }
    fn cmp_bytes(&mut self, st: &State, p: Val, q: Val, n: u64, eq: bool) -> Val {
        if n == 0 { return if eq { self.d.cst(8, 1) } else { self.d.cst(32, 0) } }
        let (x, y) = (self.bytes_at(st, p, n), self.bytes_at(st, q, n));
        let mut t = 0;
        for v in x.iter().chain(y.iter()) { t |= self.d.taint(*v) }
        if t & self.cfg.secret != 0 { self.ct_at("secret-dependent branch", "variable-time byte comparison on secret data") }
        let cx: Option<Vec<u128>> = x.iter().map(|v| self.d.is_const(*v)).collect();
        let cy: Option<Vec<u128>> = y.iter().map(|v| self.d.is_const(*v)).collect();
        if let (Some(a), Some(b)) = (&cx, &cy) {
            if eq { return self.d.cst(8, (a == b) as u128) }
            let o = a.cmp(b) as i32;
            return self.d.cst(32, o as u32 as u128);
        }
        if eq {
            let mut acc = self.d.cst(8, 1);
            for i in 0..n as usize { let e = self.d.bin(Op::Eq, x[i], y[i]); acc = self.d.bin(Op::And, acc, e) }
            acc
        } else {
            // only the sign / zero-ness is specified
            let mut acc = self.d.cst(8, 1);
            for i in 0..n as usize { let e = self.d.bin(Op::Eq, x[i], y[i]); acc = self.d.bin(Op::And, acc, e) }
            if let Some(1) = self.d.is_const(acc) { return self.d.cst(32, 0) }
            if self.d.sym.is_some() {
                let (p, q) = (self.d.fresh(AVal::top(32, t)), self.d.fresh(AVal::top(32, t)));
                if let Some(r) = crate::sym::with(&mut self.d, |s, d| s.order_word(d, acc, 32, p, q)) { return r }
            }
            self.d.fresh(AVal::srange(32, -1, 1, t))
        }
    }
    fn cut(&mut self, mut st: State, c: u32, av: &[(Addr, TyInfo)], dst: Addr, di: TyInfo, dty: Ty) -> Option<State> {
        let name = self.lo.callees[c as usize].name.clone();
        let key = self.cfg.cuts.iter().find(|(k, _)| name.ends_with(k.as_str())).map(|(_, v)| v.clone()).unwrap();
        let tys = self.lo.callees[c as usize].arg_tys.clone();
        crate::sym::cut(self, &mut st, &key, &name, av, &tys, dst, di, dty);
        Some(st)
    }
}
fn short_algo(n: &str) -> String {
    // e.g. tiny_keccak::Sha3::v256 / tiny_keccak::sha3::<impl Sha3>::v256
    let ty = ["Sha3", "Shake", "Keccak", "CShake", "Kmac", "TupleHash", "ParallelHash", "KangarooTwelve"].iter().find(|t| n.contains(&format!("{}::", t)) || n.contains(&format!("{}>", t))).copied().unwrap_or("unknown");
    format!("{}-{}", ty, basename(n))
}
fn known_intrinsic(n: &str) -> bool {
    matches!(n, "wrapping_add" | "unchecked_add" | "wrapping_sub" | "unchecked_sub" | "wrapping_mul" | "unchecked_mul" | "rotate_left" | "rotate_right" | "bswap" | "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" | "saturating_add" | "saturating_sub" | "exact_div" | "unchecked_div" | "unchecked_rem" | "unchecked_shl" | "unchecked_shr" | "disjoint_bitor" | "arith_offset" | "offset" | "ptr_offset_from" | "ptr_offset_from_unsigned" | "copy" | "copy_nonoverlapping" | "volatile_copy_memory" | "volatile_copy_nonoverlapping_memory" | "write_bytes" | "volatile_set_memory" | "volatile_load" | "unaligned_volatile_load" | "read_via_copy" | "volatile_store" | "unaligned_volatile_store" | "write_via_move" | "raw_eq" | "compare_bytes" | "black_box" | "select_unpredictable" | "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" | "forget" | "likely" | "unlikely" | "size_of" | "size_of_val" | "min_align_of" | "align_of" | "min_align_of_val" | "align_of_val" | "pref_align_of" | "needs_drop" | "is_val_statically_known" | "ub_checks" | "contract_checks" | "overflow_checks" | "abort" | "breakpoint" | "unreachable" | "const_eval_select")
}
