//! Lowers monomorphic compiler IR (MIR) bodies to an offset-resolved form.
use crate::dom::*;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::{self, AggregateKind, BinOp, CastKind, Mutability, Operand as MOperand, Place as MPlace, PointerCoercion, ProjectionElem, Rvalue, StatementKind, TerminatorKind, UnOp};
use rustc_public::ty::{AdtKind, Allocation, ConstantKind, IntTy, RigidTy, Ty, TyKind, UintTy, VariantIdx};
use rustc_public::CrateDef;
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Int { w: u8, signed: bool },
    Bool,
    Thin,
    Fat,
    FnDef,
    Other,
}
#[derive(Clone, Copy, Debug)]
pub struct TyInfo {
    pub size: u64,
    pub kind: Kind,
    pub sized: bool,
}
impl TyInfo {
    pub fn w(&self) -> u8 { match self.kind { Kind::Int { w, .. } => w, Kind::Bool => 8, _ => 64 } }
    pub fn signed(&self) -> bool { matches!(self.kind, Kind::Int { signed: true, .. }) }
    pub fn is_scalar(&self) -> bool { matches!(self.kind, Kind::Int { .. } | Kind::Bool | Kind::Thin) }
}

#[derive(Clone, Debug)]
pub enum Step {
    Off(u64),
    Deref { fat: bool },
    Index { off: u32, stride: u64 },
    ConstIndex { offset: u64, from_end: bool, stride: u64, len: Option<u64> },
    Subslice { from: u64, to: u64, from_end: bool, stride: u64, len: Option<u64> },
}
#[derive(Clone, Debug)]
pub struct Place {
    pub base: u32,
    pub steps: Vec<Step>,
    pub ty: Ty,
    pub info: TyInfo,
}
#[derive(Clone, Debug)]
pub enum Operand {
    Copy(Place),
    /// scalar constant
    Const(Val, TyInfo),
    /// constant memory (index of a constant allocation), to be copied
    Mem(u32, TyInfo),
    Zst(TyInfo),
}
impl Operand {
    pub fn info(&self) -> TyInfo {
        match self { Operand::Copy(p) => p.info, Operand::Const(_, t) | Operand::Mem(_, t) | Operand::Zst(t) => *t }
    }
}
#[derive(Clone, Debug)]
pub struct EnumInfo {
    /// (variant index, discriminant value)
    pub discr: Vec<u128>,
    pub discr_w: u8,
    pub single: Option<usize>,
    pub tag_off: u64,
    pub tag_w: u8,
    pub tag_is_ptr: bool,
    pub niche: Option<(usize, usize, usize, u128)>, // untagged, first, last, niche_start
}
#[derive(Clone, Debug)]
pub enum Rv {
    Use(Operand),
    Bin(Op, Operand, Operand),
    /// pointer-aware comparison / offset
    PtrBin(BinOp, Operand, Operand, u64),
    Cmp3(Operand, Operand, bool),
    Checked(Op, Op, Operand, Operand, u64),
    Un(Op, Operand),
    PtrMeta(Operand),
    Ref(Place),
    CastInt(Op, Operand),
    /// bit copy of the operand (transmute, pointer casts of equal shape)
    Bits(Operand),
    FatToThin(Operand),
    PtrToInt(Operand),
    IntToPtr(Operand),
    Unsize { op: Operand, len: Option<u64>, vtable: Option<(Ty, Ty)> },
    FnPtr(u32),
    Discr(Place, Rc<EnumInfo>),
    Repeat(Operand, u64, u64),
    Agg(Vec<(u64, Operand)>, Option<(Rc<EnumInfo>, usize)>),
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub enum Stmt {
    Assign(Place, Rv, u32),
    SetDiscr(Place, Rc<EnumInfo>, usize),
    CopyNonOverlapping { src: Operand, dst: Operand, count: Operand, elem: u64 },
    /// words of pointer size whose full value is observed next (alone, or combined by an operation)
    Word(Option<Op>, Vec<Operand>, bool, u32),
    Nop,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Static(u32),
    Ptr(Operand),
}
#[derive(Clone, Debug)]
pub enum AssertKind {
    Bounds,
    Overflow(String),
    DivZero,
    Other(String),
}
#[derive(Clone, Debug)]
pub enum Term {
    Goto(usize),
    Switch { op: Operand, targets: Vec<(u128, usize)>, otherwise: usize },
    Return,
    Unreachable,
    Diverge,
    Drop { place: Place, callee: Option<u32>, target: usize },
    Call { callee: Callee, args: Vec<Operand>, dst: Place, target: Option<usize> },
    Assert { cond: Operand, expected: bool, kind: AssertKind, target: usize },
    Asm,
}
pub struct Block {
    pub stmts: Vec<Stmt>,
    pub term: Term,
    pub span: u32,
}
pub struct Func {
    pub inst: Instance,
    pub name: String,
    pub local: bool,
    pub frame: u64,
    pub locals: Vec<(u32, TyInfo, Ty)>,
    pub nargs: usize,
    pub spread: Option<usize>,
    pub blocks: Vec<Block>,
    pub ipdom: Vec<Option<usize>>,
    /// 1: on a cycle; 2: entry of an outermost cycle
    pub cyc: Vec<u8>,
    pub ret: TyInfo,
}
pub struct CalleeInfo {
    pub inst: Option<Instance>,
    pub name: String,
    pub krate: String,
    pub intrinsic: Option<String>,
    pub virt: Option<usize>,
    pub local: bool,
    pub body: Option<Rc<Func>>,
    pub tried: bool,
    pub arg_tys: Vec<Ty>,
    pub ret_ty: Option<Ty>,
    pub never: bool,
}
#[derive(Clone, Debug)]
pub struct SpanInfo {
    pub file: String,
    pub line: usize,
    pub func: String,
}

pub struct Lower {
    pub tyinfo: HashMap<Ty, TyInfo>,
    pub enums: HashMap<Ty, Rc<EnumInfo>>,
    pub callees: Vec<CalleeInfo>,
    pub cmap: HashMap<Instance, u32>,
    pub spans: Vec<SpanInfo>,
    /// constant allocations created while lowering (content, mutability)
    pub consts: Vec<ConstMem>,
    pub galloc: HashMap<usize, u32>,
    pub statics_read: Vec<String>,
}
pub struct ConstMem {
    pub bytes: Vec<Option<u8>>,
    pub ptrs: Vec<(usize, PtrTo)>,
    pub alloc_id: Option<u32>,
    pub mutable: bool,
    pub name: String,
}
#[derive(Clone, Debug)]
pub enum PtrTo {
    Mem(u32, i64),
    Fn(u32),
    VTable(Ty),
}

pub fn rigid(ty: Ty) -> Option<RigidTy> { match ty.kind() { TyKind::RigidTy(r) => Some(r), _ => None } }

impl Lower {
    pub fn new() -> Lower {
        Lower { tyinfo: HashMap::new(), enums: HashMap::new(), callees: vec![], cmap: HashMap::new(), spans: vec![], consts: vec![], galloc: HashMap::new(), statics_read: vec![] }
    }
    pub fn info(&mut self, ty: Ty) -> TyInfo {
        if let Some(i) = self.tyinfo.get(&ty) { return *i }
        let i = self.info0(ty);
        self.tyinfo.insert(ty, i);
        i
    }
    fn info0(&mut self, ty: Ty) -> TyInfo {
        let shape = match ty.layout() { Ok(l) => l.shape(), Err(_) => return TyInfo { size: 0, kind: Kind::Other, sized: false } };
        let size = shape.size.bytes() as u64;
        let sized = shape.is_sized();
        let kind = match rigid(ty) {
            Some(RigidTy::Bool) => Kind::Bool,
            Some(RigidTy::Char) => Kind::Int { w: 32, signed: false },
            Some(RigidTy::Int(i)) => Kind::Int { w: match i { IntTy::I8 => 8, IntTy::I16 => 16, IntTy::I32 => 32, IntTy::I128 => 128, _ => 64 }, signed: true },
            Some(RigidTy::Uint(i)) => Kind::Int { w: match i { UintTy::U8 => 8, UintTy::U16 => 16, UintTy::U32 => 32, UintTy::U128 => 128, _ => 64 }, signed: false },
            Some(RigidTy::Ref(..)) | Some(RigidTy::RawPtr(..)) => if size == 16 { Kind::Fat } else { Kind::Thin },
            Some(RigidTy::FnPtr(_)) => Kind::Thin,
            Some(RigidTy::FnDef(..)) => Kind::FnDef,
            Some(RigidTy::Pat(inner, _)) => return self.info(inner),
            _ => Kind::Other,
        };
        TyInfo { size, kind, sized }
    }
    pub fn elem_stride(&mut self, ty: Ty) -> u64 { self.info(ty).size }
    pub fn field_off(&mut self, ty: Ty, variant: Option<usize>, f: usize) -> u64 {
        let shape = ty.layout().expect("layout").shape();
        match variant {
            None => match &shape.fields {
                FieldsShape::Arbitrary { offsets } => offsets[f].bytes() as u64,
                FieldsShape::Union(_) => 0,
                FieldsShape::Array { stride, .. } => stride.bytes() as u64 * f as u64,
                FieldsShape::Primitive => 0,
            },
            Some(v) => match &shape.variants {
                VariantsShape::Multiple { variants, .. } => variants[v].offsets[f].bytes() as u64,
                _ => match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.get(f).map(|o| o.bytes() as u64).unwrap_or(0), _ => 0 },
            },
        }
    }
    pub fn enum_info(&mut self, ty: Ty) -> Rc<EnumInfo> {
        if let Some(e) = self.enums.get(&ty) { return e.clone() }
        let shape = ty.layout().expect("layout").shape();
        let discr: Vec<u128> = match rigid(ty) {
            Some(RigidTy::Adt(def, _)) if def.kind() == AdtKind::Enum => (0..def.num_variants()).map(|i| def.discriminant_for_variant(VariantIdx::to_val(i)).val).collect(),
            _ => vec![0],
        };
        let discr_ty = ty.kind().discriminant_ty();
        let discr_w = discr_ty.map(|t| self.info(t).w()).unwrap_or(64);
        let mut e = EnumInfo { discr, discr_w, single: None, tag_off: 0, tag_w: 8, tag_is_ptr: false, niche: None };
        match &shape.variants {
            VariantsShape::Empty => e.single = Some(0),
            VariantsShape::Single { index } => e.single = Some(index.to_index()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
                let prim = match tag { rustc_public::abi::Scalar::Initialized { value, .. } => *value, rustc_public::abi::Scalar::Union { value } => *value };
                match prim {
                    rustc_public::abi::Primitive::Int { length, .. } => e.tag_w = length.bits() as u8,
                    rustc_public::abi::Primitive::Pointer(_) => { e.tag_w = 64; e.tag_is_ptr = true }
                    _ => {}
                }
                e.tag_off = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes() as u64, _ => 0 };
                if let TagEncoding::Niche { untagged_variant, niche_variants, niche_start } = tag_encoding {
                    e.niche = Some((untagged_variant.to_index(), niche_variants.start().to_index(), niche_variants.end().to_index(), *niche_start));
                }
            }
        }
        let r = Rc::new(e);
        self.enums.insert(ty, r.clone());
        r
    }
    pub fn callee(&mut self, inst: Instance) -> u32 {
        if let Some(c) = self.cmap.get(&inst) { return *c }
        let id = self.callees.len() as u32;
        let krate = inst.def.krate();
        let sig = match rigid(inst.ty()) { Some(RigidTy::FnDef(d, a)) => { let _ = (d, a); inst.ty().kind().fn_sig().map(|s| s.skip_binder()) } _ => None };
        let never = sig.as_ref().map(|s| matches!(rigid(s.output()), Some(RigidTy::Never))).unwrap_or(false);
        self.callees.push(CalleeInfo {
            name: if krate.is_local { crate::checks::known_as(inst.name()) } else { inst.name() }, krate: krate.name.clone(), intrinsic: inst.intrinsic_name(), local: krate.is_local,
            virt: match inst.kind { InstanceKind::Virtual { idx } => Some(idx), _ => None },
            body: None, tried: false, arg_tys: sig.as_ref().map(|s| s.inputs().to_vec()).unwrap_or_default(), ret_ty: sig.as_ref().map(|s| s.output()), inst: Some(inst), never,
        });
        self.cmap.insert(inst, id);
        id
    }
    pub fn body(&mut self, d: &mut Dom, c: u32) -> Option<Rc<Func>> {
        if self.callees[c as usize].tried { return self.callees[c as usize].body.clone() }
        self.callees[c as usize].tried = true;
        let inst = self.callees[c as usize].inst?;
        if matches!(inst.kind, InstanceKind::Virtual { .. }) { return None }
        let body = inst.body()?;
        let f = self.lower_body(d, inst, &body);
        let f = Rc::new(f);
        self.callees[c as usize].body = Some(f.clone());
        Some(f)
    }

    pub fn alloc_const(&mut self, a: &Allocation, name: &str) -> u32 {
        let id = self.consts.len() as u32;
        self.consts.push(ConstMem { bytes: a.bytes.clone(), ptrs: vec![], alloc_id: None, mutable: a.mutability == Mutability::Mut, name: name.to_string() });
        let mut ptrs = vec![];
        for (off, prov) in &a.provenance.ptrs {
            let addend = a.read_partial_uint(*off..*off + 8).unwrap_or(0) as i64;
            ptrs.push((*off, self.global(prov.0, addend)));
        }
        self.consts[id as usize].ptrs = ptrs;
        id
    }
    fn global(&mut self, id: rustc_public::mir::alloc::AllocId, addend: i64) -> PtrTo {
        let key = id.to_index();
        if let Some(m) = self.galloc.get(&key) { return PtrTo::Mem(*m, addend) }
        match GlobalAlloc::from(id) {
            GlobalAlloc::Function(inst) => PtrTo::Fn(self.callee(inst)),
            GlobalAlloc::VTable(ty, _) => PtrTo::VTable(ty),
            GlobalAlloc::Static(s) => {
                let name = s.name();
                self.statics_read.push(name.clone());
                match s.eval_initializer() {
                    Ok(a) => { let m = self.alloc_const(&a, &name); self.galloc.insert(key, m); PtrTo::Mem(m, addend) }
                    Err(_) => PtrTo::Mem(self.alloc_const(&Allocation { bytes: vec![], provenance: rustc_public::ty::ProvenanceMap { ptrs: vec![] }, align: 1, mutability: Mutability::Mut }, &name), addend),
                }
            }
            GlobalAlloc::Memory(a) => { let m = self.alloc_const(&a, "const"); self.galloc.insert(key, m); PtrTo::Mem(m, addend) }
            GlobalAlloc::TypeId { .. } => PtrTo::Mem(self.alloc_const(&Allocation { bytes: vec![Some(0); 16], provenance: rustc_public::ty::ProvenanceMap { ptrs: vec![] }, align: 1, mutability: Mutability::Not }, "typeid"), addend),
        }
    }
    fn constant(&mut self, d: &mut Dom, c: &mir::ConstOperand) -> Operand {
        let ty = c.const_.ty();
        let info = self.info(ty);
        if info.size == 0 { return Operand::Zst(info) }
        match c.const_.kind() {
            ConstantKind::Allocated(a) => self.const_alloc(d, a, info),
            ConstantKind::ZeroSized => Operand::Zst(info),
            ConstantKind::Ty(t) => match t.kind() {
                rustc_public::ty::TyConstKind::Value(_, a) => { let a = a.clone(); self.const_alloc(d, &a, info) }
                _ => match t.eval_target_usize() { Ok(v) => Operand::Const(d.cst(64, v as u128), info), _ => Operand::Zst(info) },
            },
            k => panic!("unevaluated constant {:?}", k),
        }
    }
    fn const_alloc(&mut self, d: &mut Dom, a: &Allocation, info: TyInfo) -> Operand {
        if a.provenance.ptrs.is_empty() && matches!(info.kind, Kind::Int { .. } | Kind::Bool) {
            if let Ok(v) = a.read_uint() { return Operand::Const(d.cst(info.w(), v), info) }
        }
        let id = self.alloc_const(a, "const");
        Operand::Mem(id, info)
    }
    fn place(&mut self, lo: &[(u32, TyInfo, Ty)], p: &MPlace) -> Place {
        let mut ty = lo[p.local].2;
        let mut steps: Vec<Step> = vec![];
        let mut variant: Option<usize> = None;
        let mut base = lo[p.local].0;
        let push_off = |steps: &mut Vec<Step>, base: &mut u32, o: u64| {
            if steps.is_empty() { *base += o as u32 } else if let Some(Step::Off(x)) = steps.last_mut() { *x += o } else { steps.push(Step::Off(o)) }
        };
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    let (pointee, is_box) = match rigid(ty) {
                        Some(RigidTy::Ref(_, t, _)) => (t, false),
                        Some(RigidTy::RawPtr(t, _)) => (t, false),
                        Some(RigidTy::Adt(_, args)) => (match &args.0[0] { rustc_public::ty::GenericArgKind::Type(t) => *t, _ => panic!() }, true),
                        _ => panic!("deref of {:?}", ty),
                    };
                    let _ = is_box;
                    let fat = self.info(ty).size == 16;
                    steps.push(Step::Deref { fat });
                    ty = pointee;
                    variant = None;
                }
                ProjectionElem::Field(f, fty) => {
                    let o = self.field_off(ty, variant, *f);
                    push_off(&mut steps, &mut base, o);
                    ty = *fty;
                    variant = None;
                }
                ProjectionElem::Index(l) => {
                    let (et, _) = self.elem(ty);
                    let stride = self.info(et).size;
                    steps.push(Step::Index { off: lo[*l].0, stride });
                    ty = et;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let (et, len) = self.elem(ty);
                    let stride = self.info(et).size;
                    if !*from_end || len.is_some() {
                        let i = if *from_end { len.unwrap() - *offset } else { *offset };
                        push_off(&mut steps, &mut base, i * stride);
                    } else {
                        steps.push(Step::ConstIndex { offset: *offset, from_end: *from_end, stride, len });
                    }
                    ty = et;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let (et, len) = self.elem(ty);
                    let stride = self.info(et).size;
                    steps.push(Step::Subslice { from: *from, to: *to, from_end: *from_end, stride, len });
                    if let Some(n) = len {
                        let cnt = if *from_end { n - from - to } else { to - from };
                        ty = Ty::try_new_array(et, cnt).unwrap();
                    }
                }
                ProjectionElem::Downcast(v) => { variant = Some(v.to_index()) }
                ProjectionElem::OpaqueCast(t) => ty = *t,
            }
        }
        let info = self.info(ty);
        Place { base, steps, ty, info }
    }
    pub fn elem(&mut self, ty: Ty) -> (Ty, Option<u64>) {
        match rigid(ty) {
            Some(RigidTy::Array(t, n)) => (t, n.eval_target_usize().ok()),
            Some(RigidTy::Slice(t)) => (t, None),
            Some(RigidTy::Str) => (Ty::unsigned_ty(UintTy::U8), None),
            _ => panic!("elem of {:?}", ty),
        }
    }
    fn operand(&mut self, d: &mut Dom, lo: &[(u32, TyInfo, Ty)], o: &MOperand) -> Operand {
        match o {
            MOperand::Copy(p) | MOperand::Move(p) => { let p = self.place(lo, p); if p.info.size == 0 { Operand::Zst(p.info) } else { Operand::Copy(p) } }
            MOperand::Constant(c) => self.constant(d, c),
            MOperand::RuntimeChecks(r) => {
                let info = TyInfo { size: 1, kind: Kind::Bool, sized: true };
                let on = matches!(r, mir::RuntimeChecks::OverflowChecks);
                Operand::Const(d.cst(8, on as u128), info)
            }
        }
    }
    pub fn span(&mut self, s: rustc_public::ty::Span, func: &str) -> u32 {
        let l = s.get_lines();
        let file = s.get_filename();
        let id = self.spans.len() as u32;
        self.spans.push(SpanInfo { file, line: l.start_line, func: func.to_string() });
        id
    }
    fn lower_body(&mut self, d: &mut Dom, inst: Instance, body: &mir::Body) -> Func {
        let name = if inst.def.krate().is_local { crate::checks::known_as(inst.name()) } else { inst.name() };
        let mut frame = 0u64;
        let mut locals = vec![];
        for l in body.locals() {
            let info = self.info(l.ty);
            frame = (frame + 15) & !15;
            locals.push((frame as u32, info, l.ty));
            frame += info.size.max(1);
        }
        let is_local = inst.def.krate().is_local;
        // the results of these do not depend on the size of the word
        let sized = ["power_of_two", "ilog", "isqrt", "_zeros", "_ones"].iter().any(|x| name.contains(x));
        let words = is_local || (name.contains("<impl usize>") || name.contains("<impl isize>")) && !sized;
        let mut blocks = vec![];
        for b in &body.blocks {
            let mut stmts = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(p, rv) => {
                        let sp = if is_local { self.span(s.source_info.span, &name) } else { 0 };
                        let dst = self.place(&locals, p);
                        let r = self.rvalue(d, &locals, body, rv, &dst);
                        if words { if let Some(w) = word_use(body, rv, &r, sp) { stmts.push(w) } }
                        stmts.push(Stmt::Assign(dst, r, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let dst = self.place(&locals, place);
                        let e = self.enum_info(dst.ty);
                        stmts.push(Stmt::SetDiscr(dst, e, variant_index.to_index()));
                    }
                    StatementKind::Intrinsic(mir::NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let src = self.operand(d, &locals, &c.src);
                        let dst = self.operand(d, &locals, &c.dst);
                        let count = self.operand(d, &locals, &c.count);
                        let t = c.src.ty(body.locals()).unwrap();
                        let pt = match rigid(t) { Some(RigidTy::RawPtr(t, _)) | Some(RigidTy::Ref(_, t, _)) => t, _ => panic!() };
                        let elem = self.info(pt).size;
                        stmts.push(Stmt::CopyNonOverlapping { src, dst, count, elem });
                    }
                    _ => {}
                }
            }
            let sp = self.span(b.terminator.source_info.span, &name);
            if let (true, TerminatorKind::SwitchInt { discr, .. }) = (words, &b.terminator.kind) {
                if let Some(signed) = pointer_sized(discr.ty(body.locals()).unwrap()) { let o = self.operand(d, &locals, discr); stmts.push(Stmt::Word(None, vec![o], signed, sp)) }
            }
            let term = match &b.terminator.kind {
                TerminatorKind::Goto { target } => Term::Goto(*target),
                TerminatorKind::SwitchInt { discr, targets } => Term::Switch { op: self.operand(d, &locals, discr), targets: targets.branches().collect(), otherwise: targets.otherwise() },
                TerminatorKind::Return => Term::Return,
                TerminatorKind::Unreachable => Term::Unreachable,
                TerminatorKind::Resume | TerminatorKind::Abort => Term::Diverge,
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(&locals, place);
                    let i = Instance::resolve_drop_in_place(p.ty);
                    let callee = if i.is_empty_shim() { None } else { Some(self.callee(i)) };
                    Term::Drop { place: p, callee, target: *target }
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(body.locals()).unwrap();
                    let callee = match rigid(fty) {
                        Some(RigidTy::FnDef(def, ga)) => match Instance::resolve(def, &ga) {
                            Ok(i) => Callee::Static(self.callee(i)),
                            Err(_) => {
                                let id = self.callees.len() as u32;
                                self.callees.push(CalleeInfo { inst: None, name: def.name(), krate: def.krate().name, intrinsic: None, virt: None, local: false, body: None, tried: true, arg_tys: vec![], ret_ty: None, never: false });
                                Callee::Static(id)
                            }
                        },
                        _ => Callee::Ptr(self.operand(d, &locals, func)),
                    };
                    let args = args.iter().map(|a| self.operand(d, &locals, a)).collect();
                    Term::Call { callee, args, dst: self.place(&locals, destination), target: *target }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let kind = match msg {
                        mir::AssertMessage::BoundsCheck { .. } => AssertKind::Bounds,
                        mir::AssertMessage::Overflow(op, _, _) => AssertKind::Overflow(format!("{:?}", op)),
                        mir::AssertMessage::OverflowNeg(_) => AssertKind::Overflow("Neg".into()),
                        mir::AssertMessage::DivisionByZero(_) | mir::AssertMessage::RemainderByZero(_) => AssertKind::DivZero,
                        m => AssertKind::Other(m.description().unwrap_or("assertion").to_string()),
                    };
                    Term::Assert { cond: self.operand(d, &locals, cond), expected: *expected, kind, target: *target }
                }
                TerminatorKind::InlineAsm { .. } => Term::Asm,
            };
            blocks.push(Block { stmts, term, span: sp });
        }
        let ipdom = postdom(&blocks);
        let cyc = cycles(&blocks);
        let ret = locals[0].1;
        Func { inst, name, local: is_local, frame, nargs: body.arg_locals().len(), locals, spread: body.spread_arg(), blocks, ipdom, cyc, ret }
    }
    fn rvalue(&mut self, d: &mut Dom, lo: &[(u32, TyInfo, Ty)], body: &mir::Body, rv: &Rvalue, dst: &Place) -> Rv {
        match rv {
            Rvalue::Use(o, _) => Rv::Use(self.operand(d, lo, o)),
            Rvalue::CopyForDeref(p) => { let p = self.place(lo, p); Rv::Use(if p.info.size == 0 { Operand::Zst(p.info) } else { Operand::Copy(p) }) }
            Rvalue::Reborrow(_, _, p) => { let p = self.place(lo, p); Rv::Use(Operand::Copy(p)) }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => Rv::Ref(self.place(lo, p)),
            Rvalue::BinaryOp(op, a, b) => {
                let (x, y) = (self.operand(d, lo, a), self.operand(d, lo, b));
                let xi = x.info();
                if *op == BinOp::Offset {
                    let t = a.ty(body.locals()).unwrap();
                    let pt = match rigid(t) { Some(RigidTy::RawPtr(t, _)) | Some(RigidTy::Ref(_, t, _)) => t, _ => panic!() };
                    let sz = self.info(pt).size;
                    return Rv::PtrBin(*op, x, y, sz);
                }
                match xi.kind {
                    Kind::Int { signed, .. } => match *op {
                        BinOp::Cmp => Rv::Cmp3(x, y, signed),
                        BinOp::Gt => Rv::Bin(if signed { Op::LtS } else { Op::LtU }, y, x),
                        BinOp::Ge => Rv::Bin(if signed { Op::LeS } else { Op::LeU }, y, x),
                        _ => Rv::Bin(binop(*op, signed), x, y),
                    },
                    Kind::Bool => match *op {
                        BinOp::Cmp => Rv::Cmp3(x, y, false),
                        BinOp::Gt => Rv::Bin(Op::LtU, y, x),
                        BinOp::Ge => Rv::Bin(Op::LeU, y, x),
                        _ => Rv::Bin(binop(*op, false), x, y),
                    },
                    _ => Rv::PtrBin(*op, x, y, 1),
                }
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (x, y) = (self.operand(d, lo, a), self.operand(d, lo, b));
                let s = x.info().signed();
                let ovoff = self.field_off(dst.ty, None, 1);
                let (v, o) = match (op, s) {
                    (BinOp::Add, false) => (Op::AddC, Op::AddOvU),
                    (BinOp::Add, true) => (Op::AddCS, Op::AddOvS),
                    (BinOp::Sub, false) => (Op::SubC, Op::SubOvU),
                    (BinOp::Sub, true) => (Op::SubCS, Op::SubOvS),
                    (BinOp::Mul, false) => (Op::MulC, Op::MulOvU),
                    (BinOp::Mul, true) => (Op::MulCS, Op::MulOvS),
                    _ => return Rv::Unsupported(format!("checked {:?}", op)),
                };
                Rv::Checked(v, o, x, y, ovoff)
            }
            Rvalue::UnaryOp(op, a) => {
                let x = self.operand(d, lo, a);
                match op {
                    UnOp::Not => if x.info().kind == Kind::Bool { Rv::Un(Op::BoolNot, x) } else { Rv::Un(Op::Not, x) },
                    UnOp::Neg => Rv::Un(Op::Neg, x),
                    UnOp::PtrMetadata => if x.info().size == 16 { Rv::PtrMeta(x) } else { Rv::Use(Operand::Zst(TyInfo { size: 0, kind: Kind::Other, sized: true })) },
                }
            }
            Rvalue::Cast(k, o, ty) => {
                let x = self.operand(d, lo, o);
                let ti = self.info(*ty);
                match k {
                    CastKind::IntToInt => {
                        let src_ty = o.ty(body.locals()).unwrap();
                        if !matches!(x.info().kind, Kind::Int { .. } | Kind::Bool) {
                            // enum to integer
                            if x.info().size == 0 { return Rv::Unsupported("zst enum cast".into()) }
                            return Rv::Unsupported(format!("enum cast {:?}", src_ty.kind()));
                        }
                        let op = if x.info().signed() { sx(ti.w()) } else { zx(ti.w()) };
                        Rv::CastInt(op, x)
                    }
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr => if x.info().size == 16 && ti.size == 8 { Rv::FatToThin(x) } else { Rv::Bits(x) },
                    CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => Rv::Bits(x),
                    CastKind::PointerExposeAddress => Rv::PtrToInt(x),
                    CastKind::PointerWithExposedProvenance => Rv::IntToPtr(x),
                    CastKind::PointerCoercion(pc) => match pc {
                        PointerCoercion::MutToConstPointer | PointerCoercion::UnsafeFnPointer | PointerCoercion::ArrayToPointer => Rv::Bits(x),
                        PointerCoercion::ReifyFnPointer(_) => match rigid(o.ty(body.locals()).unwrap()) {
                            Some(RigidTy::FnDef(def, args)) => match Instance::resolve_for_fn_ptr(def, &args) { Ok(i) => Rv::FnPtr(self.callee(i)), Err(_) => Rv::Unsupported("reify".into()) },
                            _ => Rv::Unsupported("reify".into()),
                        },
                        PointerCoercion::ClosureFnPointer(_) => match rigid(o.ty(body.locals()).unwrap()) {
                            Some(RigidTy::Closure(def, args)) => match Instance::resolve_closure(def, &args, rustc_public::ty::ClosureKind::FnOnce) { Ok(i) => Rv::FnPtr(self.callee(i)), Err(_) => Rv::Unsupported("closure fn ptr".into()) },
                            _ => Rv::Unsupported("closure fn ptr".into()),
                        },
                        PointerCoercion::Unsize => {
                            let st = o.ty(body.locals()).unwrap();
                            let (sp, dp) = match (pointee(st), pointee(*ty)) { (Some(a), Some(b)) => (a, b), _ => return Rv::Unsupported(format!("unsize {:?}", st.kind())) };
                            let (sp, dp) = tail_pair(sp, dp);
                            match (rigid(sp), rigid(dp)) {
                                (Some(RigidTy::Array(_, n)), Some(RigidTy::Slice(_))) => Rv::Unsize { op: x, len: Some(n.eval_target_usize().unwrap()), vtable: None },
                                (_, Some(RigidTy::Dynamic(..))) => if x.info().size == 16 { Rv::Bits(x) } else { Rv::Unsize { op: x, len: None, vtable: Some((sp, dp)) } },
                                _ => Rv::Unsupported("unsize kind".into()),
                            }
                        }
                    },
                    _ => Rv::Unsupported(format!("cast {:?}", k)),
                }
            }
            Rvalue::Discriminant(p) => { let p = self.place(lo, p); let e = self.enum_info(p.ty); Rv::Discr(p, e) }
            Rvalue::Len(p) => {
                let p = self.place(lo, p);
                let (_, n) = self.elem(p.ty);
                match n {
                    Some(n) => { let v = d.cst(64, n as u128); Rv::Use(Operand::Const(v, TyInfo { size: 8, kind: Kind::Int { w: 64, signed: false }, sized: true })) }
                    None => Rv::Unsupported("Len of slice".into()),
                }
            }
            Rvalue::Repeat(o, n) => { let x = self.operand(d, lo, o); let n = n.eval_target_usize().unwrap(); let sz = x.info().size; Rv::Repeat(x, n, sz) }
            Rvalue::Aggregate(k, ops) => {
                let xs: Vec<Operand> = ops.iter().map(|o| self.operand(d, lo, o)).collect();
                match k {
                    AggregateKind::Array(t) => { let s = self.info(*t).size; Rv::Agg(xs.into_iter().enumerate().map(|(i, x)| (i as u64 * s, x)).collect(), None) }
                    AggregateKind::RawPtr(..) => Rv::Agg(xs.into_iter().enumerate().map(|(i, x)| (i as u64 * 8, x)).collect(), None),
                    AggregateKind::Adt(def, vi, _, _, active) => {
                        let ty = dst.ty;
                        if let Some(f) = active { let o = self.field_off(ty, None, *f); return Rv::Agg(xs.into_iter().map(|x| (o, x)).collect(), None) }
                        let is_enum = def.kind() == AdtKind::Enum;
                        let v = vi.to_index();
                        let fl = xs.into_iter().enumerate().map(|(i, x)| (self.field_off(ty, if is_enum { Some(v) } else { None }, i), x)).collect();
                        let e = if is_enum { Some((self.enum_info(ty), v)) } else { None };
                        Rv::Agg(fl, e)
                    }
                    AggregateKind::Tuple | AggregateKind::Closure(..) => { let ty = dst.ty; Rv::Agg(xs.into_iter().enumerate().map(|(i, x)| (self.field_off(ty, None, i), x)).collect(), None) }
                    _ => Rv::Unsupported("coroutine".into()),
                }
            }
            Rvalue::ThreadLocalRef(_) => Rv::Unsupported("thread local".into()),
        }
    }
}
pub fn pointee(t: Ty) -> Option<Ty> {
    match rigid(t)? {
        RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => Some(t),
        RigidTy::Adt(def, args) => {
            if def.is_box() { match &args.0[0] { rustc_public::ty::GenericArgKind::Type(t) => Some(*t), _ => None } }
            else {
                // NonNull<T>, Unique<T>: single pointer-like field
                let a = args.0.iter().find_map(|g| match g { rustc_public::ty::GenericArgKind::Type(t) => Some(*t), _ => None })?;
                Some(a)
            }
        }
        _ => None,
    }
}
fn tail_pair(a: Ty, b: Ty) -> (Ty, Ty) {
    // struct tails (e.g. RcBox<[T; N]> -> RcBox<[T]>): follow the last generic argument
    if let (Some(RigidTy::Adt(d1, g1)), Some(RigidTy::Adt(d2, g2))) = (rigid(a), rigid(b)) {
        if d1 == d2 {
            for (x, y) in g1.0.iter().zip(g2.0.iter()) {
                if let (rustc_public::ty::GenericArgKind::Type(x), rustc_public::ty::GenericArgKind::Type(y)) = (x, y) { if x != y { return tail_pair(*x, *y) } }
            }
        }
    }
    (a, b)
}
pub fn binop(op: BinOp, s: bool) -> Op {
    match op {
        BinOp::Add | BinOp::AddUnchecked => Op::Add,
        BinOp::Sub | BinOp::SubUnchecked => Op::Sub,
        BinOp::Mul | BinOp::MulUnchecked => Op::Mul,
        BinOp::Div => if s { Op::DivS } else { Op::DivU },
        BinOp::Rem => if s { Op::RemS } else { Op::RemU },
        BinOp::BitXor => Op::Xor,
        BinOp::BitAnd => Op::And,
        BinOp::BitOr => Op::Or,
        BinOp::Shl | BinOp::ShlUnchecked => Op::Shl,
        BinOp::Shr | BinOp::ShrUnchecked => if s { Op::ShrS } else { Op::ShrU },
        BinOp::Eq => Op::Eq,
        BinOp::Ne => Op::Ne,
        BinOp::Lt => if s { Op::LtS } else { Op::LtU },
        BinOp::Le => if s { Op::LeS } else { Op::LeU },
        _ => panic!("binop {:?}", op),
    }
}
fn succs(t: &Term) -> Vec<usize> {
    match t {
        Term::Goto(x) => vec![*x],
        Term::Switch { targets, otherwise, .. } => { let mut v: Vec<usize> = targets.iter().map(|x| x.1).collect(); v.push(*otherwise); v }
        Term::Drop { target, .. } | Term::Assert { target, .. } => vec![*target],
        Term::Call { target, .. } => target.iter().copied().collect(),
        _ => vec![],
    }
}
fn cycles(blocks: &[Block]) -> Vec<u8> {
    let n = blocks.len();
    let su: Vec<Vec<usize>> = blocks.iter().map(|b| succs(&b.term)).collect();
    let reach: Vec<Vec<bool>> = (0..n).map(|i| {
        let mut r = vec![false; n];
        let mut st = su[i].clone();
        while let Some(x) = st.pop() { if !r[x] { r[x] = true; st.extend(&su[x]) } }
        r
    }).collect();
    let mut c: Vec<u8> = (0..n).map(|i| reach[i][i] as u8).collect();
    for i in 0..n { for &s in &su[i] { if c[s] & 1 == 1 && !reach[s][i] { c[s] |= 2 } } }
    c
}
/// Immediate post-dominators over the non-panicking control flow; None = function exit.
fn postdom(blocks: &[Block]) -> Vec<Option<usize>> {
    let n = blocks.len();
    let exit = n;
    let mut reach = vec![false; n + 1];
    // blocks from which a Return is reachable
    let mut preds = vec![vec![]; n + 1];
    let mut su = vec![vec![]; n + 1];
    for (i, b) in blocks.iter().enumerate() {
        let s = if matches!(b.term, Term::Return) { vec![exit] } else { succs(&b.term) };
        for t in &s { preds[*t].push(i) }
        su[i] = s;
    }
    let mut st = vec![exit];
    reach[exit] = true;
    while let Some(x) = st.pop() { for &p in &preds[x] { if !reach[p] { reach[p] = true; st.push(p) } } }
    // reverse postorder on the reverse graph
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    fn dfs(x: usize, preds: &Vec<Vec<usize>>, seen: &mut Vec<bool>, order: &mut Vec<usize>) {
        let mut st = vec![(x, 0)];
        seen[x] = true;
        while let Some((u, i)) = st.pop() {
            if i < preds[u].len() { st.push((u, i + 1)); let v = preds[u][i]; if !seen[v] { seen[v] = true; st.push((v, 0)) } } else { order.push(u) }
        }
    }
    dfs(exit, &preds, &mut seen, &mut order);
    let mut num = vec![usize::MAX; n + 1];
    for (i, &x) in order.iter().enumerate() { num[x] = i }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    loop {
        let mut ch = false;
        for &x in order.iter().rev() {
            if x == exit { continue }
            let mut new = usize::MAX;
            for &s in &su[x] {
                if !reach[s] || idom[s] == usize::MAX { continue }
                new = if new == usize::MAX { s } else {
                    let (mut a, mut b) = (s, new);
                    while a != b { while num[a] < num[b] { a = idom[a] } while num[b] < num[a] { b = idom[b] } }
                    a
                };
            }
            if new != usize::MAX && idom[x] != new { idom[x] = new; ch = true }
        }
        if !ch { break }
    }
    (0..n).map(|i| if idom[i] == usize::MAX || idom[i] == exit { None } else { Some(idom[i]) }).collect()
}

/// Some(signed) for usize and isize.
fn pointer_sized(t: Ty) -> Option<bool> {
    match rigid(t) { Some(RigidTy::Uint(UintTy::Usize)) => Some(false), Some(RigidTy::Int(IntTy::Isize)) => Some(true), _ => None }
}
/// An operation on pointer-sized words whose result is not determined by their low 32 bits.
fn word_use(body: &mir::Body, rv: &Rvalue, r: &Rv, sp: u32) -> Option<Stmt> {
    let first = match rv { Rvalue::BinaryOp(_, a, _) | Rvalue::CheckedBinaryOp(_, a, _) | Rvalue::Cast(_, a, _) => a.ty(body.locals()).ok()?, _ => return None };
    let signed = pointer_sized(first)?;
    match (rv, r) {
        (Rvalue::BinaryOp(op, ..), Rv::Bin(_, x, y) | Rv::Cmp3(x, y, _)) => match op {
            BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Cmp | BinOp::Div | BinOp::Rem => Some(Stmt::Word(None, vec![x.clone(), y.clone()], signed, sp)),
            BinOp::Shr | BinOp::ShrUnchecked => Some(Stmt::Word(None, vec![x.clone()], signed, sp)),
            _ => None,
        },
        (_, Rv::Checked(op, _, x, y, _)) => Some(Stmt::Word(Some(*op), vec![x.clone(), y.clone()], signed, sp)),
        (Rvalue::Cast(_, _, t), Rv::CastInt(_, x)) => match rigid(*t)? {
            RigidTy::Uint(UintTy::U64 | UintTy::U128) | RigidTy::Int(IntTy::I64 | IntTy::I128) => Some(Stmt::Word(None, vec![x.clone()], signed, sp)),
            _ => None,
        },
        _ => None,
    }
}
