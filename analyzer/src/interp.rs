//! Abstract interpreter over the lowered IR: one abstract state per program point,
//! joined at merge points, loops with undecided exits iterated to a fixpoint.
use crate::dom::*;
use crate::lower::*;
use crate::models::Disp;
use rustc_public::mir::BinOp;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub const GLOBAL: u32 = 1 << 26;
pub const NOALLOC: u32 = (1 << 27) | 1;
pub const RET: usize = usize::MAX;

#[derive(Clone)]
pub struct Alloc {
    pub vals: Vec<Val>,
    pub sz: Vec<u8>,
    pub ro: bool,
    pub name: &'static str,
}
impl Alloc {
    pub fn new(n: usize, name: &'static str) -> Alloc { Alloc { vals: vec![Val::UNINIT; n], sz: vec![0; n], ro: false, name } }
}
#[derive(Clone)]
pub struct State {
    pub allocs: Vec<Option<Rc<Alloc>>>,
    pub free: Vec<u32>,
    pub draws: u32,
    pub draw_lens: Vec<u64>,
    /// labels of undecided conditions the current path depends on
    pub ctl: u64,
    /// branch decisions on the current path: origin, base of its tables, entries that remain possible
    pub assume: Vec<(u64, u32, Rc<Vec<bool>>)>,
}
#[derive(Clone, Copy, Debug)]
pub struct Addr {
    pub alloc: u32,
    pub off: i64,
    pub abs: u32,
    pub meta: Val,
}
impl Addr {
    pub fn at(alloc: u32, off: i64) -> Addr { Addr { alloc, off, abs: 0, meta: Val::UNINIT } }
    pub fn plus(self, o: i64) -> Addr { Addr { off: self.off + o, ..self } }
}
#[derive(Clone)]
pub struct HashEvent {
    pub algo: String,
    pub input: Rc<Vec<Val>>,
    pub out: Vec<Val>,
    pub site: String,
}
#[derive(Clone, Debug)]
pub enum Opaque {
    Unknown,
    Hash(String, Rc<Vec<Val>>),
    Aes(String, Rc<Vec<Val>>),
    VTable(String, Option<rustc_public::ty::Ty>),
}
pub struct Cfg {
    pub secret: u64,
    pub model_rng: bool,
    pub rng_fail_at: Option<u32>,
    pub rng_label: u64,
    pub draw_labels: Vec<u64>,
    pub check_ct: bool,
    pub overflow: bool,
    pub max_steps: u64,
    /// replace these local functions by models (name suffix -> model key)
    pub cuts: HashMap<String, String>,
    pub trace_calls: bool,
    pub poly_n: usize,
    pub logq: u8,
}
impl Default for Cfg {
    fn default() -> Cfg { Cfg { secret: 0, model_rng: true, rng_fail_at: None, rng_label: 1, draw_labels: vec![], check_ct: false, overflow: true, max_steps: 20_000_000_000, cuts: HashMap::new(), trace_calls: false, poly_n: 0, logq: 0 } }
}
#[derive(Clone, Debug)]
pub struct Finding {
    pub kind: String,
    pub func: String,
    pub file: String,
    pub line: usize,
    pub detail: String,
    pub count: u64,
}
#[derive(Default)]
pub struct Report {
    pub panics: BTreeMap<String, Finding>,
    pub ct: BTreeMap<String, Finding>,
    pub unsup: BTreeMap<String, Finding>,
    pub steps: u64,
    pub calls: u64,
    pub asserts: u64,
    pub asserts_proved: u64,
    pub assert_sites: BTreeSet<u32>,
    pub branches: u64,
    pub branch_sites: BTreeSet<u32>,
    pub index_sites: BTreeSet<u32>,
    pub mem_accesses: u64,
    pub undecided: u64,
    pub funcs: BTreeSet<String>,
    pub local_funcs: BTreeSet<String>,
    pub externals: BTreeSet<String>,
    pub writes_ro: BTreeMap<String, Finding>,
    pub draws: Vec<(u32, u64, String)>,
    pub draw_srcs: Vec<u32>,
    pub words: u64,
    pub wide: BTreeMap<String, Finding>,
    pub draw_dsts: Vec<u32>,
    pub entry_draw_lens: Vec<u64>,
}
pub struct Interp {
    pub d: Dom,
    pub lo: Lower,
    pub cfg: Cfg,
    pub rep: Report,
    pub globals: Vec<Rc<Alloc>>,
    pub abs: Vec<(i64, i64, i64)>,
    pub opaque: Vec<Opaque>,
    pub hashes: Vec<HashEvent>,
    pub stack: Vec<(Rc<Func>, u32)>,
    pub pool: Vec<Alloc>,
    pub cur_span: u32,
    pub cutlog: Vec<CutEvent>,
    pub disp: Vec<Option<Disp>>,
    pub ofn: HashMap<(String, Vec<(u64, u64)>, usize), Vec<Val>>,
    /// test under which the next join selects (value numbering only)
    pub join_guard: Option<u32>,
    pub draw_split: bool,
    /// enclosing loops of the calls in progress
    loops: u32,
    pub unroll: u32,
    pub draw_vals: HashMap<(usize, usize), Val>,
    pub rlay: Vec<Option<(u8, bool, u64, u64, u64, u64, u8)>>,
    pub err_allocs: Vec<u32>,
    pub heap_allocs: u64,
    pub via_ptr: bool,
}
#[derive(Clone)]
pub struct CutEvent {
    pub key: String,
    pub ins: Vec<Vec<Val>>,
    pub outs: Vec<Vec<Val>>,
}
pub type Res = Vec<(usize, State)>;

impl State {
    pub fn new() -> State { State { allocs: vec![], free: vec![], draws: 0, draw_lens: vec![], ctl: 0, assume: vec![] } }
    pub fn alloc(&mut self, a: Alloc) -> u32 {
        if let Some(i) = self.free.pop() { self.allocs[i as usize] = Some(Rc::new(a)); return i }
        self.allocs.push(Some(Rc::new(a)));
        (self.allocs.len() - 1) as u32
    }
}

impl Interp {
    pub fn new(limit: usize) -> Interp {
        Interp { d: Dom::new(limit), lo: Lower::new(), cfg: Cfg::default(), rep: Report::default(), globals: vec![], abs: vec![(0, 0, 1)], opaque: vec![Opaque::Unknown], hashes: vec![], stack: vec![], pool: vec![], cur_span: 0, cutlog: vec![], disp: vec![], ofn: HashMap::new(), join_guard: None, draw_split: false, unroll: 0, loops: 0, draw_vals: HashMap::new(), rlay: vec![], err_allocs: vec![], heap_allocs: 0, via_ptr: false }
    }
    pub fn opq(&mut self, o: Opaque) -> Val { self.opaque.push(o); Val::opq((self.opaque.len() - 1) as u32) }

    // ---------- reporting ----------
    pub fn site(&self) -> (String, String, usize) {
        // innermost frame of the analysed crate
        let n = self.stack.len();
        for i in (0..n).rev() {
            if self.stack[i].0.local {
                let sp = if i + 1 == n { self.cur_span } else { self.stack[i + 1].1 };
                if let Some(s) = self.lo.spans.get(sp as usize) { return (self.stack[i].0.name.clone(), s.file.clone(), s.line) }
                return (self.stack[i].0.name.clone(), String::new(), 0);
            }
        }
        ("?".into(), String::new(), 0)
    }
    fn finding(&self, kind: &str, detail: &str) -> (String, Finding) {
        let (func, file, line) = self.site();
        let key = format!("{}|{}|{}:{}", kind, func, file, line);
        (key, Finding { kind: kind.into(), func, file, line, detail: detail.into(), count: 1 })
    }
    fn add(map: &mut BTreeMap<String, Finding>, k: String, f: Finding) { map.entry(k).and_modify(|x| x.count += 1).or_insert(f); }
    pub fn panic_at(&mut self, kind: &str, detail: &str) { let (k, f) = self.finding(kind, detail); Self::add(&mut self.rep.panics, k, f) }
    pub fn ct_at(&mut self, kind: &str, detail: &str) { if self.cfg.check_ct { let (k, f) = self.finding(kind, detail); Self::add(&mut self.rep.ct, k, f) } }
    pub fn unsup(&mut self, what: &str) { let (k, f) = self.finding(what, what); Self::add(&mut self.rep.unsup, k, f) }

    // ---------- memory ----------
    pub fn get_alloc<'a>(&'a self, st: &'a State, a: u32) -> Option<&'a Alloc> {
        if a & GLOBAL != 0 { return self.globals.get((a & (GLOBAL - 1)) as usize).map(|x| &**x) }
        st.allocs.get(a as usize).and_then(|x| x.as_deref())
    }
    pub fn global_const(&mut self, m: u32) -> u32 {
        if let Some(a) = self.lo.consts[m as usize].alloc_id { return a }
        let n = self.lo.consts[m as usize].bytes.len();
        let id = GLOBAL | self.globals.len() as u32;
        self.lo.consts[m as usize].alloc_id = Some(id);
        let mut al = Alloc::new(n, "const");
        al.ro = true;
        let bytes = self.lo.consts[m as usize].bytes.clone();
        for (i, b) in bytes.iter().enumerate() {
            if let Some(b) = b { al.vals[i] = self.d.cst(8, *b as u128); al.sz[i] = 1 }
        }
        self.globals.push(Rc::new(al));
        let ptrs = self.lo.consts[m as usize].ptrs.clone();
        for (off, p) in ptrs {
            let v = match p {
                PtrTo::Mem(m2, add) => { let a = self.global_const(m2); Val::ptr(a, add) }
                PtrTo::Fn(c) => Val::func(c),
                PtrTo::VTable(t) => self.opq(Opaque::VTable("const vtable".into(), Some(t))),
            };
            let al = Rc::make_mut(&mut self.globals[(id & (GLOBAL - 1)) as usize]);
            for i in 0..8 { al.sz[off + i] = 0 }
            al.vals[off] = v;
            al.sz[off] = 8;
        }
        id
    }
    #[inline]
    pub fn read(&mut self, st: &State, a: Addr, size: u64) -> Val {
        if a.abs == 0 {
            if let Some(al) = self.get_alloc(st, a.alloc) {
                let o = a.off as usize;
                if a.off >= 0 && o < al.sz.len() && al.sz[o] as u64 == size { return al.vals[o] }
            }
        }
        self.read_slow(st, a, size)
    }
    fn read_slow(&mut self, st: &State, a: Addr, size: u64) -> Val {
        if a.abs != 0 {
            let (lo, hi, stride) = self.abs[a.abs as usize];
            let n = self.get_alloc(st, a.alloc).map(|x| x.sz.len() as i64).unwrap_or(0);
            let mut acc: Option<Val> = None;
            let mut o = lo;
            while o <= hi && o + size as i64 <= n {
                let v = self.read(st, Addr::at(a.alloc, o), size);
                acc = Some(match acc { None => v, Some(x) => self.join_val(x, v, 0) });
                o += stride.max(1);
            }
            return acc.unwrap_or(Val::UNINIT);
        }
        let (len, ok) = match self.get_alloc(st, a.alloc) { Some(al) => (al.sz.len() as i64, true), None => (0, false) };
        if !ok { self.unsup("read through unknown pointer"); return Val::UNINIT }
        if a.off < 0 || a.off + size as i64 > len { self.unsup("read outside an allocation"); return Val::UNINIT }
        let al = self.get_alloc(st, a.alloc).unwrap();
        let o = a.off as usize;
        // find covering / component cells
        let mut cells = vec![];
        let mut start = o;
        while start > 0 && al.sz[start] == 0 && o - start < 16 { start -= 1 }
        if al.sz[start] == 0 || start + al.sz[start] as usize <= o { start = o }
        let mut p = start;
        while p < o + size as usize {
            if al.sz[p] == 0 { return Val::UNINIT }
            cells.push((p, al.sz[p], al.vals[p]));
            p += al.sz[p] as usize;
        }
        if size > 16 { return Val::UNINIT }
        let w = (size * 8) as u8;
        let mut acc: Option<Val> = None;
        for (p, s, v) in cells {
            if !v.is_int() { return Val::UNINIT }
            let cw = s as u16 * 8;
            // bits of this cell that fall into [o, o+size)
            let from = if p < o { (o - p) * 8 } else { 0 };
            let to = ((o + size as usize - p) * 8).min(cw as usize);
            let nb = to - from;
            let mut x = v;
            if from > 0 { let k = self.d.cst(cw as u8, from as u128); x = self.d.bin(Op::ShrU, x, k) }
            if nb < cw as usize - from {
                let k = self.d.cst(cw as u8, mask(nb as u8));
                x = self.d.bin(Op::And, x, k);
            }
            if cw as u8 != w { x = self.d.un(zx(w), x) }
            let sh = if p > o { (p - o) * 8 } else { 0 };
            if sh > 0 { let k = self.d.cst(w, sh as u128); x = self.d.bin(Op::Shl, x, k) }
            acc = Some(match acc { None => x, Some(y) => self.d.bin(Op::Or, y, x) });
        }
        acc.unwrap_or(Val::UNINIT)
    }
    #[inline]
    pub fn write(&mut self, st: &mut State, a: Addr, size: u64, v: Val) {
        if a.abs == 0 && a.alloc & GLOBAL == 0 {
            if let Some(Some(rc)) = st.allocs.get_mut(a.alloc as usize) {
                let o = a.off as usize;
                if a.off >= 0 && o + size as usize <= rc.sz.len() && rc.sz[o] as u64 == size && !rc.ro {
                    Rc::make_mut(rc).vals[o] = v;
                    return;
                }
            }
        }
        self.write_slow(st, a, size, v)
    }
    fn write_slow(&mut self, st: &mut State, a: Addr, size: u64, v: Val) {
        if a.abs != 0 {
            let (lo, hi, stride) = self.abs[a.abs as usize];
            let n = self.get_alloc(st, a.alloc).map(|x| x.sz.len() as i64).unwrap_or(0);
            let mut o = lo;
            while o <= hi && o + size as i64 <= n {
                let old = self.read(st, Addr::at(a.alloc, o), size);
                let nv = self.join_val(old, v, 0);
                self.write(st, Addr::at(a.alloc, o), size, nv);
                o += stride.max(1);
            }
            return;
        }
        if a.alloc & GLOBAL != 0 {
            let (k, f) = self.finding("write to static memory", "write to static or constant memory");
            Self::add(&mut self.rep.writes_ro, k, f);
            return;
        }
        let ok = match st.allocs.get(a.alloc as usize) { Some(Some(al)) => a.off >= 0 && a.off as usize + size as usize <= al.sz.len(), _ => false };
        if !ok { self.unsup("write outside an allocation"); return }
        if st.allocs[a.alloc as usize].as_ref().unwrap().ro {
            let (k, f) = self.finding("write to input buffer", "write to an input buffer");
            Self::add(&mut self.rep.writes_ro, k, f);
        }
        self.split(st, a.alloc, a.off as usize);
        self.split(st, a.alloc, a.off as usize + size as usize);
        let al = Rc::make_mut(st.allocs[a.alloc as usize].as_mut().unwrap());
        let o = a.off as usize;
        for i in 0..size as usize { al.sz[o + i] = 0 }
        al.vals[o] = v;
        al.sz[o] = size as u8;
    }
    /// Make sure no cell straddles byte offset `o`.
    fn split(&mut self, st: &mut State, alloc: u32, o: usize) {
        let al = st.allocs[alloc as usize].as_ref().unwrap();
        if o >= al.sz.len() || o == 0 || al.sz[o] != 0 { return }
        let mut s = o;
        while s > 0 && al.sz[s] == 0 && o - s < 16 { s -= 1 }
        if al.sz[s] == 0 || s + al.sz[s] as usize <= o { return }
        let n = al.sz[s] as usize;
        let v = al.vals[s];
        let mut bytes = vec![];
        for i in 0..n {
            let b = if v.is_int() {
                let k = self.d.cst((n * 8) as u8, (i * 8) as u128);
                let x = self.d.bin(Op::ShrU, v, k);
                self.d.un(Op::Zx8, x)
            } else { Val::UNINIT };
            bytes.push(b);
        }
        let al = Rc::make_mut(st.allocs[alloc as usize].as_mut().unwrap());
        for i in 0..n { al.vals[s + i] = bytes[i]; al.sz[s + i] = if bytes[i] == Val::UNINIT { 0 } else { 1 } }
    }
    pub fn copy(&mut self, st: &mut State, dst: Addr, src: Addr, size: u64) {
        if size == 0 { return }
        if matches!(size, 1 | 2 | 4 | 8) && src.abs == 0 {
            if let Some(al) = self.get_alloc(st, src.alloc) {
                let o = src.off as usize;
                if src.off >= 0 && o < al.sz.len() && al.sz[o] as u64 == size { let v = al.vals[o]; self.write(st, dst, size, v); return }
            }
        }
        if src.abs != 0 || dst.abs != 0 {
            if matches!(size, 1 | 2 | 4 | 8 | 16) { let v = self.read(st, src, size); self.write(st, dst, size, v) }
            else { self.copy_abs(st, dst, src, size) }
            return;
        }
        if dst.alloc & GLOBAL != 0 { self.write_slow(st, dst, size, Val::UNINIT); return }
        let okd = matches!(st.allocs.get(dst.alloc as usize), Some(Some(al)) if dst.off >= 0 && dst.off as u64 + size <= al.sz.len() as u64);
        if !okd { self.unsup("copy to outside an allocation"); return }
        if st.allocs[dst.alloc as usize].as_ref().unwrap().ro {
            let (k, f) = self.finding("write to input buffer", "copy into an input buffer");
            Self::add(&mut self.rep.writes_ro, k, f);
        }
        // source cells
        let (n, ok) = match self.get_alloc(st, src.alloc) { Some(al) => (al.sz.len() as u64, true), None => (0, false) };
        if !ok || src.off < 0 || src.off as u64 + size > n { self.unsup("copy from outside an allocation"); return }
        if src.alloc & GLOBAL == 0 {
            self.split(st, src.alloc, src.off as usize);
            self.split(st, src.alloc, (src.off as u64 + size) as usize);
        }
        self.split(st, dst.alloc, dst.off as usize);
        self.split(st, dst.alloc, (dst.off as u64 + size) as usize);
        let (so, do_, sz) = (src.off as usize, dst.off as usize, size as usize);
        if src.alloc == dst.alloc {
            let al = Rc::make_mut(st.allocs[dst.alloc as usize].as_mut().unwrap());
            al.vals.copy_within(so..so + sz, do_);
            al.sz.copy_within(so..so + sz, do_);
        } else {
            let mut d = st.allocs[dst.alloc as usize].take().unwrap();
            {
                let s = self.get_alloc(st, src.alloc).unwrap();
                let dm = Rc::make_mut(&mut d);
                dm.vals[do_..do_ + sz].copy_from_slice(&s.vals[so..so + sz]);
                dm.sz[do_..do_ + sz].copy_from_slice(&s.sz[so..so + sz]);
            }
            st.allocs[dst.alloc as usize] = Some(d);
        }
    }
    fn copy_abs(&mut self, st: &mut State, dst: Addr, src: Addr, size: u64) {
        for i in 0..size as i64 {
            let s = self.shift(src, i);
            let d = self.shift(dst, i);
            let v = self.read(st, s, 1);
            self.write(st, d, 1, v);
        }
    }
    pub fn shift(&mut self, a: Addr, o: i64) -> Addr {
        if a.abs == 0 { return Addr { off: a.off + o, ..a } }
        let (l, h, s) = self.abs[a.abs as usize];
        self.abs.push((l + o, h + o, s));
        Addr { abs: (self.abs.len() - 1) as u32, ..a }
    }
    pub fn join_val(&mut self, x: Val, y: Val, t: u64) -> Val {
        if x == y { return x }
        match (x.tag(), y.tag()) {
            (T_INT, T_INT) => match self.join_guard { Some(g) if self.d.av(x).w == self.d.av(y).w => if self.d.fin.is_some() { crate::fin::with(&mut self.d, |s, d| { let g = s.guards[g as usize]; s.ite(d, g, x, y) }) } else { crate::sym::with(&mut self.d, |s, d| s.mkite(d, g, x, y)) }, _ => self.d.join(x, y, t) },
            (T_PTR, T_PTR) if x.idx() == y.idx() && x.tab == 0 && y.tab == 0 => {
                let (a, b) = (x.src as i64, y.src as i64);
                self.abs.push((a.min(b), a.max(b), (a - b).abs()));
                Val { k: x.k, tab: (self.abs.len() - 1) as u32, src: 0 }
            }
            (T_PTR, T_PTR) if x.idx() == y.idx() => {
                let f = |s: &Self, v: Val| if v.tab != 0 { s.abs[v.tab as usize] } else { (v.src as i64, v.src as i64, 0) };
                let (a, b) = (f(self, x), f(self, y));
                let g = gcd(gcd(a.2, b.2), (a.0 - b.0).abs());
                let n = (a.0.min(b.0), a.1.max(b.1), g);
                let id = match self.abs.iter().position(|q| *q == n) { Some(i) => i, None => { self.abs.push(n); self.abs.len() - 1 } };
                Val { k: x.k, tab: id as u32, src: 0 }
            }
            (T_UNINIT, _) | (_, T_UNINIT) => Val::UNINIT,
            _ => Val::opq(0),
        }
    }
    pub fn join_states(&mut self, a: State, b: &State, t: u64) -> State {
        let mut a = a;
        if a.draw_lens != b.draw_lens { self.draw_split = true }
        a.draws = a.draws.max(b.draws);
        if b.draw_lens.len() > a.draw_lens.len() { a.draw_lens = b.draw_lens.clone() }
        a.ctl |= b.ctl;
        if !a.assume.is_empty() { a.assume.retain(|x| b.assume.iter().any(|y| x == y)) }
        let n = a.allocs.len().max(b.allocs.len());
        if a.allocs.len() < n { a.allocs.resize(n, None) }
        for i in 0..n {
            let y = match b.allocs.get(i) { Some(Some(y)) => y.clone(), _ => continue };
            match &a.allocs[i] {
                None => { a.allocs[i] = Some(y); a.free.retain(|f| *f as usize != i); continue }
                Some(x) => { if Rc::ptr_eq(x, &y) { continue } }
            }
            let x = a.allocs[i].clone().unwrap();
            if x.sz.len() != y.sz.len() { if y.sz.len() > x.sz.len() { a.allocs[i] = Some(y) } continue }
            let mut r = (*x).clone();
            let mut p = 0;
            while p < r.sz.len() {
                if x.sz[p] == y.sz[p] {
                    if x.sz[p] > 0 {
                        r.vals[p] = self.join_val(x.vals[p], y.vals[p], t);
                        p += x.sz[p] as usize;
                    } else { p += 1 }
                } else {
                    // different cell structure: bytewise
                    let e = p + (x.sz[p].max(y.sz[p])) as usize;
                    // memory that holds nothing on one side cannot be read there: what the other side stored remains
                    let m = e.min(r.sz.len());
                    let empty = |z: &Alloc| z.sz[p..m].iter().all(|s| *s == 0) && (p.saturating_sub(16)..p).all(|q| q + z.sz[q] as usize <= p);
                    let (ex, ey) = (empty(&x), empty(&y));
                    if ex || ey {
                        let from = if ex { &y } else { &x };
                        for q in p..m { r.sz[q] = from.sz[q]; r.vals[q] = from.vals[q] }
                        p = e;
                        continue;
                    }
                    let sa = State { allocs: vec![Some(x.clone())], ..State::new() };
                    let sb = State { allocs: vec![Some(y.clone())], ..State::new() };
                    for q in p..e.min(r.sz.len()) {
                        let u = self.read_slow(&sa, Addr::at(0, q as i64), 1);
                        let v = self.read_slow(&sb, Addr::at(0, q as i64), 1);
                        let j = self.join_val(u, v, t);
                        if j == Val::UNINIT { r.sz[q] = 0 } else { r.sz[q] = 1; r.vals[q] = j }
                    }
                    p = e;
                }
            }
            a.allocs[i] = Some(Rc::new(r));
        }
        a
    }
    fn same_state(&self, a: &State, b: &State) -> bool {
        for i in 0..a.allocs.len().max(b.allocs.len()) {
            match (a.allocs.get(i).and_then(|x| x.as_ref()), b.allocs.get(i).and_then(|x| x.as_ref())) {
                (None, None) => {}
                (Some(x), Some(y)) => {
                    if Rc::ptr_eq(x, y) { continue }
                    if x.sz != y.sz { return false }
                    for p in 0..x.sz.len() {
                        if x.sz[p] == 0 { continue }
                        let (u, v) = (x.vals[p], y.vals[p]);
                        if u == v { continue }
                        if u.is_int() && v.is_int() && u.k == v.k { continue }
                        return false;
                    }
                }
                _ => return false,
            }
        }
        true
    }
    fn widen_state(&mut self, old: &State, new: State) -> State {
        let mut new = new;
        for i in 0..new.allocs.len() {
            let (x, y) = match (old.allocs.get(i).and_then(|x| x.clone()), new.allocs[i].clone()) { (Some(x), Some(y)) => (x, y), _ => continue };
            if Rc::ptr_eq(&x, &y) || x.sz.len() != y.sz.len() { continue }
            let mut r = (*y).clone();
            for p in 0..r.sz.len() {
                if r.sz[p] == 0 || x.sz[p] != r.sz[p] { continue }
                let (u, v) = (x.vals[p], r.vals[p]);
                if u.is_int() && v.is_int() && u.k != v.k {
                    let a = *self.d.av(v);
                    r.vals[p] = self.d.fresh(AVal::top(a.w, a.taint));
                }
            }
            new.allocs[i] = Some(Rc::new(r));
        }
        new
    }

    // ---------- places and operands ----------
    #[inline]
    pub fn addr(&mut self, st: &State, frame: u32, p: &Place) -> Addr {
        let mut a = Addr::at(frame, p.base as i64);
        if p.steps.is_empty() { return a }
        for s in &p.steps {
            match s {
                Step::Off(o) => a = self.shift(a, *o as i64),
                Step::Deref { fat } => {
                    let v = self.read(st, a, 8);
                    let meta = if *fat { let b = self.shift(a, 8); self.read(st, b, 8) } else { Val::UNINIT };
                    a = self.deref(v, meta);
                }
                Step::Index { off, stride } => {
                    let i = self.read(st, Addr::at(frame, *off as i64), 8);
                    a = self.index(a, i, *stride);
                }
                Step::ConstIndex { offset, from_end, stride, len } => {
                    let n = match len { Some(n) => *n as i64, None => self.d.is_const(a.meta).unwrap_or(0) as i64 };
                    let i = if *from_end { n - *offset as i64 } else { *offset as i64 };
                    a = self.shift(a, i * *stride as i64);
                }
                Step::Subslice { from, to, from_end, stride, len } => {
                    let n = match len { Some(n) => *n, None => self.d.is_const(a.meta).unwrap_or(0) as u64 };
                    let cnt = if *from_end { n.saturating_sub(from + to) } else { to - from };
                    a = self.shift(a, (*from * *stride) as i64);
                    a.meta = self.d.cst(64, cnt as u128);
                }
            }
        }
        a
    }
    pub fn deref(&mut self, v: Val, meta: Val) -> Addr {
        if v.is_ptr() { Addr { alloc: v.idx(), off: v.src as i64, abs: v.tab, meta } } else { Addr { alloc: NOALLOC, off: 0, abs: 0, meta } }
    }
    pub fn ptr_of(&mut self, a: Addr) -> Val {
        if a.alloc == NOALLOC { return self.d.cst(64, 16) }
        Val { k: (T_PTR << TAG_SH) | a.alloc, tab: a.abs, src: if a.abs != 0 { 0 } else { a.off as u64 } }
    }
    pub fn index(&mut self, a: Addr, i: Val, stride: u64) -> Addr {
        if let Some(c) = self.d.is_const(i) { return self.shift(a, (c as i64).wrapping_mul(stride as i64)) }
        self.rep.index_sites.insert(self.cur_span);
        if !i.is_int() { self.unsup("index is not an integer"); return a }
        let av = *self.d.av(i);
        if av.taint & self.cfg.secret != 0 { self.ct_at("secret-dependent address", "index depends on secret data") }
        let (lo, hi) = (av.ulo.min(1 << 40) as i64, av.uhi.min(1 << 40) as i64);
        let (l0, h0, s0) = if a.abs != 0 { self.abs[a.abs as usize] } else { (a.off, a.off, 0) };
        let st = gcd(s0, stride as i64);
        self.abs.push((l0 + lo * stride as i64, h0 + hi * stride as i64, st));
        Addr { abs: (self.abs.len() - 1) as u32, ..a }
    }
    #[inline]
    pub fn scalar(&mut self, st: &State, frame: u32, o: &Operand) -> Val {
        match o {
            Operand::Copy(p) => {
                if p.steps.is_empty() {
                    if let Some(Some(al)) = st.allocs.get(frame as usize) {
                        let b = p.base as usize;
                        if al.sz[b] as u64 == p.info.size { return al.vals[b] }
                    }
                }
                let a = self.addr(st, frame, p);
                self.rep.mem_accesses += 1;
                let v = self.read(st, a, p.info.size);
                if v == Val::UNINIT { return self.uninit_read(p.info) }
                v
            }
            Operand::Const(v, _) => *v,
            Operand::Mem(m, t) => { let a = self.global_const(*m); self.read(st, Addr::at(a, 0), t.size) }
            Operand::Zst(_) => Val::UNINIT,
        }
    }
    fn uninit_read(&mut self, info: TyInfo) -> Val {
        match info.kind {
            Kind::Int { w, .. } => { self.unsup("read of an unknown value"); let t = self.cfg.secret; self.d.fresh(AVal::top(w, t)) }
            Kind::Bool => { self.unsup("read of an unknown value"); let t = self.cfg.secret; self.d.fresh(AVal::urange(8, 0, 1, t)) }
            _ => Val::UNINIT,
        }
    }
    pub fn store_operand(&mut self, st: &mut State, frame: u32, o: &Operand, dst: Addr) {
        let info = o.info();
        if info.size == 0 { return }
        match o {
            Operand::Const(v, _) => self.write(st, dst, info.size, *v),
            Operand::Copy(p) => {
                let a = self.addr(st, frame, p);
                if info.is_scalar() {
                    let v = self.read(st, a, info.size);
                    self.write(st, dst, info.size, v);
                } else { self.copy(st, dst, a, info.size) }
            }
            Operand::Mem(m, _) => { let a = self.global_const(*m); self.copy(st, dst, Addr::at(a, 0), info.size) }
            Operand::Zst(_) => {}
        }
    }
    /// Arithmetic where an operand may be a pointer held in an integer slot.
    pub fn arith(&mut self, op: Op, x: Val, y: Val) -> Val {
        if x.is_int() && y.is_int() { return self.d.bin(op, x, y) }
        if x.is_ptr() && y.is_ptr() && x.idx() == y.idx() && x.tab == 0 && y.tab == 0 {
            let (a, b) = (x.src, y.src);
            let w = 64;
            match op {
                Op::Sub | Op::SubC | Op::SubCS => return self.d.cst(64, a.wrapping_sub(b) as u128),
                _ => {
                    if is_cmp(op) {
                        let base = 1u128 << 40;
                        let r = conc(op, w, base.wrapping_add(a as i64 as u128) & mask(64), base.wrapping_add(b as i64 as u128) & mask(64));
                        return self.d.cst(8, r);
                    }
                }
            }
        }
        if x.is_ptr() && y.is_int() {
            if let Some(c) = self.d.is_const(y) {
                match op {
                    Op::Add | Op::AddC => return Val { src: x.src.wrapping_add(c as u64), ..x },
                    Op::Sub | Op::SubC => return Val { src: x.src.wrapping_sub(c as u64), ..x },
                    Op::And if c < 16 => return self.d.cst(64, (x.src as u128) & c),
                    Op::Eq => { if c < 4096 { return self.d.cst(8, 0) } }
                    Op::Ne => { if c < 4096 { return self.d.cst(8, 1) } }
                    _ => {}
                }
            }
        }
        if y.is_ptr() && x.is_int() && matches!(op, Op::Eq | Op::Ne) { return self.arith(op, y, x) }
        if x.is_ptr() && y.is_ptr() && x.idx() != y.idx() {
            match op { Op::Eq => return self.d.cst(8, 0), Op::Ne => return self.d.cst(8, 1), _ => {} }
        }
        if x.tag() == T_FN && y.is_int() { match op { Op::Eq => return self.d.cst(8, 0), Op::Ne => return self.d.cst(8, 1), _ => {} } }
        if !(x.is_int() && y.is_int()) && !x.is_ptr() && !y.is_ptr() && x != Val::opq(0) && y != Val::opq(0) { self.unsup("arithmetic on unknown value") }
        let t = if x == Val::UNINIT || y == Val::UNINIT { self.cfg.secret } else { 0 } | self.d.taint(x) | self.d.taint(y);
        if is_cmp(op) { self.d.fresh(AVal::urange(8, 0, 1, t)) } else {
            let w = if x.is_int() { self.d.av(x).w } else if y.is_int() { self.d.av(y).w } else { 64 };
            self.d.fresh(AVal::top(resw(op, w), t))
        }
    }
    fn divcheck(&mut self, op: Op, x: Val, y: Val) {
        if matches!(op, Op::DivU | Op::DivS | Op::RemU | Op::RemS) {
            let t = self.d.taint(x) | self.d.taint(y);
            if t & self.cfg.secret != 0 {
                let pow2 = matches!(self.d.is_const(y), Some(c) if c.is_power_of_two());
                if !pow2 { self.ct_at("secret-dependent division", "operand of a division or remainder depends on secret data") }
            }
        }
    }

    // ---------- statements ----------
    fn assign(&mut self, st: &mut State, frame: u32, p: &Place, rv: &Rv) {
        match rv {
            Rv::Use(o) => {
                if p.steps.is_empty() { self.store_operand(st, frame, o, Addr::at(frame, p.base as i64)) } else { let a = self.addr(st, frame, p); self.rep.mem_accesses += 1; self.store_operand(st, frame, o, a) }
            }
            Rv::Bin(op, a, b) => {
                let x = self.scalar(st, frame, a);
                let mut y = self.scalar(st, frame, b);
                if matches!(op, Op::Shl | Op::ShrU | Op::ShrS) && x.is_int() && y.is_int() { y = self.shift_amount(x, y) }
                self.divcheck(*op, x, y);
                let r = self.arith(*op, x, y);
                self.put(st, frame, p, r);
            }
            Rv::Checked(vop, oop, a, b, off) => {
                let x = self.scalar(st, frame, a);
                let y = self.scalar(st, frame, b);
                let r = self.arith(*vop, x, y);
                let o = self.arith(*oop, x, y);
                let ad = self.addr(st, frame, p);
                let w = a.info().size;
                self.write(st, ad, w, r);
                let ad2 = self.shift(ad, *off as i64);
                self.write(st, ad2, 1, o);
            }
            Rv::Un(op, a) => { let x = self.scalar(st, frame, a); let r = if x.is_int() { self.d.un(*op, x) } else { self.arith(*op, x, x) }; self.put(st, frame, p, r) }
            Rv::CastInt(op, a) => {
                let x = self.scalar(st, frame, a);
                let r = if x.is_int() { self.d.un(*op, x) } else if x.is_ptr() && *op == Op::Zx64 { x } else { self.arith(*op, x, x) };
                self.put(st, frame, p, r)
            }
            Rv::Cmp3(a, b, signed) => {
                let x = self.scalar(st, frame, a);
                let y = self.scalar(st, frame, b);
                let lt = self.arith(if *signed { Op::LtS } else { Op::LtU }, x, y);
                let gt = self.arith(if *signed { Op::LtS } else { Op::LtU }, y, x);
                let mut r = self.arith(Op::Sub, gt, lt);
                if x.is_int() && y.is_int() && self.d.is_const(r).is_none() && matches!(&self.d.sym, Some(s) if !s.order) {
                    let e = self.d.bin(Op::Eq, x, y);
                    if let Some(z) = crate::sym::with(&mut self.d, |s, d| s.order_word(d, e, 8, x, y)) { r = z }
                }
                self.put(st, frame, p, r)
            }
            Rv::PtrBin(op, a, b, sz) => {
                let y = self.scalar(st, frame, b);
                if *op == BinOp::Offset {
                    let x = self.scalar(st, frame, a);
                    let r = self.ptr_offset(x, y, *sz);
                    self.put(st, frame, p, r);
                    return;
                }
                let x = self.scalar(st, frame, a);
                if a.info().size == 16 { self.unsup("wide pointer comparison"); }
                let o = match op { BinOp::Eq => Op::Eq, BinOp::Ne => Op::Ne, BinOp::Lt => Op::LtU, BinOp::Le => Op::LeU, BinOp::Gt => Op::LtU, BinOp::Ge => Op::LeU, _ => { self.unsup("pointer operation"); Op::Eq } };
                let (x, y) = if matches!(op, BinOp::Gt | BinOp::Ge) { (y, x) } else { (x, y) };
                let r = self.arith(o, x, y);
                self.put(st, frame, p, r)
            }
            Rv::PtrMeta(o) => {
                let v = match o { Operand::Copy(pl) => { let a = self.addr(st, frame, pl); let b = self.shift(a, 8); self.read(st, b, 8) } Operand::Mem(m, _) => { let a = self.global_const(*m); self.read(st, Addr::at(a, 8), 8) } _ => Val::UNINIT };
                self.put(st, frame, p, v)
            }
            Rv::Ref(pl) => {
                let a = self.addr(st, frame, pl);
                let v = self.ptr_of(a);
                let dst = self.addr(st, frame, p);
                self.write(st, dst, 8, v);
                if p.info.size == 16 { let d2 = self.shift(dst, 8); self.write(st, d2, 8, a.meta) }
            }
            Rv::Bits(o) => { let dst = self.addr(st, frame, p); self.store_bits(st, frame, o, dst, p.info.size) }
            Rv::FatToThin(o) => {
                let v = match o { Operand::Copy(pl) => { let a = self.addr(st, frame, pl); self.read(st, a, 8) } Operand::Mem(m, _) => { let a = self.global_const(*m); self.read(st, Addr::at(a, 0), 8) } _ => Val::UNINIT };
                self.put(st, frame, p, v)
            }
            Rv::PtrToInt(o) | Rv::IntToPtr(o) => { let v = self.scalar(st, frame, o); self.put(st, frame, p, v) }
            Rv::Unsize { op, len, vtable } => {
                let dst = self.addr(st, frame, p);
                self.store_bits(st, frame, op, dst, 8);
                let m = match (len, vtable) {
                    (Some(n), _) => self.d.cst(64, *n as u128),
                    (_, Some((t, _))) => { let n = format!("{:?}", t.kind()); self.opq(Opaque::VTable(n, Some(*t))) }
                    _ => Val::UNINIT,
                };
                let d2 = self.shift(dst, 8);
                self.write(st, d2, 8, m);
            }
            Rv::FnPtr(c) => { let v = Val::func(*c); self.put(st, frame, p, v) }
            Rv::Discr(pl, e) => { let a = self.addr(st, frame, pl); let v = self.read_discr(st, a, e); let w = p.info.w(); let v = if self.d.av(v).w != w { self.d.un(zx(w), v) } else { v }; self.put(st, frame, p, v) }
            Rv::Repeat(o, n, sz) => {
                let dst = self.addr(st, frame, p);
                let total = n * sz;
                if *sz == 0 || *n == 0 { return }
                if o.info().is_scalar() && dst.abs == 0 && dst.alloc & GLOBAL == 0 {
                    let v = self.scalar(st, frame, o);
                    self.write(st, dst, *sz, v);
                    self.split(st, dst.alloc, (dst.off as u64 + total) as usize);
                    if let Some(Some(rc)) = st.allocs.get_mut(dst.alloc as usize) {
                        let al = Rc::make_mut(rc);
                        let b = dst.off as usize;
                        for i in 0..*n as usize {
                            for j in 0..*sz as usize { al.sz[b + i * *sz as usize + j] = 0 }
                            al.sz[b + i * *sz as usize] = *sz as u8;
                            al.vals[b + i * *sz as usize] = v;
                        }
                    }
                } else {
                    for i in 0..*n { let a = self.shift(dst, (i * sz) as i64); self.store_operand(st, frame, o, a) }
                }
            }
            Rv::Agg(fields, tag) => {
                // operands may alias the destination: stage when necessary
                let dst = self.addr(st, frame, p);
                if fields.len() > 1 && fields.iter().any(|(_, o)| matches!(o, Operand::Copy(q) if !q.steps.is_empty() || (q.base as u64 >= p.base as u64 && (q.base as u64) < p.base as u64 + p.info.size))) && p.info.size > 0 {
                    let tmp = st.alloc(Alloc::new(p.info.size as usize + 16, "tmp"));
                    for (o, x) in fields { self.store_operand(st, frame, x, Addr::at(tmp, *o as i64)) }
                    for (o, x) in fields { let s = x.info().size; let a = self.shift(dst, *o as i64); self.copy(st, a, Addr::at(tmp, *o as i64), s) }
                    st.allocs[tmp as usize] = None;
                    st.free.push(tmp);
                } else {
                    for (o, x) in fields { let a = self.shift(dst, *o as i64); self.store_operand(st, frame, x, a) }
                }
                if let Some((e, v)) = tag { self.write_discr(st, dst, e, *v) }
            }
            Rv::Unsupported(s) => { let s = s.clone(); self.unsup(&format!("unsupported construct: {}", s)); let dst = self.addr(st, frame, p); if p.info.is_scalar() { let w = p.info.w(); let t = self.cfg.secret; let v = self.d.fresh(AVal::top(w, t)); self.write(st, dst, p.info.size, v) } }
        }
    }
    pub fn shift_amount(&mut self, x: Val, y: Val) -> Val {
        // MIR shifts take the amount modulo the operand width
        let w = self.d.av(x).w;
        let yw = self.d.av(y).w;
        if let Some(c) = self.d.is_const(y) { return self.d.cst(w, c % w as u128) }
        let k = self.d.cst(yw, (w - 1) as u128);
        let m = self.d.bin(Op::And, y, k);
        if yw != w { self.d.un(zx(w), m) } else { m }
    }
    pub fn ptr_offset(&mut self, x: Val, y: Val, sz: u64) -> Val {
        if x.is_ptr() {
            if let Some(c) = self.d.is_const(y) {
                let o = (c as i64).wrapping_mul(sz as i64);
                if x.tab == 0 { return Val { src: (x.src as i64).wrapping_add(o) as u64, ..x } }
                let a = self.deref(x, Val::UNINIT);
                let a = self.shift(a, o);
                return self.ptr_of(a);
            }
            let a = self.deref(x, Val::UNINIT);
            let a = self.index(a, y, sz);
            return self.ptr_of(a);
        }
        if x.is_int() && sz == 0 { return x }
        if x.is_int() { let k = self.d.cst(64, sz as u128); let o = self.arith(Op::Mul, y, k); return self.arith(Op::Add, x, o) }
        self.unsup("offset of an unknown pointer");
        x
    }
    pub fn store_bits(&mut self, st: &mut State, frame: u32, o: &Operand, dst: Addr, size: u64) {
        match o {
            Operand::Const(v, _) => self.write(st, dst, size, *v),
            Operand::Copy(p) => { let a = self.addr(st, frame, p); self.copy(st, dst, a, size) }
            Operand::Mem(m, _) => { let a = self.global_const(*m); self.copy(st, dst, Addr::at(a, 0), size) }
            Operand::Zst(_) => {}
        }
    }
    #[inline]
    pub fn put(&mut self, st: &mut State, frame: u32, p: &Place, v: Val) {
        let a = self.addr(st, frame, p);
        if !p.steps.is_empty() { self.rep.mem_accesses += 1 }
        self.write(st, a, p.info.size, v)
    }
    pub fn read_discr(&mut self, st: &State, a: Addr, e: &EnumInfo) -> Val {
        if let Some(s) = e.single { let x = e.discr.get(s).copied().unwrap_or(0); return self.d.cst(e.discr_w, x) }
        let ta = self.shift(a, e.tag_off as i64);
        let tag = self.read(st, ta, e.tag_w as u64 / 8);
        match e.niche {
            None => {
                if !tag.is_int() { self.unsup("unknown enum tag"); let t = self.cfg.secret; return self.d.fresh(AVal::urange(e.discr_w, 0, e.discr.len() as u128 - 1, t)) }
                if let Some(c) = self.d.is_const(tag) { return self.d.cst(e.discr_w, c) }
                // signed discriminants (Ordering) keep their bit pattern
                let w = e.discr_w;
                if self.d.av(tag).w == w { return tag }
                let neg = e.discr.iter().any(|x| sext(*x, w.max(8)) < 0);
                if neg { self.d.un(sx(w), tag) } else { self.d.un(zx(w), tag) }
            }
            Some((untagged, first, last, start)) => {
                let unknown = |s: &mut Self, t: u64| s.d.fresh(AVal::urange(e.discr_w, 0, e.discr.iter().max().copied().unwrap_or(1), t));
                if tag.is_ptr() || tag.tag() == T_FN || (tag.tag() == T_OPQ && tag.idx() != 0) {
                    let x = e.discr[untagged];
                    return self.d.cst(e.discr_w, x);
                }
                if !tag.is_int() { if tag != Val::opq(0) { self.unsup("unknown niche tag") } let t = if tag == Val::UNINIT { self.cfg.secret } else { st.ctl }; return unknown(self, t) }
                let rel = self.d.cst(e.tag_w, start);
                let rel = self.d.bin(Op::Sub, tag, rel);
                match self.d.is_const(rel) {
                    Some(r) => {
                        let v = if r <= (last - first) as u128 { first + r as usize } else { untagged };
                        let x = e.discr[v];
                        self.d.cst(e.discr_w, x)
                    }
                    None => { let t = self.d.taint(tag); let a = *self.d.av(rel); if a.ulo > (last - first) as u128 { let x = e.discr[untagged]; return self.d.cst(e.discr_w, x) } unknown(self, t) }
                }
            }
        }
    }
    pub fn write_discr(&mut self, st: &mut State, a: Addr, e: &EnumInfo, v: usize) {
        if e.single.is_some() { return }
        let ta = self.shift(a, e.tag_off as i64);
        match e.niche {
            None => { let x = self.d.cst(e.tag_w, e.discr[v]); self.write(st, ta, e.tag_w as u64 / 8, x) }
            Some((untagged, first, _, start)) => {
                if v != untagged { let x = self.d.cst(e.tag_w, start.wrapping_add((v - first) as u128)); self.write(st, ta, e.tag_w as u64 / 8, x) }
            }
        }
    }

    // ---------- control ----------
    pub fn new_frame(&mut self, st: &mut State, size: usize) -> u32 {
        let mut a = match self.pool.pop() { Some(a) => a, None => Alloc::new(0, "frame") };
        a.sz.clear();
        a.sz.resize(size, 0);
        if a.vals.len() < size { a.vals.resize(size, Val::UNINIT) } else { a.vals.truncate(size) }
        a.ro = false;
        a.name = "frame";
        st.alloc(a)
    }
    pub fn drop_frame(&mut self, st: &mut State, f: u32) {
        if let Some(rc) = st.allocs[f as usize].take() {
            if let Ok(a) = Rc::try_unwrap(rc) { if self.pool.len() < 64 { self.pool.push(a) } }
            st.free.push(f);
        }
    }
    /// Runs a function body whose frame (with arguments) is ready. Returns the joined return state.
    pub fn run_func(&mut self, st: State, f: &Rc<Func>, frame: u32) -> Option<State> {
        self.rep.calls += 1;
        if !self.rep.funcs.contains(&f.name) {
            self.rep.funcs.insert(f.name.clone());
            if f.local { self.rep.local_funcs.insert(f.name.clone()); }
        }
        let span = self.cur_span;
        self.stack.push((f.clone(), span));
        if self.stack.len() > 400 { self.unsup("call depth"); self.stack.pop(); return None }
        let rs = self.region(st, f, frame, 0, &[]);
        self.stack.pop();
        self.cur_span = span;
        let mut acc: Option<State> = None;
        let t = rs.iter().fold(0, |t, r| t | r.1.ctl);
        for (_, s) in rs { acc = Some(match acc { None => s, Some(a) => self.join_states(a, &s, t) }) }
        acc
    }
    fn region(&mut self, mut st: State, f: &Rc<Func>, frame: u32, start: usize, stops: &[usize]) -> Res {
        let mut bb = start;
        let mut first = true;
        let mut out: Res = vec![];
        loop {
            if !first && stops.contains(&bb) { out.push((bb, st)); return out }
            first = false;
            if self.d.fin.as_ref().map_or(false, |s| s.wait > 0) { let (outer, alone) = (self.loops == 0 && f.cyc[bb] & 2 != 0, self.unroll == 0); crate::fin::with(&mut self.d, |s, d| s.sync(d, &mut st.allocs, outer, alone)) }
            if self.d.fin.is_some() && f.cyc[bb] & 2 != 0 && self.loops == 0 && self.unroll == 0 { crate::fin::with(&mut self.d, |s, _| s.tidy(&mut st.allocs)) }
            let blk = &f.blocks[bb];
            for s in &blk.stmts {
                self.rep.steps += 1;
                match s {
                    Stmt::Assign(p, rv, sp) => { if f.local { self.cur_span = *sp } self.assign(&mut st, frame, p, rv) }
                    Stmt::SetDiscr(p, e, v) => { let a = self.addr(&st, frame, p); self.write_discr(&mut st, a, e, *v) }
                    Stmt::CopyNonOverlapping { src, dst, count, elem } => {
                        let s = self.scalar(&st, frame, src);
                        let d = self.scalar(&st, frame, dst);
                        let c = self.scalar(&st, frame, count);
                        self.memcpy(&mut st, d, s, c, *elem);
                    }
                    Stmt::Word(op, os, signed, sp) => { if f.local { self.cur_span = *sp } self.word_check(&st, frame, *op, os, *signed) }
                    Stmt::Nop => {}
                }
            }
            self.rep.steps += 1;
            if self.rep.steps > self.cfg.max_steps { self.unsup("step budget exhausted"); return out }
            self.cur_span = blk.span;
            match &blk.term {
                Term::Goto(t) => bb = *t,
                Term::Return => { out.push((RET, st)); return out }
                Term::Unreachable | Term::Diverge => return out,
                Term::Asm => { self.unsup("inline assembly"); return out }
                Term::Assert { cond, expected, kind, target } => {
                    self.rep.asserts += 1;
                    if f.local { self.rep.assert_sites.insert(blk.span); }
                    let c = self.scalar(&st, frame, cond);
                    match self.decided(&st, c) {
                        Some(x) if (x != 0) == *expected => { self.rep.asserts_proved += 1 }
                        Some(_) => { self.assert_fail(kind, true); return out }
                        None => self.assert_fail(kind, false),
                    }
                    bb = *target;
                }
                Term::Drop { place, callee, target } => {
                    if let Some(c) = callee { let a = self.addr(&st, frame, place); self.do_drop(&mut st, *c, a) }
                    bb = *target;
                }
                Term::Call { callee, args, dst, target } => {
                    let c = match callee {
                        Callee::Static(c) => *c,
                        Callee::Ptr(o) => {
                            let v = self.scalar(&st, frame, o);
                            if v.tag() == T_FN { v.idx() } else { self.unsup("call through unknown pointer"); return out }
                        }
                    };
                    self.via_ptr = matches!(callee, Callee::Ptr(_));
                    let lp = (f.cyc[bb] & 1) as u32;
                    self.loops += lp;
                    let r = self.call(st, frame, c, args, dst, blk.span);
                    self.loops -= lp;
                    match r {
                        Some(s) => st = s,
                        None => return out,
                    }
                    match target { Some(t) => bb = *t, None => return out }
                }
                Term::Switch { op, targets, otherwise } => {
                    self.rep.branches += 1;
                    let v = self.scalar(&st, frame, op);
                    if let Some(c) = self.decided(&st, v) {
                        bb = *otherwise;
                        for (x, t) in targets { if *x == c { bb = *t; break } }
                        continue;
                    }
                    if f.local { self.rep.branch_sites.insert(blk.span); }
                    self.rep.undecided += 1;
                    let t = self.d.taint(v) | if v == Val::UNINIT { self.cfg.secret } else { 0 };
                    if t & self.cfg.secret != 0 { self.ct_at("secret-dependent branch", "branch condition depends on secret data") }
                    // undecided branch
                    let h = bb;
                    let ip = f.ipdom[bb];
                    let mut inner: Vec<usize> = stops.to_vec();
                    if let Some(i) = ip { if !inner.contains(&i) { inner.push(i) } }
                    // repeated tests of one loop are kept apart up to a fixed nesting depth
                    let words = self.d.sym.is_some() || self.d.fin.is_some();
                    let apart = self.unroll < 64 && ip.is_some();
                    if !apart && !inner.contains(&h) { inner.push(h) }
                    let mut at_ip: Option<State> = None;
                    let mut sides: Vec<(usize, State)> = vec![];
                    let mut guards: Vec<(usize, u32)> = vec![];
                    let mut rets: Vec<State> = vec![];
                    let mut others: Res = vec![];
                    let mut cur = st;
                    let mut vcur = v;
                    let mut tt = t;
                    let mut iter = 0u32;
                    let mut prev_head: Option<State> = None;
                    let outer_ctl = cur.ctl;
                    let outer_assume = cur.assume.clone();
                    loop {
                        // feasible targets
                        let mut tg: Vec<usize> = vec![];
                        if vcur.is_int() {
                            let av = *self.d.av(vcur);
                            let vals = if self.d.sym.is_some() { crate::sym::with(&mut self.d, |s, d| s.values(d, vcur)) } else if self.d.fin.is_some() { crate::fin::with(&mut self.d, |s, d| s.values(d, vcur)) } else { self.d.tab_of(vcur).map(|t| self.d.tabs[t as usize].outs.clone()) };
                            for (x, t) in targets {
                                let possible = match &vals { Some(o) => o.contains(&(*x as u64)), None => *x >= av.ulo && *x <= av.uhi && (*x & av.kz) == 0 && (*x & av.ko) == av.ko };
                                if possible && !tg.contains(t) { tg.push(*t) }
                            }
                            let covered = match &vals { Some(o) => o.iter().all(|y| targets.iter().any(|(x, _)| *x as u64 == *y)), None => av.count() <= 64 && av.uhi - av.ulo < 64 && (av.ulo..=av.uhi).all(|y| targets.iter().any(|(x, _)| *x == y)) };
                            if !covered && !tg.contains(otherwise) { tg.push(*otherwise) }
                        } else {
                            for (_, t) in targets { if !tg.contains(t) { tg.push(*t) } }
                            if !tg.contains(otherwise) { tg.push(*otherwise) }
                        }
                        let mut back: Option<State> = None;
                        if apart && words { let tt = |v: u64| targets.iter().find(|(x, _)| *x as u64 == v).map(|(_, t)| *t).unwrap_or(*otherwise); guards = if vcur.is_int() && self.d.fin.is_some() { crate::fin::with(&mut self.d, |s, d| s.switch_guards(d, vcur, &tg, &tt)) } else if vcur.is_int() { crate::sym::with(&mut self.d, |s, d| s.switch_guards(d, vcur, &tg, &tt)) } else { vec![] } }
                        if apart { self.unroll += 1 }
                        for t in tg {
                            let mut s = cur.clone();
                            s.ctl |= tt;
                            if !words { self.suppose(&mut s, vcur, &|v| targets.iter().find(|(x, _)| *x as u64 == v).map(|(_, t)| *t).unwrap_or(*otherwise) == t) }
                            if !words {
                                let at = |v: u128| targets.iter().find(|(x, _)| *x == v).map(|(_, t)| *t).unwrap_or(*otherwise);
                                if at(0) != at(1) { self.narrow(&mut s, frame, blk, t == at(1)) }
                            }
                            let rs = if Some(t) == ip || inner.contains(&t) { vec![(t, s)] } else { self.region(s, f, frame, t, &inner) };
                            for (stop, s) in rs {
                                if Some(stop) == ip && apart { match sides.iter_mut().find(|x| x.0 == t) { Some(x) => { let o = std::mem::replace(&mut x.1, State::new()); x.1 = self.join_states(o, &s, tt) } None => sides.push((t, s)) } }
                                else if Some(stop) == ip { at_ip = Some(match at_ip { None => s, Some(a) => self.join_states(a, &s, tt) }) }
                                else if stop == h { back = Some(match back { None => s, Some(a) => self.join_states(a, &s, tt) }) }
                                else if stop == RET { rets.push(s) }
                                else { others.push((stop, s)) }
                            }
                        }
                        if apart { self.unroll -= 1 }
                        let Some(mut b) = back else { break };
                        b.assume = outer_assume.clone();
                        iter += 1;
                        if let Some(ph) = &prev_head { if self.same_state(ph, &b) { self.cur_span = blk.span; self.panic_at("loop that may not end", "whether the loop ends depends on data, and it can be repeated without any progress towards an end"); break } }
                        if iter > 2000 {
                            let ph = prev_head.take().unwrap();
                            let j = self.join_states(ph.clone(), &b, tt);
                            b = self.widen_state(&ph, j);
                            if iter > 2100 { self.unsup("loop did not stabilise"); break }
                        }
                        prev_head = Some(b.clone());
                        // re-execute the head block up to its switch
                        let rs = self.head_again(b, f, frame, h);
                        match rs { Some((s, v2)) => { cur = s; tt |= self.d.taint(v2); vcur = v2; if let Some(_) = self.d.is_const(v2) {} } None => break }
                    }
                    if apart {
                        // guarded merge: side selected by its test, the last one otherwise
                        let saved = self.join_guard.take();
                        let mut acc: Option<State> = None;
                        if guards.len() + 1 >= sides.len() && !guards.is_empty() {
                            let order: Vec<usize> = guards.iter().map(|g| g.0).collect();
                            sides.sort_by_key(|s| std::cmp::Reverse(order.iter().position(|t| *t == s.0).unwrap_or(usize::MAX)));
                            for (t, s) in sides { acc = Some(match acc { None => s, Some(a) => match guards.iter().find(|g| g.0 == t) { Some(g) => { self.join_guard = Some(g.1); let r = self.join_states(s, &a, 0); self.join_guard = None; r } None => self.join_states(s, &a, 0) } }) }
                        } else { let t = if words { 0 } else { tt }; for (_, s) in sides { acc = Some(match acc { None => s, Some(a) => self.join_states(a, &s, t) }) } }
                        self.join_guard = saved;
                        at_ip = acc;
                    }
                    out.extend(others);
                    for r in rets { out.push((RET, r)) }
                    match (ip, at_ip) {
                        (Some(i), Some(mut s)) => { s.ctl = outer_ctl; s.assume = outer_assume; st = s; bb = i; if stops.contains(&bb) { out.push((bb, st)); return out } }
                        _ => return out,
                    }
                    first = false;
                    continue;
                }
            }
        }
    }
    /// The constant a word is on this path.
    fn decided(&mut self, st: &State, v: Val) -> Option<u128> {
        if let Some(c) = self.d.is_const(v) { return Some(c) }
        if st.assume.is_empty() || !v.is_int() { return None }
        let t = self.d.tab_of(v)?;
        let t = &self.d.tabs[t as usize];
        let mut r = None;
        for (i, o) in t.outs.iter().enumerate() {
            if st.assume.iter().any(|(s, b, ok)| *s == v.src && *b == t.base && !ok[i]) { continue }
            match r { None => r = Some(*o), Some(p) => if p != *o { return None } }
        }
        r.map(|x| x as u128)
    }
    /// Narrows the bounds of a word that the branch at the end of the block compared with a constant.
    fn narrow(&mut self, st: &mut State, frame: u32, blk: &Block, holds: bool) {
        let Term::Switch { op: Operand::Copy(c), .. } = &blk.term else { return };
        if !c.steps.is_empty() { return }
        let last = |base: u32, end: usize| blk.stmts[..end].iter().enumerate().rev().find_map(|(i, s)| match s { Stmt::Assign(p, rv, _) if p.base == base => Some((i, p.steps.is_empty(), rv)), Stmt::SetDiscr(p, ..) if p.base == base => None, _ => None });
        let Some((n, true, Rv::Bin(op, x, y))) = last(c.base, blk.stmts.len()) else { return };
        let (op, p, k, left) = match (x, y) {
            (Operand::Copy(p), Operand::Const(k, _)) => (*op, p, *k, true),
            (Operand::Const(k, _), Operand::Copy(p)) => (*op, p, *k, false),
            _ => return,
        };
        let Some(k) = self.d.is_const(k) else { return };
        // the word compared and the place it was copied from
        let mut places = vec![p.clone()];
        if p.steps.is_empty() {
            if let Some((i, true, Rv::Use(Operand::Copy(q)))) = last(p.base, n) {
                if blk.stmts[i + 1..].iter().all(|s| !matches!(s, Stmt::Assign(z, ..) | Stmt::SetDiscr(z, ..) if z.base == q.base || !z.steps.is_empty())) { places.push(q.clone()) }
            }
        }
        let a = self.addr(st, frame, p);
        if a.abs != 0 { return }
        let v = self.read(st, a, p.info.size);
        if !v.is_int() || self.d.is_const(v).is_some() || self.d.tab_of(v).is_some() { return }
        let mut av = *self.d.av(v);
        let w = av.w;
        let sk = sext(k, w);
        match (op, left, holds) {
            (Op::Eq, _, true) | (Op::Ne, _, false) => { av.ulo = av.ulo.max(k); av.uhi = av.uhi.min(k) }
            (Op::Eq, _, false) | (Op::Ne, _, true) => {
                if av.ulo == k && k < mask(w) { av.ulo = k + 1 } else if av.uhi == k && k > 0 { av.uhi = k - 1 }
                if av.slo == sk { av.slo += 1 } else if av.shi == sk { av.shi -= 1 }
            }
            (Op::LtU, true, true) | (Op::LeU, false, false) => { if k == 0 { return } av.uhi = av.uhi.min(k - 1) }
            (Op::LeU, true, true) | (Op::LtU, false, false) => av.uhi = av.uhi.min(k),
            (Op::LtU, false, true) | (Op::LeU, true, false) => { if k == mask(w) { return } av.ulo = av.ulo.max(k + 1) }
            (Op::LeU, false, true) | (Op::LtU, true, false) => av.ulo = av.ulo.max(k),
            (Op::LtS, true, true) | (Op::LeS, false, false) => { if w == 128 { return } av.shi = av.shi.min(sk - 1) }
            (Op::LeS, true, true) | (Op::LtS, false, false) => av.shi = av.shi.min(sk),
            (Op::LtS, false, true) | (Op::LeS, true, false) => { if w == 128 { return } av.slo = av.slo.max(sk + 1) }
            (Op::LeS, false, true) | (Op::LtS, true, false) => av.slo = av.slo.max(sk),
            _ => return,
        }
        if av.ulo > av.uhi || av.slo > av.shi { return }
        let av = av.norm();
        if av.ulo > av.uhi || av.slo > av.shi { return }
        let k = self.d.intern(av);
        for q in places {
            let b = self.addr(st, frame, &q);
            if b.abs != 0 || self.read(st, b, q.info.size) != v { continue }
            self.write(st, b, q.info.size, Val { k, ..v });
        }
    }
    /// Records that a word satisfies a condition on this path.
    fn suppose(&mut self, st: &mut State, v: Val, cond: &dyn Fn(u64) -> bool) {
        if !v.is_int() || self.d.is_const(v).is_some() { return }
        let Some(t) = self.d.tab_of(v) else { return };
        let t = &self.d.tabs[t as usize];
        st.assume.push((v.src, t.base, Rc::new(t.outs.iter().map(|o| cond(*o)).collect())));
    }
    /// A pointer-sized word whose full value matters must have that value on 32-bit machines as well.
    fn word_check(&mut self, st: &State, frame: u32, op: Option<Op>, os: &[Operand], signed: bool) {
        if self.d.sym.is_some() || self.d.fin.is_some() { return }
        self.rep.words += 1;
        let fits = |a: &AVal| if signed { a.slo >= i32::MIN as i128 && a.shi <= i32::MAX as i128 } else { a.uhi <= u32::MAX as u128 };
        let mut vs = vec![];
        for o in os { let v = self.scalar(st, frame, o); if !v.is_int() { return } vs.push(v) }
        let mut bad = None;
        // the largest and the smallest word serve as marks on any machine
        let mark = |a: &AVal| os.len() == 2 && if signed { a.slo == a.shi && (a.slo == i64::MIN as i128 || a.slo == i64::MAX as i128) } else { a.ulo == u64::MAX as u128 };
        for v in &vs { let a = *self.d.av(*v); if !fits(&a) && !mark(&a) { bad = Some(a) } }
        if let (None, Some(op), [x, y]) = (bad, op, &vs[..]) { let k = self.d.range_op(op, x.k, y.k); let a = *self.d.get(k); if !fits(&a) { bad = Some(a) } }
        if let Some(a) = bad {
            let (k, f) = self.finding("word size observed", &format!("a pointer-sized word that may be {} is used where its value differs on 32-bit machines", if signed { a.shi } else { a.uhi as i128 }));
            Self::add(&mut self.rep.wide, k, f)
        }
    }
    fn head_again(&mut self, mut st: State, f: &Rc<Func>, frame: u32, h: usize) -> Option<(State, Val)> {
        let blk = &f.blocks[h];
        for s in &blk.stmts {
            self.rep.steps += 1;
            match s {
                Stmt::Assign(p, rv, sp) => { if f.local { self.cur_span = *sp } self.assign(&mut st, frame, p, rv) }
                Stmt::SetDiscr(p, e, v) => { let a = self.addr(&st, frame, p); self.write_discr(&mut st, a, e, *v) }
                _ => {}
            }
        }
        self.cur_span = blk.span;
        if let Term::Switch { op, .. } = &blk.term { let v = self.scalar(&st, frame, op); Some((st, v)) } else { None }
    }
    fn assert_fail(&mut self, kind: &AssertKind, definite: bool) {
        let d = if definite { "always fails here" } else { "cannot be excluded for some input" };
        match kind {
            AssertKind::Bounds => self.panic_at("index out of bounds", &format!("bounds check {}", d)),
            AssertKind::Overflow(o) => self.panic_at("arithmetic overflow", &format!("overflow check on {} {}", o, d)),
            AssertKind::DivZero => self.panic_at("division by zero", &format!("zero-divisor check {}", d)),
            AssertKind::Other(m) => self.panic_at("assertion", &format!("{} {}", m, d)),
        }
    }
    pub fn memcpy(&mut self, st: &mut State, d: Val, s: Val, c: Val, elem: u64) {
        if elem == 0 { return }
        let n = match self.d.is_const(c) { Some(n) => n as u64 * elem, None => { if self.d.taint(c) & self.cfg.secret != 0 { self.ct_at("secret-dependent address", "copy length depends on secret data") } self.unsup("copy of unknown length"); return } };
        if n == 0 { return }
        let (da, sa) = (self.deref(d, Val::UNINIT), self.deref(s, Val::UNINIT));
        self.copy(st, da, sa, n);
    }
    fn do_drop(&mut self, _st: &mut State, _c: u32, _a: Addr) {
        // Drop glue of library types has no effect on the analysed values; user Drop impls are listed by the effect lint.
    }
    pub fn call(&mut self, mut st: State, frame: u32, c: u32, args: &[Operand], dst: &Place, span: u32) -> Option<State> {
        let dst_addr = self.addr(&st, frame, dst);
        let c = self.devirtualize(&mut st, frame, c, args).unwrap_or(c);
        if let Disp::Range(_) = self.dispatch(c) {
            if let Operand::Copy(p) = &args[0] {
                let a = self.addr(&st, frame, p);
                if self.range_next(&mut st, c, a, dst_addr, dst.ty) { return Some(st) }
            }
        }
        // stage the arguments
        let mut offs = vec![];
        let mut o = 0u64;
        for a in args { o = (o + 15) & !15; offs.push(o); o += a.info().size }
        match self.dispatch(c) {
            Disp::Body(f) | Disp::Range(f) => {
                let nf = self.new_frame(&mut st, f.frame as usize + 16);
                if f.nargs == args.len() && f.spread.is_none() {
                    for (i, a) in args.iter().enumerate() {
                        let off = f.locals[i + 1].0 as i64;
                        self.store_arg(&mut st, frame, a, Addr::at(nf, off), f.locals[i + 1].1.size);
                    }
                } else if let Some(sp) = f.spread {
                    // callee takes the trailing arguments as one tuple local
                    for (i, a) in args.iter().enumerate().take(if self.via_ptr { 0 } else { sp - 1 }) { let off = f.locals[i + 1].0 as i64; self.store_operand(&mut st, frame, a, Addr::at(nf, off)) }
                    if self.via_ptr || args.len() + 1 == sp || args.len() > sp {
                        let first = if self.via_ptr { 0 } else { sp - 1 };
                        let tys = self.tuple_fields(f.locals[sp].2);
                        let off = f.locals[sp].0 as i64;
                        for (i, (fo, _)) in tys.iter().enumerate() { if let Some(a) = args.get(first + i) { self.store_operand(&mut st, frame, a, Addr::at(nf, off + *fo as i64)) } else { self.unsup("spread arguments") } }
                    } else if args.len() == sp { let off = f.locals[sp].0 as i64; self.store_operand(&mut st, frame, &args[sp - 1], Addr::at(nf, off)) } else { self.unsup("spread arguments") }
                } else if args.len() == 2 && f.nargs >= 1 {
                    // closure call: second argument is a tuple to be unpacked
                    let off = f.locals[1].0 as i64;
                    self.store_arg(&mut st, frame, &args[0], Addr::at(nf, off), f.locals[1].1.size);
                    if f.nargs > 1 {
                        let ti = args[1].info().size;
                        let tmp = st.alloc(Alloc::new(ti as usize + 16, "tmp"));
                        self.store_operand(&mut st, frame, &args[1], Addr::at(tmp, 0));
                        let tys: Vec<(u64, TyInfo)> = match &args[1] {
                            Operand::Copy(p) => self.tuple_fields(p.ty),
                            _ => { let mut v = vec![]; let mut o = 0; for l in &f.locals[2..=f.nargs] { v.push((o, l.1)); o += l.1.size } v }
                        };
                        for (i, (fo, inf)) in tys.iter().enumerate() {
                            let off = f.locals[i + 2].0 as i64;
                            self.copy(&mut st, Addr::at(nf, off), Addr::at(tmp, *fo as i64), inf.size);
                        }
                        st.allocs[tmp as usize] = None;
                        st.free.push(tmp);
                    }
                } else { self.unsup("argument count mismatch") }
                self.cur_span = span;
                let r = self.run_func(st, &f, nf)?;
                let mut r = r;
                self.cur_span = span;
                if f.ret.size > 0 && dst.info.size > 0 {
                    let src = Addr::at(nf, f.locals[0].0 as i64);
                    if f.ret.is_scalar() { let v = self.read(&r, src, f.ret.size); self.write(&mut r, dst_addr, f.ret.size, v) } else { self.copy(&mut r, dst_addr, src, f.ret.size) }
                }
                self.drop_frame(&mut r, nf);
                Some(r)
            }
            Disp::Model(_) => {
                let nf = self.new_frame(&mut st, o as usize + 32);
                let mut av = vec![];
                for (i, a) in args.iter().enumerate() {
                    self.store_operand(&mut st, frame, a, Addr::at(nf, offs[i] as i64));
                    av.push((Addr::at(nf, offs[i] as i64), a.info()));
                }
                self.cur_span = span;
                let mut r = self.model(st, c, &av, dst_addr, dst.info, dst.ty)?;
                self.drop_frame(&mut r, nf);
                Some(r)
            }
        }
    }
    /// The method a call through a trait object reaches, when the concrete type behind the object is known.
    fn devirtualize(&mut self, st: &mut State, frame: u32, c: u32, args: &[Operand]) -> Option<u32> {
        use rustc_public::{mir::mono::Instance, ty::{GenericArgKind, GenericArgs, RigidTy}};
        self.lo.callees[c as usize].virt?;
        if self.cfg.model_rng && matches!(self.dispatch(c), Disp::Model(crate::models::M::Rng)) { return None }
        let a = args.first().filter(|a| a.info().size == 16)?;
        let tmp = st.alloc(Alloc::new(16, "tmp"));
        self.store_operand(st, frame, a, Addr::at(tmp, 0));
        let vt = self.read(st, Addr::at(tmp, 8), 8);
        st.allocs[tmp as usize] = None;
        st.free.push(tmp);
        if vt.tag() != T_OPQ { return None }
        let Opaque::VTable(_, Some(t)) = self.opaque[vt.idx() as usize].clone() else { return None };
        let inst = self.lo.callees[c as usize].inst?;
        let Some(RigidTy::FnDef(d, ga)) = rigid(inst.ty()) else { return None };
        let mut ga = ga.0.clone();
        *ga.first_mut()? = GenericArgKind::Type(t);
        let i = Instance::resolve(d, &GenericArgs(ga)).ok()?;
        Some(self.lo.callee(i))
    }
    /// Stores an argument; a trait object passed to a method of its concrete type loses its second word.
    fn store_arg(&mut self, st: &mut State, frame: u32, a: &Operand, dst: Addr, size: u64) {
        if a.info().size == 16 && size == 8 {
            let tmp = st.alloc(Alloc::new(16, "tmp"));
            self.store_operand(st, frame, a, Addr::at(tmp, 0));
            let v = self.read(st, Addr::at(tmp, 0), 8);
            self.write(st, dst, 8, v);
            st.allocs[tmp as usize] = None;
            st.free.push(tmp);
        } else { self.store_operand(st, frame, a, dst) }
    }
    pub fn tuple_fields(&mut self, t: rustc_public::ty::Ty) -> Vec<(u64, TyInfo)> {
        match rigid(t) {
            Some(rustc_public::ty::RigidTy::Tuple(ts)) => {
                let sh = t.layout().unwrap().shape();
                let offs: Vec<u64> = match &sh.fields { rustc_public::abi::FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes() as u64).collect(), _ => vec![0; ts.len()] };
                ts.iter().zip(offs).map(|(t, o)| (o, self.lo.info(*t))).collect()
            }
            _ => vec![],
        }
    }
}
pub fn gcd(a: i64, b: i64) -> i64 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let t = a % b; a = b; b = t } a }
