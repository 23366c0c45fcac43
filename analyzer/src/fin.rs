//! Finite-function domain: every word is a table over a few finite-valued atoms.
//!
//! The atoms are the inputs and, step by step, the state cells of a reference recurrence. A cell of
//! step t+1 is an atom defined by a table over atoms of step t. A word of the analysed program whose
//! table equals a definition is that cell. Once memory holds every cell of step t+1 its words become
//! the atoms of that step; atoms of mixed steps are unfolded by their definitions. Tables are exact, so equal tables mean equal words for every input.
use crate::dom::*;
use std::rc::Rc;

const MA: usize = 7;
const MAXSIZE: usize = 1 << 16;
const WIDE: u32 = 4;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Ent { pub atoms: [u32; MA], pub n: u8, pub w: u8, pub tab: u32, pub unk: u64 }
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct FTab { pub dims: Vec<u32>, pub w: u8, pub outs: Vec<u64> }
pub struct FAtom { pub vals: u32, pub gen: i32, pub def: Option<(u32, [u32; MA], u8)>, pub base: u32, pub hit: bool }
#[derive(Clone)]
struct Canon { tab: u32, keep: u16, classes: Option<(usize, u32)>, vid: VId, unk: u64 }

pub struct Fin {
    pub ents: Vec<Ent>,
    pub tabs: Vec<Rc<FTab>>,
    norm: Vec<u32>,
    tmap: FxMap<Rc<FTab>, u32>,
    nmap: FxMap<(Vec<u32>, Vec<i64>), u32>,
    pub atoms: Vec<FAtom>,
    vals: Vec<Rc<Vec<i64>>>,
    vmap: FxMap<Rc<Vec<i64>>, u32>,
    ident: FxMap<(u32, u8), (u32, VId)>,
    classes: Vec<Rc<Vec<u32>>>,
    cmap: FxMap<Rc<Vec<u32>>, u32>,
    derived: FxMap<(u32, u32), u32>,
    opaques: FxMap<Ent, u32>,
    defs: FxMap<(u32, [u32; MA]), u32>,
    memo: FxMap<(u8, u32, u32, u32, u64, u64), Canon>,
    smemo: FxMap<(u32, u32, u32, u32), u32>,
    pub guards: Vec<Val>,
    pub lost: u64,
    steps: Vec<(usize, usize)>,
    runs: Vec<Vec<Vec<Val>>>,
    base: usize,
    cur: usize,
    left: usize,
    /// block entries until the next attempt to recognise the state, 0 when none is due
    pub wait: u32,
    delay: u32,
}

fn perm_code(p: &[u8]) -> u32 { p.iter().fold(p.len() as u32, |a, x| a * 4 + *x as u32) }

impl Fin {
    pub fn new() -> Fin {
        Fin { ents: vec![Ent { atoms: [0; MA], n: 0, w: 8, tab: 0, unk: 0 }], tabs: vec![], norm: vec![], tmap: FxMap::default(), nmap: FxMap::default(), atoms: vec![FAtom { vals: 0, gen: 0, def: None, base: 0, hit: false }], vals: vec![], vmap: FxMap::default(), ident: FxMap::default(), classes: vec![], cmap: FxMap::default(), derived: FxMap::default(), opaques: FxMap::default(), defs: FxMap::default(), memo: FxMap::default(), smemo: FxMap::default(), guards: vec![], lost: 0, steps: vec![], runs: vec![], base: usize::MAX, cur: 0, left: usize::MAX, wait: 0, delay: 1 }
    }
    fn mktab(&mut self, t: FTab) -> u32 {
        let t = Rc::new(t);
        if let Some(i) = self.tmap.get(&t) { return *i }
        let id = self.tabs.len() as u32;
        let key = (t.dims.clone(), t.outs.iter().map(|o| sext(*o as u128, t.w) as i64).collect::<Vec<_>>());
        let l = self.nmap.len() as u32;
        let n = *self.nmap.entry(key).or_insert(l);
        self.norm.push(n);
        self.tabs.push(t.clone());
        self.tmap.insert(t, id);
        id
    }
    fn mkvals(&mut self, v: Vec<i64>) -> u32 {
        let v = Rc::new(v);
        if let Some(i) = self.vmap.get(&v) { return *i }
        let id = self.vals.len() as u32;
        self.vals.push(v.clone());
        self.vmap.insert(v, id);
        id
    }
    pub fn atom(&mut self, vals: Vec<i64>, gen: i32) -> u32 {
        let v = self.mkvals(vals);
        self.atoms.push(FAtom { vals: v, gen, def: None, base: 0, hit: false });
        self.atoms.len() as u32 - 1
    }
    fn size(&self, a: u32) -> u32 { self.vals[self.atoms[a as usize].vals as usize].len() as u32 }
    fn root(&self, a: u32) -> u32 { let b = self.atoms[a as usize].base; if b == 0 { a } else { b } }
    /// The word that is the atom itself.
    pub fn word(&mut self, d: &mut Dom, a: u32, w: u8, unk: u64) -> Val {
        let vi = self.atoms[a as usize].vals;
        let (tab, vid) = match self.ident.get(&(vi, w)) {
            Some(x) => *x,
            None => {
                let outs: Vec<u64> = self.vals[vi as usize].iter().map(|x| *x as u64 & mask(w) as u64).collect();
                let vid = d.hull(w, &outs, 0);
                let t = self.mktab(FTab { dims: vec![outs.len() as u32], w, outs });
                self.ident.insert((vi, w), (t, vid));
                (t, vid)
            }
        };
        let mut atoms = [0; MA];
        atoms[0] = a;
        let k = if unk != 0 { self.range_unk(d, tab, unk) } else { vid };
        self.push(Ent { atoms, n: 1, w, tab, unk }, k)
    }
    fn push(&mut self, e: Ent, k: VId) -> Val {
        self.ents.push(e);
        Val { k, tab: 0, src: self.ents.len() as u64 - 1 }
    }
    fn range_unk(&mut self, d: &mut Dom, tab: u32, unk: u64) -> VId {
        let t = self.tabs[tab as usize].clone();
        if unk == 0 { return d.hull(t.w, &t.outs, 0) }
        let mut outs = t.outs.clone();
        for o in &t.outs { outs.push(*o | unk) }
        let h = d.hull(t.w, &outs, 0);
        let a = *d.get(h);
        let m = mask(t.w);
        let (kz, ko) = (a.kz & !(unk as u128), a.ko & !(unk as u128));
        let r = AVal { w: t.w, ulo: a.ulo, uhi: a.uhi, slo: if unk >> (t.w - 1) & 1 == 1 { smin(t.w) } else { a.slo }, shi: if unk >> (t.w - 1) & 1 == 1 { smax(t.w) } else { a.shi }, kz: kz & m, ko, taint: 0 }.norm();
        d.intern(r)
    }
    pub fn unknown(&mut self, d: &mut Dom, a: AVal) -> Val {
        let w = a.w;
        let t = self.mktab(FTab { dims: vec![], w, outs: vec![0] });
        let k = d.intern(AVal { taint: 0, ..a });
        self.push(Ent { atoms: [0; MA], n: 0, w, tab: t, unk: mask(w) as u64 }, k)
    }
    fn ent(&mut self, d: &Dom, x: Val) -> Ent {
        if x.src != 0 { return self.ents[x.src as usize] }
        let a = d.av(x);
        let (w, c) = (a.w, a.is_const());
        match c {
            Some(c) if w <= 64 => { let t = self.mktab(FTab { dims: vec![], w, outs: vec![c as u64] }); Ent { atoms: [0; MA], n: 0, w, tab: t, unk: 0 } }
            _ => { let t = self.mktab(FTab { dims: vec![], w, outs: vec![0] }); Ent { atoms: [0; MA], n: 0, w, tab: t, unk: mask(w) as u64 } }
        }
    }
    /// Atoms of both operands, sorted, with the membership pattern.
    fn merge(x: &Ent, y: &Ent) -> (Vec<u32>, Vec<u8>) {
        let (mut at, mut pat) = (Vec::with_capacity(8), Vec::with_capacity(8));
        let (mut i, mut j) = (0, 0);
        while i < x.n as usize || j < y.n as usize {
            let a = if i < x.n as usize { x.atoms[i] } else { u32::MAX };
            let b = if j < y.n as usize { y.atoms[j] } else { u32::MAX };
            let m = a.min(b);
            at.push(m);
            pat.push((a == m) as u8 | ((b == m) as u8) << 1);
            if a == m { i += 1 }
            if b == m { j += 1 }
        }
        (at, pat)
    }
    /// An atom of the merged list that has to be unfolded before the operands can be combined.
    fn conflict(&self, at: &[u32]) -> Option<u32> {
        if at.len() < 2 { return None }
        let (mut lo, mut hi) = (i32::MAX, i32::MIN);
        let mut rel = false;
        for (i, a) in at.iter().enumerate() {
            let f = &self.atoms[*a as usize];
            lo = lo.min(f.gen);
            hi = hi.max(f.gen);
            if f.base != 0 { rel |= at.iter().enumerate().any(|(j, b)| j != i && self.root(*b) == f.base) }
        }
        if rel { return at.iter().copied().find(|a| self.atoms[*a as usize].base != 0 && at.iter().any(|b| b != a && self.root(*b) == self.root(*a))) }
        if lo == hi { return None }
        at.iter().copied().filter(|a| { let f = &self.atoms[*a as usize]; f.gen > lo && f.def.is_some() }).max_by_key(|a| { let f = &self.atoms[*a as usize]; (f.gen, f.base != 0) })
    }
    /// Replaces an atom by its definition.
    fn unfold(&mut self, e: &Ent, a: u32) -> Option<Ent> {
        let Some(pos) = e.atoms[..e.n as usize].iter().position(|x| *x == a) else { return Some(*e) };
        let (dt, dat, dn) = self.atoms[a as usize].def?;
        let mut rest = *e;
        for i in pos..e.n as usize - 1 { rest.atoms[i] = rest.atoms[i + 1] }
        rest.n -= 1;
        rest.atoms[rest.n as usize] = 0;
        let de = Ent { atoms: dat, n: dn, w: 16, tab: dt, unk: 0 };
        let (at, pat) = Self::merge(&rest, &de);
        if at.len() > MA { return None }
        let mut size = 1usize;
        for b in &at { size *= self.size(*b) as usize; if size > MAXSIZE { return None } }
        let key = (e.tab, dt, pos as u32 * 256 + self.atoms[a as usize].vals * 4096, perm_code(&pat));
        let tab = match self.smemo.get(&key) {
            Some(t) => *t,
            None => {
                let dims: Vec<u32> = at.iter().map(|b| self.size(*b)).collect();
                let (et, dtb) = (self.tabs[e.tab as usize].clone(), self.tabs[dt as usize].clone());
                let vals = self.vals[self.atoms[a as usize].vals as usize].clone();
                let mut outs = Vec::with_capacity(size);
                let mut ix = vec![0u32; at.len()];
                for _ in 0..size {
                    let mut di = 0usize;
                    for (k, p) in pat.iter().enumerate() { if p & 2 != 0 { di = di * dims[k] as usize + ix[k] as usize } }
                    let dv = sext(dtb.outs[di] as u128, dtb.w) as i64;
                    let vi = vals.binary_search(&dv).expect("atom value");
                    let mut ei = 0usize;
                    let mut slot = 0;
                    let mut k = 0;
                    while slot < et.dims.len() {
                        if slot == pos { ei = ei * et.dims[slot] as usize + vi; slot += 1; continue }
                        while pat[k] & 1 == 0 { k += 1 }
                        ei = ei * et.dims[slot] as usize + ix[k] as usize;
                        k += 1;
                        slot += 1;
                    }
                    outs.push(et.outs[ei]);
                    for k in (0..ix.len()).rev() { ix[k] += 1; if ix[k] < dims[k] { break } ix[k] = 0 }
                }
                let t = self.mktab(FTab { dims, w: et.w, outs });
                self.smemo.insert(key, t);
                t
            }
        };
        let mut r = Ent { atoms: [0; MA], n: at.len() as u8, w: e.w, tab, unk: e.unk };
        r.atoms[..at.len()].copy_from_slice(&at);
        Some(r)
    }
    /// Gives a table that has become too large a name of its own.
    fn opaque(&mut self, e: &Ent) -> Ent {
        self.lost += 1;
        let t = self.tabs[e.tab as usize].clone();
        let mut v: Vec<i64> = t.outs.iter().map(|o| sext(*o as u128, t.w) as i64).collect();
        v.sort();
        v.dedup();
        if v.len() > 64 { let tab = self.mktab(FTab { dims: vec![], w: e.w, outs: vec![0] }); return Ent { atoms: [0; MA], n: 0, w: e.w, tab, unk: mask(e.w) as u64 } }
        let a = match self.opaques.get(e) { Some(a) => *a, None => { let g = (0..e.n as usize).map(|i| self.atoms[e.atoms[i] as usize].gen).max().unwrap_or(0); let a = self.atom(v.clone(), g); self.opaques.insert(*e, a); a } };
        let tab = self.mktab(FTab { dims: vec![v.len() as u32], w: e.w, outs: v.iter().map(|x| *x as u64 & mask(e.w) as u64).collect() });
        let mut atoms = [0; MA];
        atoms[0] = a;
        Ent { atoms, n: 1, w: e.w, tab, unk: e.unk }
    }
    /// Brings two operands over a common set of atoms.
    fn unify(&mut self, mut x: Ent, mut y: Ent) -> (Ent, Ent, Vec<u32>, Vec<u8>) {
        loop {
            let (at, pat) = Self::merge(&x, &y);
            match self.conflict(&at) {
                Some(a) => match (self.unfold(&x, a), self.unfold(&y, a)) {
                    (Some(p), Some(q)) if Self::merge(&p, &q).0.len() <= MA && self.fits(&Self::merge(&p, &q).0) => { x = self.reduce(p); y = self.reduce(q) }
                    _ => { self.lost += 1; if at.len() <= MA && self.fits(&at) { return (x, y, at, pat) } return self.shrink(x, y) }
                },
                None => { if at.len() <= MA && self.fits(&at) { return (x, y, at, pat) } return self.shrink(x, y) }
            }
        }
    }
    fn shrink(&mut self, mut x: Ent, mut y: Ent) -> (Ent, Ent, Vec<u32>, Vec<u8>) {
        if x.n >= y.n { x = self.opaque(&x) } else { y = self.opaque(&y) }
        let (at, pat) = Self::merge(&x, &y);
        if at.len() <= MA && self.fits(&at) { return (x, y, at, pat) }
        if x.n >= y.n { x = self.opaque(&x) } else { y = self.opaque(&y) }
        let (at, pat) = Self::merge(&x, &y);
        (x, y, at, pat)
    }
    fn fits(&self, at: &[u32]) -> bool { let mut s = 1usize; for a in at { s = s.saturating_mul(self.size(*a) as usize) } s <= MAXSIZE }
    /// Drops atoms the table does not depend on, merges indistinguishable values of a wide atom.
    fn canon(&mut self, tab: u32) -> (u32, u16, Option<(usize, u32)>) {
        let t = self.tabs[tab as usize].clone();
        let n = t.dims.len();
        let mut strides = vec![1usize; n];
        for i in (0..n.saturating_sub(1)).rev() { strides[i] = strides[i + 1] * t.dims[i + 1] as usize }
        let total = t.outs.len();
        let mut keep = 0u16;
        let mut cls: Option<(usize, Vec<u32>)> = None;
        for i in 0..n {
            let (st, dm) = (strides[i], t.dims[i] as usize);
            let col = |v: usize, w: usize| -> bool { let mut base = 0; while base < total { for k in 0..st { if t.outs[base + v * st + k] != t.outs[base + w * st + k] { return false } } base += st * dm } true };
            if (1..dm).all(|v| col(0, v)) { continue }
            keep |= 1 << i;
            if dm as u32 > WIDE && cls.is_none() {
                let mut reps: Vec<usize> = vec![];
                let mut c = vec![];
                for v in 0..dm {
                    match reps.iter().position(|r| col(*r, v)) { Some(p) => c.push(p as u32), None => { reps.push(v); c.push(reps.len() as u32 - 1) } }
                    if reps.len() > WIDE as usize { break }
                }
                if reps.len() <= WIDE as usize { cls = Some((i, c)) }
            }
        }
        if keep == ((1u32 << n) - 1) as u16 && cls.is_none() { return (tab, keep, None) }
        let mut dims = vec![];
        for i in 0..n { if keep >> i & 1 == 1 { dims.push(match &cls { Some((s, c)) if *s == i => *c.iter().max().unwrap() + 1, _ => t.dims[i] }) } }
        let size: usize = dims.iter().map(|x| *x as usize).product();
        let mut outs = Vec::with_capacity(size);
        let mut ix = vec![0u32; dims.len()];
        for _ in 0..size {
            let mut o = 0;
            let mut k = 0;
            for i in 0..n { if keep >> i & 1 == 1 { let v = match &cls { Some((s, c)) if *s == i => c.iter().position(|q| *q == ix[k]).unwrap(), _ => ix[k] as usize }; o += v * strides[i]; k += 1 } }
            outs.push(t.outs[o]);
            for k in (0..ix.len()).rev() { ix[k] += 1; if ix[k] < dims[k] { break } ix[k] = 0 }
        }
        let nt = self.mktab(FTab { dims, w: t.w, outs });
        let c = cls.map(|(s, c)| { let c = Rc::new(c); let l = self.classes.len() as u32; let id = *self.cmap.entry(c.clone()).or_insert(l); if id == l { self.classes.push(c) } (s, id) });
        (nt, keep, c)
    }
    fn class_atom(&mut self, a: u32, c: u32) -> u32 {
        if let Some(x) = self.derived.get(&(a, c)) { return *x }
        let cv = self.classes[c as usize].clone();
        let n = *cv.iter().max().unwrap() as i64 + 1;
        let g = self.atoms[a as usize].gen;
        let x = self.atom((0..n).collect(), g);
        let t = self.mktab(FTab { dims: vec![cv.len() as u32], w: 16, outs: cv.iter().map(|v| *v as u64).collect() });
        let mut at = [0; MA];
        at[0] = a;
        let root = self.root(a);
        let f = &mut self.atoms[x as usize];
        f.def = Some((t, at, 1));
        f.base = root;
        self.derived.insert((a, c), x);
        x
    }
    fn apply(&mut self, at: &[u32], tab: u32, keep: u16, cls: Option<(usize, u32)>, w: u8, unk: u64) -> Ent {
        let mut e = Ent { atoms: [0; MA], n: 0, w, tab, unk };
        for (i, a) in at.iter().enumerate() {
            if keep >> i & 1 == 0 { continue }
            let b = match cls { Some((s, c)) if s == i => self.class_atom(*a, c), _ => *a };
            e.atoms[e.n as usize] = b;
            e.n += 1;
        }
        // a class atom is younger than the other atoms: restore the order
        if cls.is_some() && !e.atoms[..e.n as usize].windows(2).all(|p| p[0] < p[1]) { e = self.sort(e) }
        e
    }
    fn sort(&mut self, e: Ent) -> Ent {
        let n = e.n as usize;
        let mut ord: Vec<usize> = (0..n).collect();
        ord.sort_by_key(|i| e.atoms[*i]);
        let t = self.tabs[e.tab as usize].clone();
        let dims: Vec<u32> = ord.iter().map(|i| t.dims[*i]).collect();
        let mut strides = vec![1usize; n];
        for i in (0..n - 1).rev() { strides[i] = strides[i + 1] * t.dims[i + 1] as usize }
        let mut ix = vec![0u32; n];
        let mut outs = Vec::with_capacity(t.outs.len());
        for _ in 0..t.outs.len() {
            let o: usize = (0..n).map(|k| ix[k] as usize * strides[ord[k]]).sum();
            outs.push(t.outs[o]);
            for k in (0..n).rev() { ix[k] += 1; if ix[k] < dims[k] { break } ix[k] = 0 }
        }
        let tab = self.mktab(FTab { dims, w: t.w, outs });
        let mut r = Ent { atoms: [0; MA], tab, ..e };
        for (k, i) in ord.iter().enumerate() { r.atoms[k] = e.atoms[*i] }
        r
    }
    fn reduce(&mut self, e: Ent) -> Ent {
        let (tab, keep, cls) = self.canon_memo(e.tab);
        let at: Vec<u32> = e.atoms[..e.n as usize].to_vec();
        // keep wide atoms as they are while unfolding
        if cls.is_some() { return e }
        self.apply(&at, tab, keep, cls, e.w, e.unk)
    }
    fn canon_memo(&mut self, tab: u32) -> (u32, u16, Option<(usize, u32)>) {
        let key = (250u8, tab, 0, 0, 0, 0);
        if let Some(c) = self.memo.get(&key) { return (c.tab, c.keep, c.classes) }
        let r = self.canon(tab);
        self.memo.insert(key, Canon { tab: r.0, keep: r.1, classes: r.2, vid: 0, unk: 0 });
        r
    }
    fn unk_bits(&self, op: Op, w: u8, x: &Ent, y: &Ent) -> u64 {
        let (ux, uy) = (x.unk, y.unk);
        if ux | uy == 0 { return 0 }
        let rw = resw(op, w);
        let m = mask(rw) as u64;
        let zeros = |e: &Ent| { let t = &self.tabs[e.tab as usize]; !t.outs.iter().fold(0, |a, o| a | o) & !e.unk };
        let ones = |e: &Ent| { let t = &self.tabs[e.tab as usize]; t.outs.iter().fold(u64::MAX, |a, o| a & o) & !e.unk };
        let cst = |e: &Ent| { let t = &self.tabs[e.tab as usize]; if e.unk == 0 && t.outs.len() == 1 { Some(t.outs[0]) } else { None } };
        match op {
            Op::And => ((ux & !zeros(y)) | (uy & !zeros(x))) & m,
            Op::Or => ((ux & !ones(y)) | (uy & !ones(x))) & m,
            Op::Xor => (ux | uy) & m,
            Op::Not => ux,
            Op::Add | Op::Sub | Op::AddC | Op::SubC | Op::AddCS | Op::SubCS | Op::Neg | Op::Mul | Op::MulC | Op::MulCS => m & !(((ux | uy) & (ux | uy).wrapping_neg()).wrapping_sub(1)),
            Op::Shl => match cst(y) { Some(c) => (ux << (c % w as u64)) & m, None => m },
            Op::ShrU => match cst(y) { Some(c) => ux >> (c % w as u64), None => m },
            Op::ShrS => match cst(y) { Some(c) => conc(Op::ShrS, w, ux as u128, (c % w as u64) as u128) as u64 & m, None => m },
            _ => match castw(op) {
                Some((tw, sg)) => { let mut u = ux & mask(w) as u64; if sg && ux >> (w - 1) & 1 == 1 && tw > w { u |= !(mask(w) as u64) } u & m }
                None => if is_cmp(op) { 1 } else { m },
            },
        }
    }
    pub fn bin(&mut self, d: &mut Dom, op: Op, x: Val, y: Val) -> Val {
        let w = d.av(x).w;
        let rw = resw(op, w);
        let un = is_unary(op);
        if let (Some(a), Some(b)) = (d.is_const(x), if un { Some(0) } else { d.is_const(y) }) { let r = conc(op, w, a, b); return d.cst(rw, r) }
        if w > 64 || rw > 64 { let k = d.range_op(op, x.k, y.k); let a = *d.get(k); return if a.is_const().is_some() { Val::int(k) } else { self.unknown(d, a) } }
        let ex = self.ent(d, x);
        let ey = if un { Ent { atoms: [0; MA], n: 0, w: 8, tab: ex.tab, unk: 0 } } else { self.ent(d, y) };
        if un { return self.step(d, op, w, ex, ex, true) }
        if ex.unk | ey.unk != 0 {
            let u = self.unk_bits(op, w, &ex, &ey);
            if u == mask(rw) as u64 || (is_cmp(op) && u != 0) { let k = d.range_op(op, x.k, y.k); let a = *d.get(k); return if a.is_const().is_some() { Val::int(k) } else { self.unknown(d, a) } }
        }
        self.step(d, op, w, ex, ey, false)
    }
    fn table(&mut self, d: &mut Dom, op: Op, w: u8, ex: &Ent, ey: &Ent, at: &[u32], pat: &[u8], un: bool) -> Canon {
        let rw = resw(op, w);
        let key = (op as u8, ex.tab, ey.tab, perm_code(pat), ex.unk, if un { u64::MAX } else { ey.unk });
        match self.memo.get(&key) {
            Some(c) => c.clone(),
            None => {
                let z = Ent { unk: 0, ..*ey };
                let unk = self.unk_bits(op, w, ex, if un { &z } else { ey });
                let (tx, ty) = (self.tabs[ex.tab as usize].clone(), self.tabs[ey.tab as usize].clone());
                let dims: Vec<u32> = at.iter().map(|a| self.size(*a)).collect();
                let size: usize = dims.iter().map(|x| *x as usize).product();
                let mut ix = vec![0u32; dims.len()];
                let mut outs = Vec::with_capacity(size);
                let m = mask(rw) as u64 & !unk;
                for _ in 0..size {
                    let (mut i, mut j) = (0usize, 0usize);
                    for k in 0..dims.len() { if pat[k] & 1 != 0 { i = i * dims[k] as usize + ix[k] as usize } if pat[k] & 2 != 0 { j = j * dims[k] as usize + ix[k] as usize } }
                    outs.push(conc(op, w, tx.outs[i] as u128, if un { 0 } else { ty.outs[j] as u128 }) as u64 & m);
                    for k in (0..ix.len()).rev() { ix[k] += 1; if ix[k] < dims[k] { break } ix[k] = 0 }
                }
                let t = self.mktab(FTab { dims, w: rw, outs });
                let (tab, keep, classes) = self.canon(t);
                let vid = self.range_unk(d, tab, unk);
                let c = Canon { tab, keep, classes, vid, unk };
                self.memo.insert(key, c.clone());
                c
            }
        }
    }
    fn step(&mut self, d: &mut Dom, op: Op, w: u8, ex: Ent, ey: Ent, un: bool) -> Val {
        let rw = resw(op, w);
        let (ex, ey, at, pat) = if un { let at = ex.atoms[..ex.n as usize].to_vec(); let pat = vec![3; at.len()]; (ex, ex, at, pat) } else { self.unify(ex, ey) };
        let c = self.table(d, op, w, &ex, &ey, &at, &pat, un);
        let e = self.apply(&at, c.tab, c.keep, c.classes, rw, c.unk);
        self.finish(d, e, c.vid)
    }
    fn finish(&mut self, d: &mut Dom, e: Ent, vid: VId) -> Val {
        if e.n == 0 && e.unk == 0 { let o = self.tabs[e.tab as usize].outs[0]; return d.cst(e.w, o as u128) }
        if e.unk == 0 {
            if let Some(a) = self.defs.get(&(self.norm[e.tab as usize], e.atoms)) {
                let a = *a;
                let f = &mut self.atoms[a as usize];
                if !f.hit {
                    f.hit = true;
                    if let Some(r) = self.steps.get(self.cur) { if (a as usize) >= r.0 && (a as usize) < r.1 { self.left -= 1; if self.left == 0 { self.wait = 1; self.delay = 1 } } }
                }
            }
        }
        self.push(e, vid)
    }
    /// Starts matching the program against the defined steps.
    pub fn follow(&mut self, steps: Vec<(usize, usize)>, runs: Vec<Vec<Vec<Val>>>) {
        for a in &mut self.atoms { a.hit = false }
        self.steps = steps;
        self.runs = runs;
        self.base = self.ents.len();
        self.cur = 0;
        self.arm();
    }
    fn arm(&mut self) {
        self.wait = 0;
        self.left = match self.steps.get(self.cur) { Some((a, b)) => self.atoms[*a..*b].iter().filter(|x| x.base == 0 && x.def.is_some() && !x.hit).count(), None => usize::MAX };
        if self.left == 0 { self.wait = 1; self.delay = 1 }
    }
    /// The state cell of the step in progress a word equals.
    fn cell(&self, x: Val) -> Option<u32> {
        if !x.is_int() || x.src == 0 { return None }
        let e = &self.ents[x.src as usize];
        if e.unk != 0 || e.n == 0 { return None }
        let a = *self.defs.get(&(self.norm[e.tab as usize], e.atoms))?;
        let r = self.steps[self.cur];
        if (a as usize) < r.0 || a as usize >= r.1 { None } else { Some(a) }
    }
    /// Once memory holds the complete state of the step in progress, its words become the atoms of that
    /// step. Tried on arrival at an outermost loop, or wherever the arrays of the state stand in memory as such.
    pub fn sync(&mut self, d: &mut Dom, mem: &mut [Option<Rc<crate::interp::Alloc>>], outer: bool, alone: bool) {
        if !outer { self.wait -= 1; if self.wait > 0 { return } }
        self.delay = (self.delay * 2).min(64);
        self.wait = self.delay;
        let (a, b) = self.steps[self.cur];
        let mut seen = vec![false; b - a];
        let mut held = vec![];
        for (i, m) in mem.iter().enumerate() {
            let Some(m) = m else { continue };
            let mut any = false;
            for (v, s) in m.vals.iter().zip(&m.sz) { if *s != 0 { if let Some(x) = self.cell(*v) { seen[x as usize - a] = true; any = true } } }
            if any { held.push(i) }
        }
        if (a..b).any(|x| self.atoms[x].base == 0 && self.atoms[x].def.is_some() && !seen[x - a]) { return }
        if !outer && !self.runs[self.cur].iter().all(|r| mem.iter().flatten().any(|m| self.stands(d, m, r))) { return }
        for i in held {
            let m = Rc::make_mut(mem[i].as_mut().unwrap());
            for (v, s) in m.vals.iter_mut().zip(&m.sz) {
                if *s == 0 { continue }
                if let Some(x) = self.cell(*v) { let w = self.ents[v.src as usize].w; *v = self.word(d, x, w, 0) }
            }
        }
        self.cur += 1;
        self.arm();
        if alone { self.collect(mem) }
    }
    /// Forgets the words memory no longer holds (no undecided branch is open here, so this is the only state).
    fn collect(&mut self, mem: &mut [Option<Rc<crate::interp::Alloc>>]) {
        let base = self.base;
        let mut kept: FxMap<u64, u64> = FxMap::default();
        let mut ents = vec![];
        for m in mem.iter_mut().flatten() {
            if !m.vals.iter().zip(&m.sz).any(|(v, s)| *s != 0 && v.is_int() && v.src as usize >= base) { continue }
            let m = Rc::make_mut(m);
            for (v, s) in m.vals.iter_mut().zip(&m.sz) {
                if *s == 0 || !v.is_int() || (v.src as usize) < base { continue }
                let old = v.src;
                v.src = *kept.entry(old).or_insert_with(|| { ents.push(self.ents[old as usize]); (base + ents.len() - 1) as u64 });
            }
        }
        self.ents.truncate(base);
        self.ents.extend(ents);
    }
    pub fn tidy(&mut self, mem: &mut [Option<Rc<crate::interp::Alloc>>]) { if self.ents.len() > self.base.saturating_add(1 << 22) { self.collect(mem) } }
    /// Drops the words made since the mark, except those listed.
    pub fn rewind(&mut self, mark: usize, keep: &mut [&mut Val]) {
        let ents: Vec<Ent> = keep.iter().map(|v| self.ents[v.src as usize]).collect();
        self.ents.truncate(mark);
        for (v, e) in keep.iter_mut().zip(ents) { if v.src as usize >= mark { self.ents.push(e); v.src = self.ents.len() as u64 - 1 } }
    }
    fn stands(&self, d: &Dom, m: &crate::interp::Alloc, run: &[Val]) -> bool {
        let key = |x: Val| -> Result<u32, i128> { if d.is_const(x).is_some() { let a = d.av(x); return Err(sext(a.ulo, a.w)) } Ok(self.ents[x.src as usize].atoms[0]) };
        let want: Vec<Result<u32, i128>> = run.iter().map(|x| key(*x)).collect();
        let p0 = want.iter().position(|x| x.is_ok()).unwrap_or(0);
        let is = |v: Val, w: &Result<u32, i128>| v.is_int() && match w { Ok(a) => self.cell(v) == Some(*a), Err(c) => d.is_const(v).is_some() && { let a = d.av(v); sext(a.ulo, a.w) == *c } };
        (0..m.vals.len()).any(|i| {
            let s = m.sz[i] as usize;
            s != 0 && i >= p0 * s && i + (want.len() - p0) * s <= m.vals.len() && is(m.vals[i], &want[p0]) && want.iter().enumerate().all(|(k, w)| { let j = i - p0 * s + k * s; m.sz[j] as usize == s && is(m.vals[j], w) })
        })
    }
    /// Makes the word a state cell of the reference: a new atom with this table as its definition.
    pub fn define(&mut self, d: &mut Dom, x: Val, gen: i32) -> Val {
        if d.is_const(x).is_some() { return x }
        let e = self.ent(d, x);
        if e.unk != 0 || e.n == 0 { return x }
        let t = self.tabs[e.tab as usize].clone();
        let mut v: Vec<i64> = t.outs.iter().map(|o| sext(*o as u128, t.w) as i64).collect();
        v.sort();
        v.dedup();
        if let Some(a) = self.defs.get(&(self.norm[e.tab as usize], e.atoms)) { let a = *a; return self.word(d, a, e.w, 0) }
        let a = self.atom(v, gen);
        self.atoms[a as usize].def = Some((e.tab, e.atoms, e.n));
        self.defs.insert((self.norm[e.tab as usize], e.atoms), a);
        self.word(d, a, e.w, 0)
    }
    /// The atom a word is, if it is one.
    pub fn as_atom(&mut self, d: &Dom, x: Val) -> Option<u32> { if x.src == 0 || d.is_const(x).is_some() { return None } let e = self.ents[x.src as usize]; if e.n == 1 && e.unk == 0 { Some(e.atoms[0]) } else { None } }
    pub fn same(&mut self, d: &mut Dom, x: Val, y: Val) -> bool {
        if x == y { return true }
        if !x.is_int() || !y.is_int() || d.av(x).w != d.av(y).w { return false }
        let e = self.bin(d, Op::Ne, x, y);
        d.is_const(e) == Some(0)
    }
    pub fn values(&mut self, d: &Dom, x: Val) -> Option<Rc<Vec<u64>>> {
        let e = self.ent(d, x);
        if e.unk != 0 { return None }
        let mut v = self.tabs[e.tab as usize].outs.clone();
        v.sort();
        v.dedup();
        Some(Rc::new(v))
    }
    /// Selects by a test word (nonzero: a).
    pub fn ite(&mut self, d: &mut Dom, g: Val, a: Val, b: Val) -> Val {
        if self.same_ent(d, a, b) { return a }
        let w = d.av(a).w;
        if w > 64 { let j = d.av(a).join(d.av(b)); return self.unknown(d, j) }
        let m = self.bin(d, zx(w), g, g);
        let m = self.bin(d, Op::Neg, m, m);
        let n = self.bin(d, Op::Not, m, m);
        let p = self.bin(d, Op::And, a, m);
        let q = self.bin(d, Op::And, b, n);
        self.bin(d, Op::Or, p, q)
    }
    fn same_ent(&mut self, d: &Dom, a: Val, b: Val) -> bool { if a == b { return true } if a.src == 0 || b.src == 0 || d.av(a).w != d.av(b).w { return false } let (x, y) = (self.ents[a.src as usize], self.ents[b.src as usize]); x.atoms == y.atoms && x.tab == y.tab && x.unk | y.unk == 0 }
    pub fn switch_guards(&mut self, d: &mut Dom, x: Val, tg: &[usize], target: &dyn Fn(u64) -> usize) -> Vec<(usize, u32)> {
        if d.is_const(x).is_some() { return vec![] }
        let e = self.ent(d, x);
        if e.unk != 0 { return vec![] }
        let t = self.tabs[e.tab as usize].clone();
        let mut r = vec![];
        for g in tg.iter().take(tg.len().saturating_sub(1)) {
            let outs: Vec<u64> = t.outs.iter().map(|o| (target(*o) == *g) as u64).collect();
            let nt = self.mktab(FTab { dims: t.dims.clone(), w: 8, outs });
            let (tab, keep, cls) = self.canon(nt);
            let vid = self.range_unk(d, tab, 0);
            let at = e.atoms[..e.n as usize].to_vec();
            let ne = self.apply(&at, tab, keep, cls, 8, 0);
            let v = self.finish(d, ne, vid);
            self.guards.push(v);
            r.push((*g, self.guards.len() as u32 - 1));
        }
        r
    }
    pub fn describe(&self, d: &Dom, x: Val) -> String {
        if !x.is_int() || x.src == 0 || d.is_const(x).is_some() { return d.show(x) }
        let e = &self.ents[x.src as usize];
        format!("{} (function of {} state cells)", d.show(x), e.n)
    }
}
pub fn with<R>(d: &mut Dom, f: impl FnOnce(&mut Fin, &mut Dom) -> R) -> R {
    let mut s = d.fin.take().expect("finite-function domain not active");
    let r = f(&mut s, d);
    d.fin = Some(s);
    r
}
