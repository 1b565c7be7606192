//! Symbolic executor: explores the LLVM IR of a harness over product domains.
//!
//! A path condition is a disjunction of boxes; a box gives every input
//! variable an exact set of values. Branches split boxes exactly (through run
//! tables of the condition, which are later certified by the solver), states
//! that reach the same point with the same memory are merged by uniting boxes.
use crate::ir::*;
use crate::term::{joint, mix, sx, Arena, Dom, K, MANY, NONE, T};
use std::cell::Cell as StdCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V { U, C(u64, u32), S(T), A(Rc<Vec<V>>) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cl { U, B(u8), P(T, u8) }

pub struct Obj { pub addr: u64, pub size: u64, pub cells: Vec<Cl>, h: StdCell<u64> }
impl Clone for Obj { fn clone(&self) -> Obj { Obj { addr: self.addr, size: self.size, cells: self.cells.clone(), h: StdCell::new(0) } } }
impl Obj {
    fn hash(&self) -> u64 {
        if self.h.get() != 0 { return self.h.get(); }
        let mut h = mix(self.addr ^ self.size.rotate_left(32));
        for c in &self.cells {
            let x = match c { Cl::U => 0x9999_0000, Cl::B(b) => *b as u64 + 1, Cl::P(t, i) => 0x1_0000_0000 + ((*t as u64) << 4) + *i as u64 };
            h = mix(h.wrapping_mul(0x9E3779B97F4A7C15) ^ x);
        }
        self.h.set(h | 1);
        h | 1
    }
    fn same(&self, o: &Obj) -> bool { self.addr == o.addr && self.size == o.size && self.cells == o.cells }
}

#[derive(Clone)]
pub struct Mem { pub objs: Vec<Rc<Obj>>, pub sp: u64 }
impl Mem {
    fn find(&self, a: u64, n: u64) -> Option<usize> {
        let i = self.objs.partition_point(|o| o.addr <= a);
        if i == 0 { return None; }
        let o = &self.objs[i - 1];
        if a + n <= o.addr + o.size { Some(i - 1) } else { None }
    }
    fn insert(&mut self, o: Obj) {
        let i = self.objs.partition_point(|x| x.addr < o.addr);
        self.objs.insert(i, Rc::new(o));
    }
    fn hash(&self) -> u64 {
        let mut h = self.sp;
        for o in &self.objs { h = mix(h ^ o.hash()); }
        h
    }
    fn same(&self, m: &Mem) -> bool {
        self.sp == m.sp && self.objs.len() == m.objs.len() && self.objs.iter().zip(&m.objs).all(|(a, b)| Rc::ptr_eq(a, b) || a.same(b))
    }
}

pub type Bx = Rc<Vec<Rc<Dom>>>;
pub type Pc = Rc<Vec<Bx>>;

#[derive(Clone)]
pub struct St { pub pc: Pc, pub mem: Mem, pub steps: u64, pub outs: Rc<Vec<V>> }

struct Item { st: St, loc: Vec<V>, blk: usize, idx: usize, iters: Vec<u32> }
type WL = BTreeMap<Vec<u32>, Vec<Item>>;

/// counterexamples as they are found, for the watchdog
pub static FOUND: std::sync::Mutex<Vec<(usize, Cand)>> = std::sync::Mutex::new(Vec::new());
#[derive(Clone, Debug)]
pub struct Cand { pub kind: String, pub msg: String, pub inputs: Vec<(u32, u64)>, pub smt: bool }

pub struct Oblig { pub t: T, pub boxes: Vec<Bx>, pub msg: String }

pub struct Ex<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    /// harness input index -> variable
    pub inputs: BTreeMap<u32, u32>,
    pub in_dom: HashMap<u32, Rc<Dom>>,
    split_cache: HashMap<(T, u64, u64), (Rc<Dom>, Rc<Dom>)>,
    ident_cache: HashMap<(u128, u64), bool>,
    const_ok: HashMap<(u128, u64, u64), bool>,
    /// shape -> (representative, region) whose run table steered the exploration
    pub certs: HashMap<u128, (T, Rc<Dom>)>,
    pub idents: HashMap<(u128, u64), (T, Rc<Dom>)>,
    /// single-variable assertions (shape -> term, region)
    pub asserts1: HashMap<u128, (T, Rc<Dom>, String)>,
    pub obligs: Vec<Oblig>,
    pub job: usize,
    pub cands: Vec<Cand>,
    pub incomplete: BTreeMap<String, u64>,
    pub covers: BTreeMap<u64, u64>,
    pub n_assert: u64,
    pub n_assert_const: u64,
    pub n_paths: u64,
    pub n_steps: u64,
    pub prof: HashMap<u32, (u64, u64, u64)>,
    pub n_states: u64,
    pub n_merged: u64,
    pub n_undef: u64,
    pub fns: HashSet<u32>,
    pub deadline: Instant,
    pub step_limit: u64,
    pub stack: Vec<u32>,
    pub concrete: bool,
    lives: HashMap<(u32, usize, usize), Rc<Vec<u32>>>,
    kinds: HashMap<u32, u8>,
    pub dead: bool,
    pub max_cands: usize,
    pub outs_final: Vec<(Pc, Rc<Vec<V>>)>,
    /// (input index, piece, number of pieces)
    pub part: Option<(u32, usize, usize)>,
}

fn sup_vars(ar: &Arena, t: T) -> Vec<u32> {
    let mut o: Vec<u32> = ar.topo(&[t]).into_iter().filter(|&x| ar.n(x).op == K::Var).map(|x| ar.n(x).k as u32).collect();
    o.sort();
    o.dedup();
    o
}

fn binkind(k: BinK) -> K {
    match k {
        BinK::Add => K::Add, BinK::Sub => K::Sub, BinK::Mul => K::Mul, BinK::UDiv => K::UDiv, BinK::URem => K::URem, BinK::SDiv => K::SDiv,
        BinK::SRem => K::SRem, BinK::Shl => K::Shl, BinK::LShr => K::LShr, BinK::AShr => K::AShr, BinK::And => K::And, BinK::Or => K::Or, BinK::Xor => K::Xor,
    }
}

fn msk(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }

pub const K_ALLOC: u8 = 1;
pub const K_ALLOCZ: u8 = 2;
pub const K_DEALLOC: u8 = 3;
pub const K_REALLOC: u8 = 4;
pub const K_NOP: u8 = 5;
pub const K_VP: u8 = 6;
pub const K_INTR: u8 = 7;
pub const K_BODY: u8 = 8;
pub const K_NORET: u8 = 9;

impl<'m> Ex<'m> {
    pub fn new(m: &'m Module, ar: Arena, deadline: Instant) -> Ex<'m> {
        Ex {
            m, ar, inputs: BTreeMap::new(), in_dom: HashMap::new(), split_cache: HashMap::new(), ident_cache: HashMap::new(), const_ok: HashMap::new(),
            certs: HashMap::new(), idents: HashMap::new(), asserts1: HashMap::new(), obligs: vec![], cands: vec![], job: 0, incomplete: BTreeMap::new(), covers: BTreeMap::new(),
            n_assert: 0, n_assert_const: 0, n_paths: 0, n_steps: 0, prof: HashMap::new(), n_states: 0, n_merged: 0, n_undef: 0, fns: HashSet::new(), deadline, step_limit: 4_000_000,
            stack: vec![], concrete: false, lives: HashMap::new(), kinds: HashMap::new(), dead: false, max_cands: 4, outs_final: vec![], part: None,
        }
    }
    pub fn init_state(&self) -> St {
        St { pc: Rc::new(vec![Rc::new(vec![])]), mem: Mem { objs: vec![], sp: STACK_BASE }, steps: 0, outs: Rc::new(vec![]) }
    }
    pub fn note(&mut self, s: String) { *self.incomplete.entry(s).or_insert(0) += 1; }

    // ------------------------------------------------------------ domains
    pub fn bdom(&self, b: &Bx, v: u32) -> Rc<Dom> { match b.get(v as usize) { Some(d) => d.clone(), None => self.ar.vars[v as usize].dom.clone() } }
    fn bset(&self, b: &Bx, v: u32, d: Rc<Dom>) -> Bx {
        let mut x = (**b).clone();
        while x.len() <= v as usize { let i = x.len(); x.push(self.ar.vars[i].dom.clone()); }
        x[v as usize] = d;
        Rc::new(x)
    }
    fn pcdom(&self, pc: &Pc, v: u32) -> Rc<Dom> {
        let mut d = self.bdom(&pc[0], v);
        for b in pc.iter().skip(1) { let e = self.bdom(b, v); if *e != *d { d = d.union(&e); } }
        d
    }
    fn mb(&self, b: &mut Vec<Bx>) {
        if b.len() < 2 { return; }
        let m = b.iter().map(|x| x.len()).max().unwrap();
        for x in b.iter_mut() {
            if x.len() < m {
                let mut y = (**x).clone();
                while y.len() < m { let i = y.len(); y.push(self.ar.vars[i].dom.clone()); }
                *x = Rc::new(y);
            }
        }
        merge_boxes(b);
    }
    pub fn cert(&mut self, t: T, d: &Rc<Dom>) {
        let h = self.ar.n(t).h;
        match self.certs.get_mut(&h) {
            Some(e) => { if !d.subset(&e.1) { e.1 = e.1.union(d); } }
            None => { self.certs.insert(h, (t, d.clone())); }
        }
    }
    fn split(&mut self, t: T, d: &Rc<Dom>) -> (Rc<Dom>, Rc<Dom>) {
        let key = (t, d.h, d.n);
        if let Some(r) = self.split_cache.get(&key) { return r.clone(); }
        let r = self.ar.split(t, d);
        self.cert(t, d);
        self.split_cache.insert(key, r.clone());
        r
    }
    /// substitute variables whose domain is a single value in this box
    fn subst_single(&mut self, t: T, b: &Bx) -> T {
        if self.ar.sup(t) != MANY { return t; }
        let mut memo = HashMap::new();
        for v in sup_vars(&self.ar, t) {
            let d = self.bdom(b, v);
            if d.n == 1 { let x = self.ar.var(v); let c = self.ar.c(d.first() as u64, 32); memo.insert(x, c); }
        }
        if memo.is_empty() { return t; }
        self.ar.rebuild(t, &mut memo)
    }
    /// pick a variable of a multi-variable term and partition its domain by the
    /// joint value of the term's maximal subterms over that variable
    fn partition(&mut self, t: T, b: &Bx) -> Result<(u32, Vec<(Rc<Dom>, T)>), String> {
        let vars = sup_vars(&self.ar, t);
        // maximal single-variable subterms
        let mut per: HashMap<u32, Vec<T>> = HashMap::new();
        let mut seen = HashSet::new();
        let mut st = vec![t];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            let n = *self.ar.n(x);
            if n.sup == NONE { continue; }
            if n.sup != MANY { per.entry(n.sup).or_default().push(x); continue; }
            let ar = Arena::arity(n.op);
            for (i, y) in [n.a, n.b, n.c].iter().enumerate() { if i < ar { st.push(*y); } }
        }
        let mut best: Option<(u32, Vec<Rc<Dom>>, Vec<Vec<u64>>)> = None;
        for v in vars {
            let d = self.bdom(b, v);
            let mut ok = true;
            let mut subs = per.get(&v).cloned().unwrap_or_default();
            subs.sort();
            let mut tabs = vec![];
            for &s in &subs {
                match self.ar.runs(s, &d) { Some(r) if r.len() <= 8192 => tabs.push(r), _ => { ok = false; break; } }
            }
            let classes = if ok { joint(&tabs, &d) } else { vec![] };
            if classes.len() > 4096 { ok = false; }
            if !ok { continue; }
            if best.as_ref().map_or(true, |x| classes.len() < x.1.len()) {
                let (a, c) = classes.into_iter().unzip();
                best = Some((v, a, c));
            }
        }
        let (v, ds, vals) = best.ok_or_else(|| "no finite partition of a multi-variable term".to_string())?;
        let mut subs = per.get(&v).cloned().unwrap_or_default();
        subs.sort();
        let d = self.bdom(b, v);
        for &s in &subs { self.cert(s, &d); }
        let mut out = vec![];
        for (dom, vs) in ds.into_iter().zip(vals) {
            let mut memo = HashMap::new();
            for (i, &s) in subs.iter().enumerate() { let w = self.ar.w(s); let c = self.ar.c(vs[i], w); memo.insert(s, c); }
            let t2 = self.ar.rebuild(t, &mut memo);
            out.push((dom, t2));
        }
        Ok((v, out))
    }
    fn split_box(&mut self, t: T, b: &Bx, yes: &mut Vec<Bx>, no: &mut Vec<Bx>) -> Result<(), String> {
        if let Some(c) = self.ar.cv(t) { if c != 0 { yes.push(b.clone()) } else { no.push(b.clone()) } return Ok(()); }
        let s = self.ar.sup(t);
        if s != MANY {
            let d = self.bdom(b, s);
            let (y, n) = self.split(t, &d);
            if n.empty() { yes.push(b.clone()); } else if y.empty() { no.push(b.clone()); } else {
                yes.push(self.bset(b, s, y));
                no.push(self.bset(b, s, n));
            }
            return Ok(());
        }
        let t1 = self.subst_single(t, b);
        if self.ar.sup(t1) != MANY { return self.split_box(t1, b, yes, no); }
        let n = *self.ar.n(t1);
        match n.op {
            K::And => {
                let mut y1 = vec![];
                self.split_box(n.a, b, &mut y1, no)?;
                for x in y1 { self.split_box(n.b, &x, yes, no)?; }
                return Ok(());
            }
            K::Or => {
                let mut n1 = vec![];
                self.split_box(n.a, b, yes, &mut n1)?;
                for x in n1 { self.split_box(n.b, &x, yes, no)?; }
                return Ok(());
            }
            K::Xor if self.ar.cv(n.b) == Some(1) => return self.split_box(n.a, b, no, yes),
            K::Ite => {
                let (mut y1, mut n1) = (vec![], vec![]);
                self.split_box(n.a, b, &mut y1, &mut n1)?;
                for x in y1 { self.split_box(n.b, &x, yes, no)?; }
                for x in n1 { self.split_box(n.c, &x, yes, no)?; }
                return Ok(());
            }
            _ => {}
        }
        let (v, parts) = self.partition(t1, b)?;
        let (mut y, mut n) = (vec![], vec![]);
        for (d, t2) in parts {
            let bb = self.bset(b, v, d);
            self.split_box(t2, &bb, &mut y, &mut n)?;
        }
        self.mb(&mut y);
        self.mb(&mut n);
        yes.extend(y);
        no.extend(n);
        Ok(())
    }
    pub fn split_pc(&mut self, t: T, pc: &Pc) -> Result<(Vec<Bx>, Vec<Bx>), String> {
        let (mut y, mut n) = (vec![], vec![]);
        for b in pc.iter() { self.split_box(t, b, &mut y, &mut n)?; }
        if y.len() > 1 { self.mb(&mut y); }
        if n.len() > 1 { self.mb(&mut n); }
        Ok((y, n))
    }
    /// all values of a term over a box, with the sub-boxes where they occur
    fn values_box(&mut self, t: T, b: &Bx, out: &mut BTreeMap<u64, Vec<Bx>>, lim: usize) -> Result<(), String> {
        if let Some(c) = self.ar.cv(t) { out.entry(c).or_default().push(b.clone()); return Ok(()); }
        let s = self.ar.sup(t);
        if s != MANY {
            let d = self.bdom(b, s);
            let r = self.ar.runs(t, &d).ok_or("too many values to enumerate")?;
            self.cert(t, &d);
            let mut by: BTreeMap<u64, Vec<(u32, u32)>> = BTreeMap::new();
            for x in r { by.entry(x.2).or_default().push((x.0, x.1)); }
            if by.len() > lim { return Err(format!("{} values to enumerate", by.len())); }
            for (v, iv) in by { let dd = Dom::new(iv); let bb = self.bset(b, s, dd); out.entry(v).or_default().push(bb); }
            return Ok(());
        }
        let t1 = self.subst_single(t, b);
        if self.ar.sup(t1) != MANY { return self.values_box(t1, b, out, lim); }
        let (v, parts) = self.partition(t1, b)?;
        for (d, t2) in parts { let bb = self.bset(b, v, d); self.values_box(t2, &bb, out, lim)?; }
        if out.len() > lim { return Err(format!("{} values to enumerate", out.len())); }
        Ok(())
    }
    pub fn values(&mut self, t: T, pc: &Pc) -> Result<Vec<(u64, Pc)>, String> {
        let mut m = BTreeMap::new();
        for b in pc.iter() { self.values_box(t, b, &mut m, 8192)?; }
        Ok(m.into_iter().map(|(v, mut bs)| { if bs.len() > 1 { self.mb(&mut bs); } (v, Rc::new(bs)) }).collect())
    }

    // ------------------------------------------------------------- values
    pub fn tm(&mut self, v: &V, w: u32) -> T {
        match v {
            V::C(x, cw) => self.ar.c(*x, *cw),
            V::S(t) => *t,
            V::U => { self.n_undef += 1; self.ar.c(0, w) }
            V::A(_) => panic!("aggregate used as scalar"),
        }
    }
    pub fn vt(&self, t: T) -> V { match self.ar.cv(t) { Some(c) => V::C(c, self.ar.w(t)), None => V::S(t) } }
    fn bin(&mut self, k: K, a: &V, b: &V, w: u32) -> V {
        let z = V::C(0, w);
        let a = if *a == V::U { self.n_undef += 1; &z } else { a };
        let b = if *b == V::U { self.n_undef += 1; &z } else { b };
        if let (V::C(x, _), V::C(y, _)) = (a, b) {
            let rw = match k { K::Eq | K::Ult | K::Ule | K::Slt | K::Sle => 1, _ => w };
            return V::C(crate::term::fold(k, rw, *x, *y, w).unwrap(), rw);
        }
        if let (V::A(x), V::A(y)) = (a, b) {
            let r: Vec<V> = x.iter().zip(y.iter()).map(|(p, q)| self.bin(k, p, q, w)).collect();
            return V::A(Rc::new(r));
        }
        if let (V::A(x), V::C(..)) = (a, b) { let r: Vec<V> = x.iter().map(|p| self.bin(k, p, b, w)).collect(); return V::A(Rc::new(r)); }
        let ta = self.tm(a, w);
        let tb = self.tm(b, w);
        let t = self.ar.bin(k, ta, tb);
        self.vt(t)
    }
    fn notv(&mut self, a: &V) -> V {
        match a {
            V::C(x, w) => V::C(!x & msk(*w), *w),
            V::A(v) => { let r: Vec<V> = v.iter().map(|x| self.notv(x)).collect(); V::A(Rc::new(r)) }
            V::U => V::C(1, 1),
            V::S(t) => { let r = self.ar.not(*t); self.vt(r) }
        }
    }
    fn icmp(&mut self, p: Pred, a: &V, b: &V, w: u32) -> V {
        match p {
            Pred::Eq => self.bin(K::Eq, a, b, w),
            Pred::Ne => { let x = self.bin(K::Eq, a, b, w); self.notv(&x) }
            Pred::Ult => self.bin(K::Ult, a, b, w),
            Pred::Ule => self.bin(K::Ule, a, b, w),
            Pred::Ugt => self.bin(K::Ult, b, a, w),
            Pred::Uge => self.bin(K::Ule, b, a, w),
            Pred::Slt => self.bin(K::Slt, a, b, w),
            Pred::Sle => self.bin(K::Sle, a, b, w),
            Pred::Sgt => self.bin(K::Slt, b, a, w),
            Pred::Sge => self.bin(K::Sle, b, a, w),
        }
    }
    fn cast(&mut self, k: CastK, a: &V, w1: u32, w2: u32) -> V {
        match a {
            V::A(v) => { let r: Vec<V> = v.iter().map(|x| self.cast(k, x, w1, w2)).collect(); return V::A(Rc::new(r)); }
            V::C(x, _) => return V::C(match k { CastK::Trunc => x & msk(w2), CastK::Zext | CastK::Bit => *x, CastK::Sext => sx(*x, w1) as u64 & msk(w2) }, w2),
            V::U => return V::U,
            V::S(t) => {
                let r = match k { CastK::Trunc => self.ar.extract(*t, 0, w2), CastK::Zext => self.ar.zext(*t, w2), CastK::Sext => self.ar.sext(*t, w2), CastK::Bit => *t };
                self.vt(r)
            }
        }
    }
    /// a 32-bit single-variable term that equals its variable on the current
    /// domain is replaced by the variable (certified later)
    fn norm(&mut self, v: V, pc: &Pc) -> V {
        let t = match v { V::S(t) => t, _ => return v };
        let n = *self.ar.n(t);
        if n.sup >= MANY { return v; }
        let d0 = self.bdom(&pc[0], n.sup);
        if d0.n == 1 && pc.iter().all(|b| { let e = self.bdom(b, n.sup); e.n == 1 && e.first() == d0.first() }) {
            let mut o = vec![];
            self.ar.eval_points(t, &[d0.first()], &mut o);
            return V::C(o[0], n.w);
        }
        if n.w != 32 || n.op == K::Var || n.op == K::Ref { return v; }
        let mut pts = vec![];
        for b in pc.iter().take(2) { let d = self.bdom(b, n.sup); pts.push(d.first()); pts.push(d.iv[d.iv.len() - 1].1); }
        let mut o = vec![];
        self.ar.eval_points(t, &pts, &mut o);
        if pts.iter().zip(&o).any(|(a, b)| *a as u64 != *b) { return v; }
        let d = self.pcdom(pc, n.sup);
        let key = (n.h, d.h);
        let ok = match self.ident_cache.get(&key) {
            Some(&x) => x,
            None => {
                let mut ok = true;
                'o: for &(a, b) in &d.iv {
                    let mut s = a as u64;
                    while s <= b as u64 {
                        let e = (s + 65535).min(b as u64);
                        let p: Vec<u32> = (s as u32..=e as u32).collect();
                        self.ar.eval_points(t, &p, &mut o);
                        if p.iter().zip(&o).any(|(a, b)| *a as u64 != *b) { ok = false; break 'o; }
                        s = e + 1;
                    }
                }
                self.ident_cache.insert(key, ok);
                if ok && d.n > 1 { self.idents.insert(key, (t, d)); }
                ok
            }
        };
        if ok { let x = self.ar.var(n.sup); V::S(x) } else { v }
    }

    fn opv(&self, o: &Op, loc: &[V]) -> V {
        match o {
            Op::Local(n) => loc[*n as usize].clone(),
            Op::Int(v, w) => V::C(*v, *w),
            Op::Undef(t) => undef_of(t),
            Op::Zero(t) => zero_of(t),
            Op::Agg(v) => V::A(Rc::new(v.iter().map(|(_, x)| self.opv(x, loc)).collect())),
            Op::Big(..) => V::U,
        }
    }

    // ------------------------------------------------------------- memory
    fn glob(&self, a: u64, n: u64) -> Option<usize> {
        self.m.find_global(a, n)
    }
    fn ensure_obj(&self, mem: &mut Mem, a: u64, n: u64) -> Option<usize> {
        if let Some(i) = mem.find(a, n) { return Some(i); }
        if let Some(g) = self.glob(a, n) {
            let g = &self.m.globals[g];
            let o = (g.addr - GL_BASE) as usize;
            let cells = self.m.image[o..o + g.size as usize].iter().map(|b| Cl::B(*b)).collect();
            mem.insert(Obj { addr: g.addr, size: g.size, cells, h: StdCell::new(0) });
            return mem.find(a, n);
        }
        None
    }
    fn load_bytes(&mut self, mem: &Mem, a: u64, n: u64, out: &mut Vec<Cl>) -> Result<(), String> {
        if n == 0 { return Ok(()); }
        if let Some(i) = mem.find(a, n) {
            let o = &mem.objs[i];
            let s = (a - o.addr) as usize;
            out.extend_from_slice(&o.cells[s..s + n as usize]);
            return Ok(());
        }
        if self.glob(a, n).is_some() {
            let o = (a - GL_BASE) as usize;
            out.extend(self.m.image[o..o + n as usize].iter().map(|b| Cl::B(*b)));
            return Ok(());
        }
        Err(format!("load of {} bytes at unmapped address {:#x}", n, a))
    }
    fn store_bytes(&mut self, mem: &mut Mem, a: u64, c: &[Cl]) -> Result<(), String> {
        if c.is_empty() { return Ok(()); }
        match self.ensure_obj(mem, a, c.len() as u64) {
            Some(i) => {
                if a < STACK_BASE { if let Some(g) = self.glob(a, 1) { if self.m.globals[g].constant { return Err("store to constant memory".into()); } } }
                let o = Rc::make_mut(&mut mem.objs[i]);
                let s = (a - o.addr) as usize;
                o.cells[s..s + c.len()].copy_from_slice(c);
                o.h.set(0);
                Ok(())
            }
            None => Err(format!("store of {} bytes at unmapped address {:#x}", c.len(), a)),
        }
    }
    fn cells_to_val(&mut self, c: &[Cl], w: u32) -> V {
        let n = c.len();
        if c.iter().all(|x| matches!(x, Cl::B(_))) {
            let mut v = 0u64;
            for x in c.iter().rev() { if let Cl::B(b) = x { v = v << 8 | *b as u64; } }
            return V::C(v & msk(w), w);
        }
        if c.iter().all(|x| matches!(x, Cl::U)) { return V::U; }
        if let Cl::P(t, 0) = c[0] {
            if self.ar.w(t) == 8 * n as u32 && c.iter().enumerate().all(|(i, x)| *x == Cl::P(t, i as u8)) {
                let r = self.ar.extract(t, 0, w);
                return self.vt(r);
            }
        }
        let mut acc: Option<T> = None;
        for x in c.iter().rev() {
            let t = match x {
                Cl::U => { self.n_undef += 1; self.ar.c(0, 8) }
                Cl::B(b) => self.ar.c(*b as u64, 8),
                Cl::P(t, i) => self.ar.extract(*t, 8 * *i as u32, 8),
            };
            acc = Some(match acc { None => t, Some(h) => self.ar.concat(h, t) });
        }
        let r = self.ar.extract(acc.unwrap(), 0, w);
        self.vt(r)
    }
    fn val_to_cells(&mut self, v: &V, w: u32, out: &mut Vec<Cl>) {
        let n = ((w + 7) / 8) as usize;
        match v {
            V::U => out.extend(std::iter::repeat(Cl::U).take(n)),
            V::C(x, _) => for i in 0..n { out.push(Cl::B((x >> (8 * i)) as u8)); },
            V::S(t) => {
                let t = self.ar.zext(*t, 8 * n as u32);
                // resolve extensions so that equal bytes have one representation
                for i in 0..n {
                    let e = self.ar.extract(t, 8 * i as u32, 8);
                    match self.ar.cv(e) { Some(c) => out.push(Cl::B(c as u8)), None => out.push(Cl::P(t, i as u8)) }
                }
            }
            V::A(_) => unreachable!(),
        }
    }
    fn load_ty(&mut self, mem: &Mem, a: u64, t: &Ty) -> Result<V, String> {
        match t {
            Ty::Int(_) | Ty::Ptr => {
                let w = t.width().unwrap();
                if w > 64 { return Err("wide integer load".into()); }
                let n = (w as u64 + 7) / 8;
                let mut c = vec![];
                self.load_bytes(mem, a, n, &mut c)?;
                Ok(self.cells_to_val(&c, w))
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => { let s = e.size(); let mut v = vec![]; for i in 0..*n { v.push(self.load_ty(mem, a + i * s, e)?); } Ok(V::A(Rc::new(v))) }
            Ty::Struct(fs, _) => { let l = t.layout().0; let mut v = vec![]; for (i, f) in fs.iter().enumerate() { v.push(self.load_ty(mem, a + l[i], f)?); } Ok(V::A(Rc::new(v))) }
            _ => Err("load of unsupported type".into()),
        }
    }
    fn store_ty(&mut self, mem: &mut Mem, a: u64, t: &Ty, v: &V) -> Result<(), String> {
        match t {
            Ty::Int(_) | Ty::Ptr => {
                let w = t.width().unwrap();
                if w > 64 { return Err("wide integer store".into()); }
                let mut c = vec![];
                self.val_to_cells(v, w, &mut c);
                self.store_bytes(mem, a, &c)
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => { let s = e.size(); if let V::A(x) = v { for (i, y) in x.iter().enumerate() { self.store_ty(mem, a + i as u64 * s, e, y)?; } } Ok(()) }
            Ty::Struct(fs, _) => { let l = t.layout().0; if let V::A(x) = v { for (i, f) in fs.iter().enumerate() { self.store_ty(mem, a + l[i], f, &x[i])?; } } Ok(()) }
            _ => Err("store of unsupported type".into()),
        }
    }
    /// does every value of this single-variable pointer lie in constant memory?
    fn all_const(&mut self, t: T, n: u64, pc: &Pc) -> bool {
        let s = self.ar.sup(t);
        let d = self.pcdom(pc, s);
        let key = (self.ar.n(t).h, d.h, n);
        if let Some(&r) = self.const_ok.get(&key) { return r; }
        let mut ok = true;
        let (mut last, m) = (None, self.m);
        self.ar.eval_segments(t, &d, |_, _, x| {
            if last == Some(x) { return true; }
            last = Some(x);
            ok = m.find_global(x, n).map_or(false, |g| m.globals[g].constant);
            ok
        });
        self.const_ok.insert(key, ok);
        ok
    }
    /// bytes behind a pointer that may be a single-variable term into constant memory
    fn sym_bytes(&mut self, p: T, n: u64) -> Vec<Cl> {
        let mut out = vec![];
        let mut k = 0;
        while k < n {
            let s = (n - k).min(8);
            let s = if s >= 8 { 8 } else if s >= 4 { 4 } else if s >= 2 { 2 } else { 1 };
            let o = self.ar.c(k, 64);
            let a = self.ar.bin(K::Add, p, o);
            let l = self.ar.load(a, s as u32);
            for i in 0..s { out.push(Cl::P(l, i as u8)); }
            k += s;
        }
        out
    }
    /// the possible concrete values of an operand, one state each
    fn force(&mut self, st: &St, v: &V) -> Result<Vec<(Pc, u64)>, String> {
        match v {
            V::C(x, _) => Ok(vec![(st.pc.clone(), *x)]),
            V::U => Ok(vec![(st.pc.clone(), 0)]),
            V::S(t) => Ok(self.values(*t, &st.pc)?.into_iter().map(|(a, b)| (b, a)).collect()),
            V::A(_) => Err("aggregate address".into()),
        }
    }
    /// reduce a pointer to constants or to single-variable pointers into constant memory
    fn resolve_ptr(&mut self, st: &St, v: &V, n: u64) -> Result<Vec<(Pc, V)>, String> {
        match v {
            V::S(t) => {
                let s = self.ar.sup(*t);
                if s == MANY {
                    let mut out = vec![];
                    for b in st.pc.iter() {
                        let mut todo = vec![(b.clone(), *t)];
                        while let Some((b, t)) = todo.pop() {
                            let t1 = self.subst_single(t, &b);
                            if self.ar.sup(t1) != MANY { out.push((b, t1)); continue; }
                            let (v, parts) = self.partition(t1, &b)?;
                            for (d, t2) in parts { let bb = self.bset(&b, v, d); todo.push((bb, t2)); }
                        }
                    }
                    let mut by: BTreeMap<T, Vec<Bx>> = BTreeMap::new();
                    for (b, t) in out { by.entry(t).or_default().push(b); }
                    let mut r = vec![];
                    for (t, bs) in by {
                        let v = self.vt(t);
                        let s2 = St { pc: Rc::new(bs), ..st.clone() };
                        r.extend(self.resolve_ptr(&s2, &v, n)?);
                    }
                    return Ok(r);
                }
                if self.all_const(*t, n.max(1), &st.pc) || (n == 0) { return Ok(vec![(st.pc.clone(), v.clone())]); }
                Ok(self.values(*t, &st.pc)?.into_iter().map(|(a, b)| (b, V::C(a, 64))).collect())
            }
            _ => Ok(vec![(st.pc.clone(), v.clone())]),
        }
    }

    // --------------------------------------------------------- candidates
    pub fn fail(&mut self, kind: &str, msg: String, pc: &[Bx]) {
        if pc.is_empty() { return; }
        let trace: Vec<String> = self.stack.iter().map(|f| short(&self.m.fns[*f as usize].name)).collect();
        let mut inputs = vec![];
        for (i, v) in &self.inputs { inputs.push((*i, self.bdom(&pc[0], *v).first() as u64)); }
        let c = Cand { kind: kind.into(), msg: format!("{} in {}", msg, trace.join(" > ")), inputs, smt: false };
        FOUND.lock().unwrap().push((self.job, c.clone()));
        self.cands.push(c);
        if self.cands.len() >= self.max_cands { self.dead = true; }
    }

    fn merge_states(&mut self, v: Vec<(St, V)>) -> Vec<(St, V)> {
        if v.len() < 2 { return v; }
        let mut by: HashMap<u64, Vec<usize>> = HashMap::new();
        let mut out: Vec<(St, V, Vec<Bx>)> = vec![];
        for (st, val) in v {
            let mut h = st.mem.hash();
            h = mix(h ^ hv(&val));
            let l = by.entry(h).or_default();
            let mut done = false;
            for &i in l.iter() {
                if out[i].1 == val && out[i].0.mem.same(&st.mem) && out[i].0.outs == st.outs {
                    out[i].2.extend(st.pc.iter().cloned());
                    out[i].0.steps = out[i].0.steps.max(st.steps);
                    self.n_merged += 1;
                    done = true;
                    break;
                }
            }
            if !done { l.push(out.len()); let b = (*st.pc).clone(); out.push((st, val, b)); }
        }
        out.into_iter().map(|(mut st, v, mut b)| { if b.len() > st.pc.len() { self.mb(&mut b); st.pc = Rc::new(b); } (st, v) }).collect()
    }

    fn live_at(&mut self, fid: u32, f: &Func, blk: usize, idx: usize) -> Rc<Vec<u32>> {
        if let Some(r) = self.lives.get(&(fid, blk, idx)) { return r.clone(); }
        let r = if idx == 0 { f.live[blk].clone() } else {
            let mut cur: HashSet<u32> = HashSet::new();
            for &s in &f.succ[blk] {
                for x in &f.live[s] { cur.insert(*x); }
                for i in &f.blocks[s].insts {
                    if let IK::Phi(_, v) = &i.k {
                        cur.remove(&i.dst.unwrap());
                        for (o, pb) in v { if *pb == blk { if let Op::Local(x) = o { cur.insert(*x); } } }
                    } else { break; }
                }
            }
            // a phi destination of a successor may be live here under another role (loops)
            for &s in &f.succ[blk] { for i in &f.blocks[s].insts { if let IK::Phi(_, v) = &i.k { for (o, pb) in v { if *pb == blk { if let Op::Local(x) = o { cur.insert(*x); } } } } else { break; } } }
            for i in f.blocks[blk].insts[idx..].iter().rev() {
                if let Some(d) = i.dst { cur.remove(&d); }
                if let IK::Phi(..) = i.k { continue; }
                uses(&i.k, &mut |x| { cur.insert(x); });
            }
            let mut v: Vec<u32> = cur.into_iter().collect();
            v.sort();
            v
        };
        let r = Rc::new(r);
        self.lives.insert((fid, blk, idx), r.clone());
        r
    }

    fn kind(&mut self, f: u32) -> u8 {
        if let Some(&k) = self.kinds.get(&f) { return k; }
        let fi = &self.m.fns[f as usize];
        let n = &fi.name;
        let k = if n.starts_with("vp_") && fi.body.is_none() { K_VP }
            else if n.contains("___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" || n == "calloc" { K_ALLOCZ }
            else if n.contains("___rust_dealloc") || n == "__rust_dealloc" || n == "free" { K_DEALLOC }
            else if n.contains("___rust_realloc") || n == "__rust_realloc" || n == "realloc" { K_REALLOC }
            else if n.contains("___rust_alloc_error") || n.contains("__rust_alloc_error") { K_NORET }
            else if n.contains("___rust_no_alloc_shim") || n.contains("__rust_no_alloc_shim") { K_NOP }
            else if n.ends_with("___rust_alloc") || n == "__rust_alloc" || n == "malloc" { K_ALLOC }
            else if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume") || n.starts_with("llvm.dbg") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.donothing") { K_NOP }
            else if fi.noreturn { K_NORET }
            else if fi.body.is_some() && n != "memcmp" && n != "bcmp" && n != "memcpy" && n != "memmove" && n != "memset" { K_BODY }
            else { K_INTR };
        self.kinds.insert(f, k);
        k
    }

    // ------------------------------------------------------------ calling
    pub fn call(&mut self, mut st: St, f: u32, args: Vec<V>) -> Vec<(St, V)> {
        if self.dead { return vec![]; }
        match self.kind(f) {
            K_BODY => {
                if self.stack.len() > 400 {
                    let pc = st.pc.clone();
                    self.fail("deep-recursion", "call depth above 400".into(), &pc);
                    return vec![];
                }
                self.fns.insert(f);
                self.stack.push(f);
                let n0 = self.n_steps;
                let r = self.run(st, f, args);
                { let d = self.n_steps - n0; let e = self.prof.entry(f).or_insert((0, 0, 0)); e.0 += 1; e.1 += d; e.2 += r.len() as u64; }
                self.stack.pop();
                self.merge_states(r)
            }
            K_NORET => {
                let n = short(&self.m.fns[f as usize].name);
                let pc = st.pc.clone();
                self.fail("panic", n, &pc);
                vec![]
            }
            K_NOP => vec![(st, V::U)],
            K_DEALLOC => {
                if let V::C(a, _) = args[0] {
                    if let Some(i) = st.mem.find(a, 0) { if st.mem.objs[i].addr == a && a >= HEAP_BASE { st.mem.objs.remove(i); } }
                    return vec![(st, V::U)];
                }
                self.forked(st, &args, &[0], f)
            }
            k @ (K_ALLOC | K_ALLOCZ | K_REALLOC) => {
                let name = self.m.fns[f as usize].name.clone();
                let c = |i: usize| if let V::C(x, _) = args[i] { Some(x) } else { None };
                if k == K_REALLOC {
                    let (pi, ni) = if name == "realloc" { (0, 1) } else { (0, 3) };
                    let (a, n) = match (c(pi), c(ni)) { (Some(a), Some(n)) => (a, n), _ => return self.forked(st, &args, &[pi, ni], f) };
                    match st.mem.find(a, 0) {
                        Some(i) if st.mem.objs[i].addr == a => {
                            let o = Rc::make_mut(&mut st.mem.objs[i]);
                            o.cells.resize(n as usize, Cl::U);
                            o.size = n;
                            o.h.set(0);
                            vec![(st, V::C(a, 64))]
                        }
                        _ => { let pc = st.pc.clone(); self.fail("memory", "realloc of unknown pointer".into(), &pc); vec![] }
                    }
                } else {
                    let n = if name == "calloc" { match (c(0), c(1)) { (Some(a), Some(b)) => a * b, _ => return self.forked(st, &args, &[0, 1], f) } }
                        else { match c(0) { Some(n) => n, None => return self.forked(st, &args, &[0], f) } };
                    if n > 1 << 20 { self.note(format!("allocation of {} bytes", n)); return vec![]; }
                    let mut a = HEAP_BASE;
                    let s = st.mem.objs.partition_point(|o| o.addr < HEAP_BASE);
                    for o in &st.mem.objs[s..] { if o.addr == a { a += 1 << 21; } else { break; } }
                    let fill = if k == K_ALLOCZ { Cl::B(0) } else { Cl::U };
                    st.mem.insert(Obj { addr: a, size: n, cells: vec![fill; n as usize], h: StdCell::new(0) });
                    vec![(st, V::C(a, 64))]
                }
            }
            K_VP => self.vp(st, f, args),
            _ => self.intrinsic(st, f, args),
        }
    }
    /// re-run a call once per concrete value of the given arguments
    fn forked(&mut self, st: St, args: &[V], which: &[usize], f: u32) -> Vec<(St, V)> {
        let mut sts = vec![(st, args.to_vec())];
        for &w in which {
            let mut nx = vec![];
            for (s, a) in sts {
                match self.force(&s, &a[w]) {
                    Ok(l) => for (pc, x) in l { let mut b = a.clone(); let bw = match &a[w] { V::C(_, w) => *w, V::S(t) => self.ar.w(*t), _ => 64 }; b[w] = V::C(x, bw); nx.push((St { pc, ..s.clone() }, b)); },
                    Err(e) => self.note(format!("{} ({})", e, short(&self.m.fns[f as usize].name))),
                }
            }
            sts = nx;
        }
        self.n_states += sts.len() as u64;
        let mut r = vec![];
        for (s, a) in sts { r.extend(self.call(s, f, a)); }
        self.merge_states(r)
    }

    fn cmp_bytes(&mut self, pc: &Pc, a: &[Cl], b: &[Cl], ordered: bool) -> Result<Vec<(Pc, u64)>, String> {
        let mut res: BTreeMap<u64, Vec<Bx>> = BTreeMap::new();
        let mut cur: Vec<Bx> = (**pc).clone();
        for i in 0..a.len() {
            if a[i] == b[i] { continue; }
            if cur.is_empty() { break; }
            if let (Cl::B(x), Cl::B(y)) = (a[i], b[i]) {
                let r = if ordered && x < y { 0xffff_ffff } else { 1 };
                res.entry(r).or_default().extend(cur.drain(..));
                break;
            }
            let mut g = |e: &mut Self, c: Cl| match c { Cl::U => { e.n_undef += 1; e.ar.c(0, 8) } Cl::B(x) => e.ar.c(x as u64, 8), Cl::P(t, k) => e.ar.extract(t, 8 * k as u32, 8) };
            let (ta, tb) = (g(self, a[i]), g(self, b[i]));
            let eq = self.ar.bin(K::Eq, ta, tb);
            let (y, n) = self.split_pc(eq, &Rc::new(cur))?;
            if !n.is_empty() {
                if ordered {
                    let lt = self.ar.bin(K::Ult, ta, tb);
                    let (l, g) = self.split_pc(lt, &Rc::new(n))?;
                    if !l.is_empty() { res.entry(0xffff_ffff).or_default().extend(l); }
                    if !g.is_empty() { res.entry(1).or_default().extend(g); }
                } else { res.entry(1).or_default().extend(n); }
            }
            cur = y;
        }
        if !cur.is_empty() { res.entry(0).or_default().extend(cur); }
        Ok(res.into_iter().map(|(v, mut b)| { self.mb(&mut b); (Rc::new(b), v) }).collect())
    }

    fn vp(&mut self, mut st: St, f: u32, args: Vec<V>) -> Vec<(St, V)> {
        let name = self.m.fns[f as usize].name.clone();
        match name.as_str() {
            "vp_in" => {
                // vp_in(index, kind, table): kind 0 scalar values, 1 code points, 2 scalar values with ref(table) != 0, 3 any u32
                let (i, kind, tab) = match (&args[0], &args[1], &args[2]) { (V::C(i, _), V::C(k, _), V::C(t, _)) => (*i as u32, *k, *t as u32), _ => { self.note("symbolic input index".into()); return vec![]; } };
                let v = match self.inputs.get(&i) {
                    Some(&v) => v,
                    None => {
                        let (d, bits) = match self.in_dom.get(&i) {
                            Some(d) => (d.clone(), if kind == 3 { 32 } else { 21 }),
                            None => {
                                let mut d = input_domain(&self.ar.refs, kind, tab);
                                if let Some((pi, p, n)) = self.part { if pi == i { d = piece(&self.ar.refs, &d, p, n); } }
                                (d, if kind == 3 { 32 } else { 21 })
                            }
                        };
                        let (v, _) = self.ar.new_var(format!("in{}", i), d, bits);
                        self.inputs.insert(i, v);
                        v
                    }
                };
                let d = &self.ar.vars[v as usize].dom;
                if d.empty() { return vec![]; }
                if d.n == 1 { let x = d.first() as u64; return vec![(st, V::C(x, 32))]; }
                let t = self.ar.var(v);
                vec![(st, V::S(t))]
            }
            "vp_ref" => {
                let t = match &args[0] { V::C(t, _) => *t, _ => return self.forked(st, &args, &[0], f) };
                match &args[1] {
                    V::C(x, _) => { let r = self.ar.refs.get(t as u32, *x as u32); vec![(st, V::C(r as u64, 32))] }
                    V::S(x) => {
                        if self.ar.sup(*x) == MANY {
                            match self.resolve_many(&st.pc.clone(), *x) {
                                Ok(l) => return l.into_iter().map(|(pc, t2)| { let r = self.ar.rf(t, t2); (St { pc, ..st.clone() }, self.vt(r)) }).collect(),
                                Err(e) => { self.note(e); return vec![]; }
                            }
                        }
                        let r = self.ar.rf(t, *x);
                        vec![(st, self.vt(r))]
                    }
                    _ => { self.note("undefined reference index".into()); vec![] }
                }
            }
            "vp_assume" => {
                let t = self.tm(&args[0], 1);
                let t = self.ar.extract(t, 0, 1);
                match self.split_pc(t, &st.pc.clone()) {
                    Ok((y, _)) => { if y.is_empty() { return vec![]; } st.pc = Rc::new(y); vec![(st, V::U)] }
                    Err(e) => { self.note(e); vec![] }
                }
            }
            "vp_assert" => {
                // vp_assert(cond, id)
                self.n_assert += 1;
                let id = match &args[1] { V::C(x, _) => *x, _ => 0 };
                let t = self.tm(&args[0], 1);
                let t = self.ar.extract(t, 0, 1);
                let msg = format!("assertion {}", id);
                match self.ar.cv(t) {
                    Some(1) => { self.n_assert_const += 1; return vec![(st, V::U)]; }
                    Some(_) => { let pc = st.pc.clone(); self.fail("assert", msg, &pc); return vec![]; }
                    None => {}
                }
                let s = self.ar.sup(t);
                if s != MANY {
                    let d = self.pcdom(&st.pc, s);
                    // obligation for the solver: no value of the domain falsifies t
                    let h = self.ar.n(t).h;
                    let (_, n) = self.ar.split(t, &d);
                    let good = if n.empty() { d } else { d.minus(&n) };
                    if !good.empty() {
                        match self.asserts1.get_mut(&h) {
                            Some(e) => e.1 = e.1.union(&good),
                            None => { self.asserts1.insert(h, (t, good, msg.clone())); }
                        }
                    }
                    if !n.empty() {
                        let (y, n) = match self.split_pc(t, &st.pc.clone()) { Ok(x) => x, Err(e) => { self.note(e); return vec![]; } };
                        if n.is_empty() { return vec![(st, V::U)]; }
                        self.fail("assert", msg, &n);
                        if y.is_empty() { return vec![]; }
                        st.pc = Rc::new(y);
                    }
                    return vec![(st, V::U)];
                }
                let boxes = (*st.pc).clone();
                self.obligs.push(Oblig { t, boxes, msg });
                vec![(st, V::U)]
            }
            "vp_cover" => {
                if let V::C(x, _) = &args[0] { *self.covers.entry(*x).or_insert(0) += 1; }
                vec![(st, V::U)]
            }
            "vp_out" => {
                Rc::make_mut(&mut st.outs).push(args[0].clone());
                vec![(st, V::U)]
            }
            _ => { self.note(format!("unknown harness call {}", name)); vec![] }
        }
    }
    fn resolve_many(&mut self, pc: &Pc, t: T) -> Result<Vec<(Pc, T)>, String> {
        let mut by: BTreeMap<T, Vec<Bx>> = BTreeMap::new();
        for b in pc.iter() {
            let mut todo = vec![(b.clone(), t)];
            while let Some((b, t)) = todo.pop() {
                let t1 = self.subst_single(t, &b);
                if self.ar.sup(t1) != MANY { by.entry(t1).or_default().push(b); continue; }
                let (v, parts) = self.partition(t1, &b)?;
                for (d, t2) in parts { let bb = self.bset(&b, v, d); todo.push((bb, t2)); }
            }
        }
        Ok(by.into_iter().map(|(t, mut b)| { self.mb(&mut b); (Rc::new(b), t) }).collect())
    }

    fn intrinsic(&mut self, mut st: St, f: u32, args: Vec<V>) -> Vec<(St, V)> {
        let name = self.m.fns[f as usize].name.clone();
        let n = name.as_str();
        let wof = |s: &str| -> u32 { s.rsplit(".i").next().and_then(|x| x.parse().ok()).unwrap_or(0) };
        if n == "memcmp" || n == "bcmp" {
            let len = match &args[2] { V::C(x, _) => *x, _ => return self.forked(st, &args, &[2], f) };
            if len == 0 { return vec![(st, V::C(0, 32))]; }
            let mut out = vec![];
            let r = (|| -> Result<(), String> {
                for (pc, p) in self.resolve_ptr(&st, &args[0], len)? {
                    let s1 = St { pc, ..st.clone() };
                    let ca = self.bytes_at(&s1.mem, &p, len)?;
                    for (pc2, q) in self.resolve_ptr(&s1, &args[1], len)? {
                        let cb = self.bytes_at(&s1.mem, &q, len)?;
                        for (pc3, v) in self.cmp_bytes(&pc2, &ca, &cb, n == "memcmp")? { out.push((St { pc: pc3, ..st.clone() }, V::C(v, 32))); }
                    }
                }
                Ok(())
            })();
            if let Err(e) = r { self.note(format!("{} (memcmp)", e)); }
            return out;
        }
        if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") || n == "memcpy" || n == "memmove" {
            let len = match &args[2] { V::C(x, _) => *x, _ => return self.forked(st, &args, &[2], f) };
            let d = match &args[0] { V::C(x, _) => *x, _ => return self.forked(st, &args, &[0], f) };
            if len == 0 { return vec![(st, V::C(d, 64))]; }
            let mut out = vec![];
            match self.resolve_ptr(&st, &args[1], len) {
                Ok(l) => for (pc, p) in l {
                    let mut s2 = St { pc, ..st.clone() };
                    let r = self.bytes_at(&s2.mem, &p, len).and_then(|c| self.store_bytes(&mut s2.mem, d, &c));
                    match r { Ok(()) => out.push((s2, V::C(d, 64))), Err(e) => { let pc = s2.pc.clone(); self.fail("memory", e, &pc); } }
                },
                Err(e) => self.note(format!("{} (memcpy)", e)),
            }
            return out;
        }
        if n.starts_with("llvm.memset") || n == "memset" {
            let len = match &args[2] { V::C(x, _) => *x, _ => return self.forked(st, &args, &[2], f) };
            let d = match &args[0] { V::C(x, _) => *x, _ => return self.forked(st, &args, &[0], f) };
            let mut one = vec![];
            let b = match &args[1] { V::C(x, _) => V::C(*x & 255, 8), V::S(t) => { let t = self.ar.extract(*t, 0, 8); self.vt(t) } v => v.clone() };
            self.val_to_cells(&b, 8, &mut one);
            let c = vec![one[0]; len as usize];
            if let Err(e) = self.store_bytes(&mut st.mem, d, &c) { let pc = st.pc.clone(); self.fail("memory", e, &pc); return vec![]; }
            return vec![(st, V::C(d, 64))];
        }
        if n == "getrandom" {
            // keys of hash maps: one fixed value stands for all (listed as an assumption)
            let (d, len) = match (&args[0], &args[1]) { (V::C(x, _), V::C(l, _)) => (*x, *l), _ => { self.note("getrandom".into()); return vec![]; } };
            let c = vec![Cl::B(0x5A); len as usize];
            if let Err(e) = self.store_bytes(&mut st.mem, d, &c) { self.note(e); return vec![]; }
            return vec![(st, V::C(len, 64))];
        }
        if n == "__cxa_thread_atexit_impl" { return vec![(st, V::C(0, 32))]; }
        if n == "strlen" {
            let d = match &args[0] { V::C(x, _) => *x, _ => return self.forked(st, &args, &[0], f) };
            let mut k = 0;
            loop {
                let mut c = vec![];
                if self.load_bytes(&st.mem, d + k, 1, &mut c).is_err() { self.note("strlen".into()); return vec![]; }
                match c[0] { Cl::B(0) => break, Cl::B(_) => k += 1, _ => { self.note("strlen of symbolic bytes".into()); return vec![]; } }
            }
            return vec![(st, V::C(k, 64))];
        }
        if n.starts_with("llvm.threadlocal.address") || n.starts_with("llvm.expect") || n.starts_with("llvm.ptrmask") { return vec![(st, args[0].clone())]; }
        if n.starts_with("llvm.is.constant") { return vec![(st, V::C(0, 1))]; }
        if n.starts_with("llvm.load.relative") {
            let a = self.bin(K::Add, &args[0], &args[1], 64);
            return match self.load_any(&st, &a, &Ty::Int(32)) {
                Ok(l) => l.into_iter().map(|(s, v)| { let x = self.cast(CastK::Sext, &v, 32, 64); let r = self.bin(K::Add, &args[0], &x, 64); (s, r) }).collect(),
                Err(e) => { self.note(e); vec![] }
            };
        }
        let v = if n.starts_with("llvm.umin") || n.starts_with("llvm.umax") || n.starts_with("llvm.smin") || n.starts_with("llvm.smax") {
            let w = wof(n);
            let sg = n.as_bytes()[5] == b's';
            let c = self.bin(if sg { K::Slt } else { K::Ult }, &args[0], &args[1], w);
            let mn = n.contains("min");
            self.sel(&c, if mn { &args[0] } else { &args[1] }, if mn { &args[1] } else { &args[0] }, w)
        } else if n.starts_with("llvm.usub.sat") {
            let w = wof(n);
            let c = self.bin(K::Ult, &args[0], &args[1], w);
            let d = self.bin(K::Sub, &args[0], &args[1], w);
            self.sel(&c, &V::C(0, w), &d, w)
        } else if n.starts_with("llvm.uadd.sat") {
            let w = wof(n);
            let d = self.bin(K::Add, &args[0], &args[1], w);
            let c = self.bin(K::Ult, &d, &args[0], w);
            self.sel(&c, &V::C(msk(w), w), &d, w)
        } else if n.starts_with("llvm.uadd.with.overflow") {
            let w = wof(n);
            let d = self.bin(K::Add, &args[0], &args[1], w);
            let c = self.bin(K::Ult, &d, &args[0], w);
            V::A(Rc::new(vec![d, c]))
        } else if n.starts_with("llvm.usub.with.overflow") {
            let w = wof(n);
            let d = self.bin(K::Sub, &args[0], &args[1], w);
            let c = self.bin(K::Ult, &args[0], &args[1], w);
            V::A(Rc::new(vec![d, c]))
        } else if n.starts_with("llvm.umul.with.overflow") {
            let w = wof(n);
            let p = self.bin(K::Mul, &args[0], &args[1], w);
            let o = if w <= 32 {
                let a = self.cast(CastK::Zext, &args[0], w, 64);
                let b = self.cast(CastK::Zext, &args[1], w, 64);
                let q = self.bin(K::Mul, &a, &b, 64);
                self.bin(K::Ult, &V::C(msk(w), 64), &q, 64)
            } else {
                // a * b overflows 64 bits iff b != 0 and a > MAX / b
                let z = self.bin(K::Eq, &args[1], &V::C(0, w), w);
                let q = self.bin(K::UDiv, &V::C(msk(w), w), &args[1], w);
                let g = self.bin(K::Ult, &q, &args[0], w);
                self.sel(&z, &V::C(0, 1), &g, 1)
            };
            V::A(Rc::new(vec![p, o]))
        } else if n.starts_with("llvm.sadd.with.overflow") || n.starts_with("llvm.ssub.with.overflow") {
            let w = wof(n);
            let add = n.contains("sadd");
            let d = self.bin(if add { K::Add } else { K::Sub }, &args[0], &args[1], w);
            let sh = V::C(w as u64 - 1, w);
            let x = self.bin(K::Xor, &args[0], &d, w);
            let y = if add { self.bin(K::Xor, &args[1], &d, w) } else { self.bin(K::Xor, &args[0], &args[1], w) };
            let z = self.bin(K::And, &x, &y, w);
            let z = self.bin(K::LShr, &z, &sh, w);
            let o = self.cast(CastK::Trunc, &z, w, 1);
            V::A(Rc::new(vec![d, o]))
        } else if n.starts_with("llvm.fshl") || n.starts_with("llvm.fshr") {
            let w = wof(n);
            let s = match &args[2] { V::C(x, _) => *x % w as u64, _ => return self.forked(st, &args, &[2], f) };
            let l = n.starts_with("llvm.fshl");
            if s == 0 { if l { args[0].clone() } else { args[1].clone() } } else {
                let (x, y) = if l { (s, w as u64 - s) } else { (w as u64 - s, s) };
                let a = self.bin(K::Shl, &args[0], &V::C(x, w), w);
                let b = self.bin(K::LShr, &args[1], &V::C(y, w), w);
                self.bin(K::Or, &a, &b, w)
            }
        } else if n.starts_with("llvm.ucmp") || n.starts_with("llvm.scmp") {
            let w = wof(n);
            let rw: u32 = n[10..].strip_prefix('i').and_then(|s| s.split('.').next()).and_then(|x| x.parse().ok()).unwrap_or(8);
            let k = if n.starts_with("llvm.ucmp") { K::Ult } else { K::Slt };
            let lt = self.bin(k, &args[0], &args[1], w);
            let gt = self.bin(k, &args[1], &args[0], w);
            let a = self.sel(&gt, &V::C(1, rw), &V::C(0, rw), rw);
            self.sel(&lt, &V::C(msk(rw), rw), &a, rw)
        } else if n.starts_with("llvm.abs") {
            let w = wof(n);
            let c = self.bin(K::Slt, &args[0], &V::C(0, w), w);
            let d = self.bin(K::Sub, &V::C(0, w), &args[0], w);
            self.sel(&c, &d, &args[0].clone(), w)
        } else if n.starts_with("llvm.ctlz") || n.starts_with("llvm.cttz") || n.starts_with("llvm.ctpop") || n.starts_with("llvm.bswap") || n.starts_with("llvm.bitreverse") {
            let w = wof(n);
            match &args[0] {
                V::C(x, _) => {
                    let r = if n.starts_with("llvm.ctlz") { if *x == 0 { w as u64 } else { (x.leading_zeros() - (64 - w)) as u64 } }
                        else if n.starts_with("llvm.cttz") { if *x == 0 { w as u64 } else { x.trailing_zeros() as u64 } }
                        else if n.starts_with("llvm.ctpop") { x.count_ones() as u64 }
                        else if n.starts_with("llvm.bswap") { x.swap_bytes() >> (64 - w) }
                        else { x.reverse_bits() >> (64 - w) };
                    V::C(r, w)
                }
                v => {
                    let x = self.tm(v, w);
                    let mut acc;
                    if n.starts_with("llvm.ctpop") {
                        acc = self.ar.c(0, w);
                        for i in 0..w { let b = self.ar.extract(x, i, 1); let z = self.ar.zext(b, w); acc = self.ar.bin(K::Add, acc, z); }
                    } else if n.starts_with("llvm.ctlz") {
                        acc = self.ar.c(w as u64, w);
                        for i in 0..w { let b = self.ar.extract(x, i, 1); let c = self.ar.c((w - 1 - i) as u64, w); acc = self.ar.ite(b, c, acc); }
                    } else if n.starts_with("llvm.cttz") {
                        acc = self.ar.c(w as u64, w);
                        for i in (0..w).rev() { let b = self.ar.extract(x, i, 1); let c = self.ar.c(i as u64, w); acc = self.ar.ite(b, c, acc); }
                    } else {
                        let s = if n.starts_with("llvm.bswap") { 8 } else { 1 };
                        acc = self.ar.extract(x, 0, s);
                        let mut i = s;
                        while i < w { let b = self.ar.extract(x, i, s); acc = self.ar.concat(acc, b); i += s; }
                    }
                    self.vt(acc)
                }
            }
        } else {
            self.note(format!("call to {}", short(n)));
            return vec![];
        };
        vec![(st, v)]
    }
    fn bytes_at(&mut self, mem: &Mem, p: &V, n: u64) -> Result<Vec<Cl>, String> {
        match p {
            V::C(a, _) => { let mut c = vec![]; self.load_bytes(mem, *a, n, &mut c)?; Ok(c) }
            V::S(t) => Ok(self.sym_bytes(*t, n)),
            _ => Err("undefined pointer".into()),
        }
    }
    fn sel(&mut self, c: &V, a: &V, b: &V, w: u32) -> V {
        match c {
            V::C(x, _) => if *x != 0 { a.clone() } else { b.clone() },
            V::U => b.clone(),
            V::S(t) => {
                if a == b { return a.clone(); }
                if let (V::A(x), V::A(y)) = (a, b) { let r: Vec<V> = x.iter().zip(y.iter()).map(|(p, q)| { let w = match (p, q) { (V::C(_, w), _) | (_, V::C(_, w)) => *w, (V::S(t), _) => self.ar.w(*t), _ => 8 }; self.sel(c, p, q, w) }).collect(); return V::A(Rc::new(r)); }
                let x = self.tm(a, w);
                let y = self.tm(b, w);
                let r = self.ar.ite(*t, x, y);
                self.vt(r)
            }
            V::A(cs) => {
                let g = |v: &V, i: usize| match v { V::A(x) => x[i].clone(), v => v.clone() };
                let r: Vec<V> = (0..cs.len()).map(|i| { let (x, y) = (g(a, i), g(b, i)); self.sel(&cs[i], &x, &y, w) }).collect();
                V::A(Rc::new(r))
            }
        }
    }
    fn load_any(&mut self, st: &St, a: &V, t: &Ty) -> Result<Vec<(St, V)>, String> {
        let n = t.store_size();
        let mut out = vec![];
        for (pc, p) in self.resolve_ptr(st, a, n)? {
            let s2 = St { pc, ..st.clone() };
            let r = match &p {
                V::C(x, _) => self.load_ty(&s2.mem, *x, t),
                V::S(x) => Ok(self.load_sym(*x, t)),
                _ => Err("load through an undefined pointer".into()),
            };
            match r {
                Ok(v) => out.push((s2, v)),
                Err(e) if e.starts_with("load of") => { let pc = s2.pc.clone(); self.fail("memory", e, &pc); }
                Err(e) => return Err(e),
            }
        }
        Ok(out)
    }
    fn load_sym(&mut self, p: T, t: &Ty) -> V {
        match t {
            Ty::Int(_) | Ty::Ptr => {
                let w = t.width().unwrap();
                let n = (w + 7) / 8;
                if n.is_power_of_two() && n <= 8 { let l = self.ar.load(p, n); let r = self.ar.extract(l, 0, w); return self.vt(r); }
                let c = self.sym_bytes(p, n as u64);
                self.cells_to_val(&c, w)
            }
            Ty::Struct(fs, _) => {
                let l = t.layout().0;
                let v: Vec<V> = fs.iter().enumerate().map(|(i, f)| { let o = self.ar.c(l[i], 64); let a = self.ar.bin(K::Add, p, o); self.load_sym(a, f) }).collect();
                V::A(Rc::new(v))
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let s = e.size();
                let v: Vec<V> = (0..*n).map(|i| { let o = self.ar.c(i * s, 64); let a = self.ar.bin(K::Add, p, o); self.load_sym(a, e) }).collect();
                V::A(Rc::new(v))
            }
            _ => V::U,
        }
    }

    // -------------------------------------------------------------- run
    fn key(f: &Func, it: &Item) -> Vec<u32> {
        let nest = &f.nest[it.blk];
        let mut k = Vec::with_capacity(nest.len() * 2 + 2);
        for (i, h) in nest.iter().enumerate() { k.push(f.pos[*h as usize]); k.push(it.iters[i]); }
        k.push(f.pos[it.blk]);
        k.push(it.idx as u32);
        k
    }
    fn goto(&mut self, f: &Func, it: &mut Item, to: usize) {
        let from = it.blk;
        let (nf, nt) = (&f.nest[from], &f.nest[to]);
        let mut iters = Vec::with_capacity(nt.len());
        for (i, h) in nt.iter().enumerate() {
            if i < nf.len() && nf[i] == *h && iters.len() == i { iters.push(it.iters[i]); } else { iters.push(0); }
        }
        if let Some(l) = nt.last() { if *l as usize == to && nf.len() >= nt.len() && nf[nt.len() - 1] == *l { let k = nt.len() - 1; iters[k] += 1; } }
        it.iters = iters;
        // phis
        let mut upd: Vec<(u32, V)> = vec![];
        let mut n = 0;
        for i in &f.blocks[to].insts {
            if let IK::Phi(_, v) = &i.k {
                for (o, b) in v { if *b == from { upd.push((i.dst.unwrap(), self.opv(o, &it.loc))); break; } }
                n += 1;
            } else { break; }
        }
        for (d, v) in upd { it.loc[d as usize] = v; }
        it.blk = to;
        it.idx = n;
    }
    fn push(wl: &mut WL, f: &Func, it: Item) { wl.entry(Self::key(f, &it)).or_default().push(it); }

    fn run(&mut self, st: St, fid: u32, args: Vec<V>) -> Vec<(St, V)> {
        let f: Arc<Func> = match self.m.func(fid) { Ok(f) => f, Err(e) => { self.note(e); return vec![]; } };
        let sp0 = st.mem.sp;
        let mut loc = vec![V::U; f.nlocals];
        for (i, a) in args.into_iter().enumerate() { if i < f.nparams { loc[i] = a; } }
        let mut wl: WL = BTreeMap::new();
        let mut res: Vec<(St, V)> = vec![];
        let iters = vec![0; f.nest[0].len()];
        Self::push(&mut wl, &f, Item { st, loc, blk: 0, idx: 0, iters });
        while let Some((_, items)) = wl.pop_first() {
            if self.dead { return vec![]; }
            let items = if items.len() == 1 { items } else { self.merge_items(fid, &f, items) };
            for it in items { self.step(fid, &f, it, &mut wl, &mut res, sp0); }
        }
        res
    }
    fn merge_items(&mut self, fid: u32, f: &Func, items: Vec<Item>) -> Vec<Item> {
        let live = self.live_at(fid, f, items[0].blk, items[0].idx);
        let mut by: HashMap<u64, Vec<usize>> = HashMap::new();
        let mut out: Vec<(Item, Vec<Bx>)> = vec![];
        for it in items {
            let mut h = it.st.mem.hash();
            for &l in live.iter() { h = mix(h ^ hv(&it.loc[l as usize])); }
            let l = by.entry(h).or_default();
            let mut done = false;
            for &i in l.iter() {
                let o = &out[i].0;
                if live.iter().all(|&x| o.loc[x as usize] == it.loc[x as usize]) && o.st.mem.same(&it.st.mem) && o.st.outs == it.st.outs {
                    out[i].1.extend(it.st.pc.iter().cloned());
                    out[i].0.st.steps = out[i].0.st.steps.max(it.st.steps);
                    self.n_merged += 1;
                    done = true;
                    break;
                }
            }
            if !done { l.push(out.len()); let b = (*it.st.pc).clone(); out.push((it, b)); }
        }
        out.into_iter().map(|(mut it, mut b)| { if b.len() > it.st.pc.len() { self.mb(&mut b); it.st.pc = Rc::new(b); } it }).collect()
    }
    fn set(it: &mut Item, d: Option<u32>, v: V) { if let Some(d) = d { it.loc[d as usize] = v; } }

    fn spread(&mut self, f: &Func, it: Item, dst: Option<u32>, outs: Vec<(St, V)>, wl: &mut WL) -> Option<Item> {
        // continue after the current instruction with each outcome
        let Item { loc, blk, idx, iters, st: _ } = it;
        if outs.len() == 1 {
            let (st, v) = outs.into_iter().next().unwrap();
            let mut it = Item { st, loc, blk, idx: idx + 1, iters };
            Self::set(&mut it, dst, v);
            if wl.is_empty() { return Some(it); }
            Self::push(wl, f, it);
            return None;
        }
        self.n_states += outs.len() as u64;
        for (st, v) in outs {
            let mut it = Item { st, loc: loc.clone(), blk, idx: idx + 1, iters: iters.clone() };
            Self::set(&mut it, dst, v);
            Self::push(wl, f, it);
        }
        None
    }

    fn step(&mut self, fid: u32, f: &Func, mut it: Item, wl: &mut WL, res: &mut Vec<(St, V)>, sp0: u64) {
        loop {
            let inst = &f.blocks[it.blk].insts[it.idx];
            self.n_steps += 1;
            it.st.steps += 1;
            if self.n_steps & 0xfff == 0 && Instant::now() > self.deadline { if !self.dead { self.note("time budget exhausted".into()); } self.dead = true; }
            if self.dead { return; }
            if it.st.steps > self.step_limit {
                let pc = it.st.pc.clone();
                self.fail("nontermination", format!("more than {} instructions on one path", self.step_limit), &pc);
                return;
            }
            match &inst.k {
                IK::Bin(k, t, a, b) => {
                    let w = scal_w(t);
                    if w > 64 { self.note("wide integer arithmetic".into()); return; }
                    let (x, y) = (self.opv(a, &it.loc), self.opv(b, &it.loc));
                    let mut v = self.bin(binkind(*k), &x, &y, w);
                    if w == 32 && matches!(k, BinK::Or | BinK::Add) { v = self.norm(v, &it.st.pc); }
                    Self::set(&mut it, inst.dst, v);
                }
                IK::Icmp(p, t, a, b) => {
                    let w = scal_w(t);
                    if w > 64 { self.note("wide integer comparison".into()); return; }
                    let (x, y) = (self.opv(a, &it.loc), self.opv(b, &it.loc));
                    let v = self.icmp(*p, &x, &y, w);
                    Self::set(&mut it, inst.dst, v);
                }
                IK::Cast(k, t1, a, t2) => {
                    let (w1, w2) = (scal_w(t1), scal_w(t2));
                    let x = self.opv(a, &it.loc);
                    if *k == CastK::Bit && w1 != w2 && w1 <= 64 && w2 <= 64 {
                        // regroup the bits of a vector
                        let from = match (t1, &x) { (Ty::Vec(..), V::A(v)) => v.iter().cloned().collect(), (Ty::Vec(..), _) => vec![], _ => vec![x.clone()] };
                        let mut parts: Vec<(V, u32)> = from.into_iter().map(|v| (v, w1)).collect();
                        if w1 > w2 {
                            if w1 % w2 != 0 { self.note("odd vector cast".into()); return; }
                            let mut o = vec![];
                            for (v, _) in parts { for i in 0..w1 / w2 {
                                let e = match &v { V::C(c, _) => V::C((c >> (i * w2)) & msk(w2), w2), V::S(t) => { let t = self.ar.extract(*t, i * w2, w2); self.vt(t) } _ => V::U };
                                o.push((e, w2));
                            } }
                            parts = o;
                        } else {
                            if w2 % w1 != 0 { self.note("odd vector cast".into()); return; }
                            let mut o = vec![];
                            for g in parts.chunks((w2 / w1) as usize) {
                                let mut acc = V::C(0, w2);
                                for (i, (v, _)) in g.iter().enumerate() {
                                    let z = self.cast(CastK::Zext, v, w1, w2);
                                    let s = self.bin(K::Shl, &z, &V::C(i as u64 * w1 as u64, w2), w2);
                                    acc = self.bin(K::Or, &acc, &s, w2);
                                }
                                o.push((acc, w2));
                            }
                            parts = o;
                        }
                        let v = if let Ty::Vec(..) = t2 { V::A(Rc::new(parts.into_iter().map(|p| p.0).collect())) } else if parts.len() == 1 { parts.pop().unwrap().0 } else { self.note("vector cast".into()); return; };
                        Self::set(&mut it, inst.dst, v);
                        it.idx += 1;
                        continue;
                    }
                    if w1 > 64 || w2 > 64 || (*k == CastK::Bit && w1 != w2) { self.note("wide or vector cast".into()); return; }
                    let mut v = self.cast(*k, &x, w1, w2);
                    if w2 == 32 && *k == CastK::Zext { v = self.norm(v, &it.st.pc); }
                    Self::set(&mut it, inst.dst, v);
                }
                IK::Select(_, c, t, a, b) => {
                    let cv = self.opv(c, &it.loc);
                    let (x, y) = (self.opv(a, &it.loc), self.opv(b, &it.loc));
                    let fork = match &cv {
                        V::S(ct) => {
                            let s = self.ar.sup(*ct);
                            let same = |e: &Self, v: &V| match v { V::S(t) => e.ar.sup(*t) == s, V::A(_) => false, _ => true };
                            let sc = matches!(t, Ty::Int(_) | Ty::Ptr);
                            !(sc && (t.width() == Some(1) || (s != MANY && same(self, &x) && same(self, &y))))
                        }
                        _ => false,
                    };
                    if fork && x != y {
                        let ct = if let V::S(t) = cv { t } else { unreachable!() };
                        match self.split_pc(ct, &it.st.pc.clone()) {
                            Ok((yb, nb)) => {
                                let mut o = vec![];
                                if !yb.is_empty() { o.push((St { pc: Rc::new(yb), ..it.st.clone() }, x)); }
                                if !nb.is_empty() { o.push((St { pc: Rc::new(nb), ..it.st.clone() }, y)); }
                                match self.spread(f, it, inst.dst, o, wl) { Some(n) => { it = n; continue; } None => return }
                            }
                            Err(e) => { self.note(format!("{} (select)", e)); return; }
                        }
                    }
                    let mut v = self.sel(&cv, &x, &y, scal_w(t));
                    if scal_w(t) == 32 { v = self.norm(v, &it.st.pc); }
                    Self::set(&mut it, inst.dst, v);
                }
                IK::Gep(t, base, ix) => {
                    let mut a = self.opv(base, &it.loc);
                    let mut cur = t.clone();
                    let mut bad = false;
                    for (i, (ty, o)) in ix.iter().enumerate() {
                        let iv = self.opv(o, &it.loc);
                        let w = ty.width().unwrap_or(64);
                        if i == 0 {
                            let x = self.cast(CastK::Sext, &iv, w, 64);
                            let s = self.bin(K::Mul, &x, &V::C(cur.size(), 64), 64);
                            a = self.bin(K::Add, &a, &s, 64);
                        } else {
                            match (&cur, &iv) {
                                (Ty::Arr(_, e), _) | (Ty::Vec(_, e), _) => {
                                    let x = self.cast(CastK::Sext, &iv, w, 64);
                                    let s = self.bin(K::Mul, &x, &V::C(e.size(), 64), 64);
                                    a = self.bin(K::Add, &a, &s, 64);
                                    cur = (**e).clone();
                                }
                                (_, V::C(c, _)) => match crate::ir::step(&cur, *c as i64) { Ok((o, n)) => { a = self.bin(K::Add, &a, &V::C(o, 64), 64); cur = n; } Err(_) => bad = true },
                                _ => bad = true,
                            }
                        }
                    }
                    if bad { self.note("address computation".into()); return; }
                    Self::set(&mut it, inst.dst, a);
                }
                IK::Load(t, a) => {
                    let av = self.opv(a, &it.loc);
                    if let V::C(x, _) = av {
                        match self.load_ty(&it.st.mem, x, t) {
                            Ok(mut v) => { if *t == Ty::Int(32) { v = self.norm(v, &it.st.pc); } Self::set(&mut it, inst.dst, v); }
                            Err(e) => { if e.starts_with("load of") && !e.contains("unsupported") { let pc = it.st.pc.clone(); self.fail("memory", e, &pc); } else { self.note(e); } return; }
                        }
                    } else {
                        match self.load_any(&it.st.clone(), &av, t) {
                            Ok(o) => match self.spread(f, it, inst.dst, o, wl) { Some(n) => { it = n; continue; } None => return },
                            Err(e) => { self.note(format!("{} (load in {})", e, short(&f.name))); return; }
                        }
                    }
                }
                IK::Store(t, v, a) => {
                    let x = self.opv(v, &it.loc);
                    let av = self.opv(a, &it.loc);
                    if let V::C(p, _) = av {
                        if let Err(e) = self.store_ty(&mut it.st.mem, p, t, &x) { if e.starts_with("store") && !e.contains("unsupported") { let pc = it.st.pc.clone(); self.fail("memory", e, &pc); } else { self.note(e); } return; }
                    } else {
                        let l = match self.force(&it.st.clone(), &av) { Ok(l) => l, Err(e) => { self.note(format!("{} (store in {})", e, short(&f.name))); return; } };
                        let mut o = vec![];
                        for (pc, p) in l {
                            let mut s = St { pc, ..it.st.clone() };
                            match self.store_ty(&mut s.mem, p, t, &x) { Ok(()) => o.push((s, V::U)), Err(e) => { let pc = s.pc.clone(); self.fail("memory", e, &pc); } }
                        }
                        match self.spread(f, it, None, o, wl) { Some(n) => { it = n; continue; } None => return }
                    }
                }
                IK::CmpXchg(t, a, c, n) => {
                    let (av, c, n) = (self.opv(a, &it.loc), self.opv(c, &it.loc), self.opv(n, &it.loc));
                    let old = match &av { V::C(x, _) => self.load_ty(&it.st.mem, *x, t), _ => Err("cmpxchg at a symbolic address".into()) };
                    let r = match (&old, &c, &av) {
                        (Ok(V::C(x, _)), V::C(y, _), V::C(p, _)) => if x == y { self.store_ty(&mut it.st.mem, *p, t, &n).map(|_| 1) } else { Ok(0) },
                        (Err(e), _, _) => Err(e.clone()),
                        _ => Err("cmpxchg of symbolic values".into()),
                    };
                    match r {
                        Ok(b) => Self::set(&mut it, inst.dst, V::A(Rc::new(vec![old.unwrap(), V::C(b, 1)]))),
                        Err(e) => { self.note(e); return; }
                    }
                }
                IK::Rmw(k, t, a, v) => {
                    let (av, v) = (self.opv(a, &it.loc), self.opv(v, &it.loc));
                    let w = if let Ty::Int(w) = t { *w } else { 64 };
                    let old = match &av { V::C(x, _) => self.load_ty(&it.st.mem, *x, t), _ => Err("atomicrmw at a symbolic address".into()) };
                    let old = match old { Ok(o) => o, Err(e) => { self.note(e); return; } };
                    let new = match k.as_str() {
                        "xchg" => v,
                        "add" => self.bin(K::Add, &old, &v, w),
                        "sub" => self.bin(K::Sub, &old, &v, w),
                        "and" => self.bin(K::And, &old, &v, w),
                        "or" => self.bin(K::Or, &old, &v, w),
                        "xor" => self.bin(K::Xor, &old, &v, w),
                        _ => { self.note(format!("atomicrmw {}", k)); return; }
                    };
                    if let V::C(p, _) = av { if let Err(e) = self.store_ty(&mut it.st.mem, p, t, &new) { self.note(e); return; } }
                    Self::set(&mut it, inst.dst, old);
                }
                IK::Alloca(sz, al) => {
                    let a = (it.st.mem.sp + al - 1) / al * al;
                    it.st.mem.sp = a + sz + 16;
                    it.st.mem.insert(Obj { addr: a, size: *sz, cells: vec![Cl::U; *sz as usize], h: StdCell::new(0) });
                    Self::set(&mut it, inst.dst, V::C(a, 64));
                }
                IK::Call { callee, args, normal, .. } => {
                    let mut av: Vec<V> = Vec::with_capacity(args.len());
                    for (_, o) in args { av.push(self.opv(o, &it.loc)); }
                    let target = match callee {
                        Callee::Direct(t) => Some(*t),
                        Callee::Indirect(o) => match self.opv(o, &it.loc) { V::C(a, _) => self.m.fn_at(a), V::S(t) => {
                            // several possible targets: split on the pointer value
                            let l = match self.values(t, &it.st.pc.clone()) { Ok(l) => l, Err(e) => { self.note(e); return; } };
                            let mut outs = vec![];
                            for (a, pc) in l {
                                if let Some(t) = self.m.fn_at(a) { let s = St { pc, ..it.st.clone() }; outs.extend(self.call(s, t, av.clone())); }
                                else { self.note("indirect call target".into()); }
                            }
                            let outs = self.merge_states(outs);
                            match self.after_call(f, it, inst.dst, outs, normal, wl) { Some(n) => { it = n; continue; } None => return }
                        } _ => None },
                    };
                    let t = match target { Some(t) => t, None => { self.note("indirect call target".into()); return; } };
                    if self.kind(t) == K_NOP {
                        if let Some(n) = normal { let to = *n; self.goto(f, &mut it, to); } else { it.idx += 1; }
                        continue;
                    }
                    let st = std::mem::replace(&mut it.st, St { pc: Rc::new(vec![]), mem: Mem { objs: vec![], sp: 0 }, steps: 0, outs: Rc::new(vec![]) });
                    let outs = self.call(st, t, av);
                    match self.after_call(f, it, inst.dst, outs, normal, wl) { Some(n) => { it = n; continue; } None => return }
                }
                IK::Phi(..) => {}
                IK::ExtractValue(_, a, ix) => {
                    let mut v = self.opv(a, &it.loc);
                    for i in ix { v = match &v { V::A(x) => x[*i as usize].clone(), _ => V::U }; }
                    Self::set(&mut it, inst.dst, v);
                }
                IK::InsertValue(t, a, _, b, ix) => {
                    let v = self.opv(a, &it.loc);
                    let x = self.opv(b, &it.loc);
                    let v = insert(v, t, x, ix);
                    Self::set(&mut it, inst.dst, v);
                }
                IK::ExtractElem(_, a, i) => {
                    let v = self.opv(a, &it.loc);
                    match (v, self.opv(i, &it.loc)) { (V::A(x), V::C(k, _)) => Self::set(&mut it, inst.dst, x[k as usize].clone()), _ => { self.note("vector element".into()); return; } }
                }
                IK::InsertElem(t, a, b, i) => {
                    let v = match self.opv(a, &it.loc) { V::U => undef_of(t), v => v };
                    let x = self.opv(b, &it.loc);
                    match (v, self.opv(i, &it.loc)) { (V::A(y), V::C(k, _)) => { let mut y = (*y).clone(); y[k as usize] = x; Self::set(&mut it, inst.dst, V::A(Rc::new(y))); } _ => { self.note("vector element".into()); return; } }
                }
                IK::Shuffle(t, a, b, m) => {
                    let g = |v: V| match v { V::A(x) => (*x).clone(), _ => match undef_of(t) { V::A(x) => (*x).clone(), _ => vec![] } };
                    let mut x = g(self.opv(a, &it.loc));
                    x.extend(g(self.opv(b, &it.loc)));
                    let r: Vec<V> = m.iter().map(|i| match i { Some(i) => x[*i as usize].clone(), None => V::U }).collect();
                    Self::set(&mut it, inst.dst, V::A(Rc::new(r)));
                }
                IK::Freeze(_, a) => { let v = self.opv(a, &it.loc); Self::set(&mut it, inst.dst, v); }
                IK::Br(t) => {
                    let to = *t;
                    self.goto(f, &mut it, to);
                    if !wl.is_empty() { Self::push(wl, f, it); return; }
                    continue;
                }
                IK::CondBr(c, y, n) => {
                    let cv = self.opv(c, &it.loc);
                    let (y, n) = (*y, *n);
                    match cv {
                        V::C(x, _) => { self.goto(f, &mut it, if x != 0 { y } else { n }); }
                        V::U => { self.n_undef += 1; self.goto(f, &mut it, n); }
                        V::S(t) => match self.split_pc(t, &it.st.pc.clone()) {
                            Ok((yb, nb)) => {
                                if nb.is_empty() { self.goto(f, &mut it, y); }
                                else if yb.is_empty() { self.goto(f, &mut it, n); }
                                else {
                                    self.n_states += 1;
                                    let mut other = Item { st: St { pc: Rc::new(nb), ..it.st.clone() }, loc: it.loc.clone(), blk: it.blk, idx: it.idx, iters: it.iters.clone() };
                                    it.st.pc = Rc::new(yb);
                                    self.goto(f, &mut it, y);
                                    self.goto(f, &mut other, n);
                                    Self::push(wl, f, it);
                                    Self::push(wl, f, other);
                                    return;
                                }
                            }
                            Err(e) => { self.note(format!("{} (branch in {})", e, short(&f.name))); return; }
                        },
                        V::A(_) => { self.note("branch on aggregate".into()); return; }
                    }
                    if !wl.is_empty() { Self::push(wl, f, it); return; }
                    continue;
                }
                IK::Switch(w, o, d, cases) => {
                    let v = self.opv(o, &it.loc);
                    match v {
                        V::C(x, _) => { let to = cases.iter().find(|c| c.0 & msk(*w) == x).map_or(*d, |c| c.1); self.goto(f, &mut it, to); if !wl.is_empty() { Self::push(wl, f, it); return; } continue; }
                        V::U => { self.n_undef += 1; let to = *d; self.goto(f, &mut it, to); if !wl.is_empty() { Self::push(wl, f, it); return; } continue; }
                        V::S(t) => {
                            // group the values by target
                            let vals = if self.ar.sup(t) != MANY { self.values(t, &it.st.pc.clone()).ok() } else { None };
                            let mut by: BTreeMap<usize, Vec<Bx>> = BTreeMap::new();
                            if let Some(vals) = vals {
                                for (x, pc) in vals {
                                    let to = cases.iter().find(|c| c.0 & msk(*w) == x).map_or(*d, |c| c.1);
                                    by.entry(to).or_default().extend(pc.iter().cloned());
                                }
                            } else {
                                let mut rest: Vec<Bx> = (*it.st.pc).clone();
                                for (k, to) in cases {
                                    if rest.is_empty() { break; }
                                    let c = self.ar.c(*k, *w);
                                    let e = self.ar.bin(K::Eq, t, c);
                                    match self.split_pc(e, &Rc::new(rest)) {
                                        Ok((y, n)) => { if !y.is_empty() { by.entry(*to).or_default().extend(y); } rest = n; }
                                        Err(e) => { self.note(format!("{} (switch)", e)); return; }
                                    }
                                }
                                if !rest.is_empty() { by.entry(*d).or_default().extend(rest); }
                            }
                            self.n_states += by.len() as u64;
                            for (to, mut bs) in by {
                                self.mb(&mut bs);
                                let mut o = Item { st: St { pc: Rc::new(bs), ..it.st.clone() }, loc: it.loc.clone(), blk: it.blk, idx: it.idx, iters: it.iters.clone() };
                                self.goto(f, &mut o, to);
                                Self::push(wl, f, o);
                            }
                            return;
                        }
                        V::A(_) => { self.note("switch on aggregate".into()); return; }
                    }
                }
                IK::Ret(v) => {
                    let r = match v { Some((_, o)) => self.opv(o, &it.loc), None => V::U };
                    let r = self.norm(r, &it.st.pc);
                    let mem = &mut it.st.mem;
                    if mem.sp != sp0 {
                        let a = mem.objs.partition_point(|o| o.addr < sp0.max(STACK_BASE));
                        let b = mem.objs.partition_point(|o| o.addr < HEAP_BASE);
                        // objects at or above the caller's stack pointer belong to this frame
                        let cut: Vec<usize> = (a..b).filter(|&i| mem.objs[i].addr >= sp0).collect();
                        if let Some(&c) = cut.first() { mem.objs.drain(c..b); }
                        mem.sp = sp0;
                    }
                    res.push((it.st, r));
                    return;
                }
                IK::Unreachable => {
                    let pc = it.st.pc.clone();
                    self.fail("unreachable", "unreachable code reached".into(), &pc);
                    return;
                }
                IK::Unsupported(s) => { let _ = fid; self.note(format!("unsupported: {}", s.chars().take(120).collect::<String>())); return; }
            }
            it.idx += 1;
        }
    }
    fn after_call(&mut self, f: &Func, it: Item, dst: Option<u32>, outs: Vec<(St, V)>, normal: &Option<usize>, wl: &mut WL) -> Option<Item> {
        if outs.is_empty() { return None; }
        match normal {
            None => self.spread(f, it, dst, outs, wl),
            Some(to) => {
                self.n_states += outs.len() as u64;
                for (st, v) in outs {
                    let mut o = Item { st, loc: it.loc.clone(), blk: it.blk, idx: it.idx, iters: it.iters.clone() };
                    Self::set(&mut o, dst, v);
                    self.goto(f, &mut o, *to);
                    Self::push(wl, f, o);
                }
                None
            }
        }
    }
}

pub fn input_domain(refs: &crate::refdata::RefData, kind: u64, tab: u32) -> Rc<Dom> {
    match kind {
        0 => Dom::new(vec![(0, 0xD7FF), (0xE000, 0x10FFFF)]),
        1 => Dom::range(0, 0x10FFFF),
        2 => Dom::new((0..0x110000u32).filter(|&c| !(0xD800..0xE000).contains(&c) && refs.get(tab, c) != 0).map(|c| (c, c)).collect()),
        _ => Dom::range(0, u32::MAX),
    }
}

/// contiguous piece p of n of a domain, balanced by how much the code points vary
pub fn piece(refs: &crate::refdata::RefData, d: &Rc<Dom>, p: usize, n: usize) -> Rc<Dom> {
    if n <= 1 { return d.clone(); }
    let tabs = [0u32, 1, 95, 100, 130, 180, 181];
    let mut ws: Vec<(u32, u64)> = vec![];
    let mut prev = [u32::MAX; 7];
    let mut tot = 0u64;
    for &(a, b) in &d.iv {
        for c in a..=b {
            let mut cur = [0u32; 7];
            for (i, t) in tabs.iter().enumerate() { cur[i] = refs.get(*t, c); }
            let w = if cur != prev { 200 } else if cur[3] > 0 && !(0xAC00..0xD7A4).contains(&c) { 40 } else { 1 };
            prev = cur;
            tot += w;
            ws.push((c, w));
        }
    }
    let (lo, hi) = (tot * p as u64 / n as u64, tot * (p as u64 + 1) / n as u64);
    let mut acc = 0;
    let mut iv: Vec<(u32, u32)> = vec![];
    for (c, w) in ws {
        if acc >= lo && acc < hi { match iv.last_mut() { Some(l) if l.1 + 1 == c => l.1 = c, _ => iv.push((c, c)) } }
        acc += w;
    }
    Dom::new(iv)
}

fn hv(v: &V) -> u64 {
    match v {
        V::U => 0x5555,
        V::C(x, w) => mix(*x ^ ((*w as u64) << 57)),
        V::S(t) => mix(0x7777_0000_0000 + *t as u64),
        V::A(a) => { let mut h = 0x1357; for x in a.iter() { h = mix(h ^ hv(x)); } h }
    }
}
fn scal_w(t: &Ty) -> u32 { match t { Ty::Vec(_, e) => scal_w(e), t => t.width().unwrap_or(64) } }

fn undef_of(t: &Ty) -> V {
    match t {
        Ty::Arr(n, e) | Ty::Vec(n, e) if *n <= 4096 => V::A(Rc::new(vec![undef_of(e); *n as usize])),
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(undef_of).collect())),
        _ => V::U,
    }
}
fn zero_of(t: &Ty) -> V {
    match t {
        Ty::Arr(n, e) | Ty::Vec(n, e) if *n <= 4096 => V::A(Rc::new(vec![zero_of(e); *n as usize])),
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(zero_of).collect())),
        t => V::C(0, t.width().unwrap_or(64)),
    }
}
fn insert(v: V, t: &Ty, x: V, ix: &[u64]) -> V {
    if ix.is_empty() { return x; }
    let v = if let V::A(_) = v { v } else { undef_of(t) };
    if let V::A(a) = v {
        let mut a = (*a).clone();
        let k = ix[0] as usize;
        let sub = match t { Ty::Struct(f, _) => f[k].clone(), Ty::Arr(_, e) => (**e).clone(), _ => Ty::Other };
        let old = std::mem::replace(&mut a[k], V::U);
        a[k] = insert(old, &sub, x, &ix[1..]);
        V::A(Rc::new(a))
    } else { V::U }
}

/// merge boxes that differ in one variable only
pub fn merge_boxes(b: &mut Vec<Bx>) {
    if b.len() < 2 { return; }
    // pad to equal length is unnecessary: missing entries only occur before a
    // variable was first split; treat length as part of the key
    loop {
        let n0 = b.len();
        let maxv = b.iter().map(|x| x.len()).max().unwrap_or(0);
        for v in 0..maxv {
            let mut by: HashMap<(usize, u64), Vec<usize>> = HashMap::new();
            let mut out: Vec<Bx> = Vec::with_capacity(b.len());
            for x in b.drain(..) {
                let mut h = 0x2468u64;
                for (i, d) in x.iter().enumerate() { if i != v { h = mix(h ^ d.h ^ d.n.rotate_left(48)); } }
                let l = by.entry((x.len(), h)).or_default();
                let mut done = false;
                for &i in l.iter() {
                    let o = &out[i];
                    if (0..x.len()).all(|k| k == v || Rc::ptr_eq(&o[k], &x[k]) || *o[k] == *x[k]) {
                        if v < x.len() {
                            let mut y = (**o).clone();
                            y[v] = y[v].union(&x[v]);
                            out[i] = Rc::new(y);
                        }
                        done = true;
                        break;
                    }
                }
                if !done { l.push(out.len()); out.push(x); }
            }
            *b = out;
        }
        if b.len() == n0 || b.len() < 2 { return; }
    }
}

pub fn short(n: &str) -> String {
    // last identifiers of a mangled name
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes();
    let mut ids: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() { i += 1; }
            let l: usize = n[s..i].parse().unwrap_or(0);
            if i < b.len() && b[i] == b'_' { i += 1; }
            if l > 0 && i + l <= b.len() { ids.push(n[i..i + l].to_string()); i += l; }
        } else { i += 1; }
    }
    ids.join("::")
}
