//! Hash-consed bit-vector terms (width <= 64), finite variable domains, and
//! exact run tables for terms that depend on a single variable.
use crate::refdata::RefData;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

pub type T = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K { Const, Var, Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor, Eq, Ult, Ule, Slt, Sle, Ite, Zext, Sext, Extract, Concat, Load, Ref }

#[derive(Clone, Copy, Debug)]
pub struct Node { pub op: K, pub w: u32, pub a: T, pub b: T, pub c: T, pub k: u64, pub sup: u32, pub h: u128, pub tab: bool, pub depth: u32 }

/// support: NONE = constant, MANY = several variables, otherwise the variable
pub const NONE: u32 = u32::MAX;
pub const MANY: u32 = u32::MAX - 1;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dom { pub iv: Vec<(u32, u32)>, pub n: u64, pub h: u64 }

impl Dom {
    pub fn new(mut iv: Vec<(u32, u32)>) -> Rc<Dom> {
        iv.sort();
        let mut o: Vec<(u32, u32)> = vec![];
        for (a, b) in iv {
            if let Some(l) = o.last_mut() { if a <= l.1.saturating_add(1) { if b > l.1 { l.1 = b; } continue; } }
            o.push((a, b));
        }
        let mut n = 0;
        let mut h = 0xcbf29ce484222325u64;
        for &(a, b) in &o {
            n += (b - a) as u64 + 1;
            h = mix(h ^ ((a as u64) << 32 | b as u64));
        }
        Rc::new(Dom { iv: o, n, h })
    }
    pub fn range(a: u32, b: u32) -> Rc<Dom> { Dom::new(vec![(a, b)]) }
    pub fn inter(&self, o: &Dom) -> Rc<Dom> {
        let (mut i, mut j) = (0, 0);
        let mut r = vec![];
        while i < self.iv.len() && j < o.iv.len() {
            let (a, b) = self.iv[i];
            let (c, d) = o.iv[j];
            let lo = a.max(c);
            let hi = b.min(d);
            if lo <= hi { r.push((lo, hi)); }
            if b < d { i += 1 } else { j += 1 }
        }
        Dom::new(r)
    }
    pub fn minus(&self, o: &Dom) -> Rc<Dom> {
        let mut r = vec![];
        let mut j = 0;
        for &(a, b) in &self.iv {
            let mut s = a as u64;
            while j < o.iv.len() && o.iv[j].1 < a { j += 1; }
            let mut k = j;
            while k < o.iv.len() && o.iv[k].0 <= b {
                let (c, d) = o.iv[k];
                if (c as u64) > s { r.push((s as u32, c - 1)); }
                s = s.max(d as u64 + 1);
                k += 1;
            }
            if s <= b as u64 { r.push((s as u32, b)); }
        }
        Dom::new(r)
    }
    pub fn union(&self, o: &Dom) -> Rc<Dom> {
        let mut v = self.iv.clone();
        v.extend_from_slice(&o.iv);
        Dom::new(v)
    }
    pub fn contains(&self, x: u32) -> bool { self.iv.binary_search_by(|&(a, b)| if b < x { std::cmp::Ordering::Less } else if a > x { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }).is_ok() }
    pub fn hull(&self) -> Rc<Dom> { if self.iv.len() <= 1 { Rc::new(self.clone()) } else { Dom::range(self.iv[0].0, self.iv[self.iv.len() - 1].1) } }
    pub fn empty(&self) -> bool { self.iv.is_empty() }
    pub fn subset(&self, o: &Dom) -> bool { self.minus(o).empty() }
    pub fn first(&self) -> u32 { self.iv[0].0 }
}

pub fn mix(mut x: u64) -> u64 {
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
fn mix128(a: u128, b: u128) -> u128 {
    let lo = mix((a as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ (b as u64) ^ mix((b >> 64) as u64));
    let hi = mix(((a >> 64) as u64).wrapping_mul(0xC2B2AE3D27D4EB4F) ^ ((b >> 64) as u64).rotate_left(17) ^ lo ^ (b as u64).rotate_left(31));
    (hi as u128) << 64 | lo as u128
}

pub fn mask(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn sx(v: u64, w: u32) -> i64 { crate::ir::sext(v, w) }

#[derive(Clone, Debug)]
pub struct VarInfo { pub name: String, pub dom: Rc<Dom>, pub bits: u32 }

pub struct Prog { pub ops: Vec<(K, u32, usize, usize, usize, u64)>, }

#[derive(Clone, Default)]
pub struct ShapeInfo { pub region: Option<Rc<Dom>>, pub runs: Vec<(u32, u32, u64)>, pub many: bool, pub rep: T }

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<(K, u32, T, T, T, u64), T>,
    pub vars: Vec<VarInfo>,
    pub image: Arc<Vec<u8>>,
    pub refs: Arc<RefData>,
    progs: HashMap<u128, Rc<Prog>>,
    pub shapes: HashMap<u128, ShapeInfo>,
    pub evals: u64,
}

pub fn fold(op: K, w: u32, a: u64, b: u64, aw: u32) -> Option<u64> {
    let m = mask(w);
    Some(match op {
        K::Add => a.wrapping_add(b) & m,
        K::Sub => a.wrapping_sub(b) & m,
        K::Mul => a.wrapping_mul(b) & m,
        K::UDiv => if b == 0 { m } else { a / b },
        K::URem => if b == 0 { a } else { a % b },
        K::SDiv => { let (x, y) = (sx(a, aw), sx(b, aw)); if y == 0 { if x >= 0 { m } else { 1 } } else { (x.wrapping_div(y)) as u64 & m } }
        K::SRem => { let (x, y) = (sx(a, aw), sx(b, aw)); if y == 0 { a } else { (x.wrapping_rem(y)) as u64 & m } }
        K::Shl => if b >= w as u64 { 0 } else { a << b & m },
        K::LShr => if b >= w as u64 { 0 } else { a >> b },
        K::AShr => { let s = b.min(63).min(w as u64 - 1); (sx(a, w) >> s) as u64 & m }
        K::And => a & b,
        K::Or => a | b,
        K::Xor => a ^ b,
        K::Eq => (a == b) as u64,
        K::Ult => (a < b) as u64,
        K::Ule => (a <= b) as u64,
        K::Slt => (sx(a, aw) < sx(b, aw)) as u64,
        K::Sle => (sx(a, aw) <= sx(b, aw)) as u64,
        K::Zext => a,
        K::Sext => sx(a, aw) as u64 & m,
        _ => return None,
    })
}

impl Arena {
    pub fn new(image: Arc<Vec<u8>>, refs: Arc<RefData>) -> Arena {
        Arena { nodes: vec![], map: HashMap::new(), vars: vec![], image, refs, progs: HashMap::new(), shapes: HashMap::new(), evals: 0 }
    }
    pub fn n(&self, t: T) -> &Node { &self.nodes[t as usize] }
    pub fn w(&self, t: T) -> u32 { self.nodes[t as usize].w }
    pub fn cv(&self, t: T) -> Option<u64> { let n = self.n(t); if n.op == K::Const { Some(n.k) } else { None } }
    pub fn sup(&self, t: T) -> u32 { self.n(t).sup }

    fn mk(&mut self, op: K, w: u32, a: T, b: T, c: T, k: u64) -> T {
        let key = (op, w, a, b, c, k);
        if let Some(&t) = self.map.get(&key) { return t; }
        let na = match op { K::Const | K::Var => 0, K::Zext | K::Sext | K::Extract | K::Load | K::Ref => 1, K::Ite => 3, _ => 2 };
        let mut sup = if op == K::Var { k as u32 } else { NONE };
        let tag = (op as u64) << 40 | (w as u64) << 8;
        let mut h = mix128(0x1234567, ((tag as u128) << 64) | if op == K::Var { 0xABCDEF } else { k as u128 });
        let mut tab = matches!(op, K::Load | K::Ref);
        let mut depth = 0;
        for (i, x) in [a, b, c].iter().enumerate() {
            if i >= na { break; }
            let n = &self.nodes[*x as usize];
            if n.sup != NONE { if sup == NONE { sup = n.sup } else if sup != n.sup { sup = MANY } }
            h = mix128(h, n.h);
            tab |= n.tab;
            depth = depth.max(n.depth + 1);
        }
        if sup == MANY { h = mix128(h, 0x77 + self.nodes.len() as u128); }
        let t = self.nodes.len() as T;
        self.nodes.push(Node { op, w, a, b, c, k, sup, h, tab, depth });
        self.map.insert(key, t);
        t
    }
    pub fn c(&mut self, v: u64, w: u32) -> T { self.mk(K::Const, w, 0, 0, 0, v & mask(w)) }
    pub fn b(&mut self, v: bool) -> T { self.c(v as u64, 1) }
    pub fn new_var(&mut self, name: String, dom: Rc<Dom>, bits: u32) -> (u32, T) {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name, dom, bits });
        (id, self.mk(K::Var, 32, 0, 0, 0, id as u64))
    }
    pub fn var(&mut self, id: u32) -> T { self.mk(K::Var, 32, 0, 0, 0, id as u64) }
    pub fn not(&mut self, a: T) -> T { let o = self.c(mask(self.w(a)), self.w(a)); self.bin(K::Xor, a, o) }

    pub fn bin(&mut self, op: K, a: T, b: T) -> T {
        let aw = self.w(a);
        debug_assert_eq!(aw, self.w(b));
        let w = match op { K::Eq | K::Ult | K::Ule | K::Slt | K::Sle => 1, _ => aw };
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { if let Some(r) = fold(op, w, x, y, aw) { return self.c(r, w); } }
        let comm = matches!(op, K::Add | K::Mul | K::And | K::Or | K::Xor | K::Eq);
        let (a, b, ca, cb) = if comm && (ca.is_some() || (cb.is_none() && a > b)) { (b, a, cb, ca) } else { (a, b, ca, cb) };
        let m = mask(aw);
        if let Some(y) = cb {
            match op {
                K::Add | K::Sub | K::Or | K::Xor | K::Shl | K::LShr | K::AShr if y == 0 => return a,
                K::Mul if y == 0 => return self.c(0, w),
                K::Mul if y == 1 => return a,
                K::Mul if y.is_power_of_two() => { let s = self.c(y.trailing_zeros() as u64, w); return self.bin(K::Shl, a, s); }
                K::UDiv if y == 1 => return a,
                K::UDiv if y.is_power_of_two() => { let s = self.c(y.trailing_zeros() as u64, w); return self.bin(K::LShr, a, s); }
                K::URem if y.is_power_of_two() => { let s = self.c(y - 1, w); return self.bin(K::And, a, s); }
                K::And if y == 0 => return self.c(0, w),
                K::And if y == m => return a,
                K::Or if y == m => return b,
                K::Shl | K::LShr if y >= w as u64 => return self.c(0, w),
                K::Ult if y == 0 => return self.b(false),
                K::Ule if y == m => return self.b(true),
                K::Eq if aw == 1 => return if y == 1 { a } else { self.not(a) },
                _ => {}
            }
            let n = *self.n(a);
            if matches!(op, K::Add | K::Xor | K::And | K::Or) && n.op == op {
                if let Some(x) = self.cv(n.b) { let r = fold(op, w, x, y, aw).unwrap(); let c = self.c(r, w); return self.bin(op, n.a, c); }
            }
            if op == K::Sub { let c = self.c(y.wrapping_neg(), w); return self.bin(K::Add, a, c); }
            // comparison of a zero-extension with a constant
            if n.op == K::Zext && matches!(op, K::Eq | K::Ult | K::Ule) {
                let iw = self.w(n.a);
                if y <= mask(iw) { let c = self.c(y, iw); return self.bin(op, n.a, c); }
                return self.b(op != K::Eq);
            }
            // push comparisons and small operations into ite with constant arms
            if n.op == K::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) && (w == 1 || (self.cv(n.b).is_some() && self.cv(n.c).is_some())) && n.sup == MANY {
                let x = self.bin(op, n.b, b);
                let z = self.bin(op, n.c, b);
                return self.ite(n.a, x, z);
            }
            if op == K::Eq && n.op == K::Add { if let Some(k) = self.cv(n.b) { let c = self.c(y.wrapping_sub(k), aw); return self.bin(K::Eq, n.a, c); } }
        }
        if ca.is_some() && !comm {
            let n = *self.n(b);
            let y = ca.unwrap();
            if n.op == K::Zext && matches!(op, K::Ult | K::Ule) {
                let iw = self.w(n.a);
                if y <= mask(iw) { let c = self.c(y, iw); return self.bin(op, c, n.a); }
                return self.b(false);
            }
            if n.op == K::Ite && n.sup == MANY && w == 1 && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
                let x = self.bin(op, a, n.b);
                let z = self.bin(op, a, n.c);
                return self.ite(n.a, x, z);
            }
        }
        if a == b {
            match op {
                K::Sub | K::Xor => return self.c(0, w),
                K::And | K::Or => return a,
                K::Eq | K::Ule | K::Sle => return self.b(true),
                K::Ult | K::Slt => return self.b(false),
                _ => {}
            }
        }
        if aw == 1 && matches!(op, K::And | K::Or) {
            // x & !x
            if self.is_not(a, b) { return self.b(op == K::Or); }
        }
        self.mk(op, w, a, b, 0, 0)
    }
    fn is_not(&self, a: T, b: T) -> bool {
        let f = |x: T, y: T| { let n = self.n(x); n.op == K::Xor && n.a == y && self.cv(n.b) == Some(1) };
        f(a, b) || f(b, a)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.cv(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(K::Or, c, b),
                (Some(0), None) => { let nc = self.not(c); return self.bin(K::And, nc, b); }
                (None, Some(0)) => return self.bin(K::And, c, a),
                (None, Some(1)) => { let nc = self.not(c); return self.bin(K::Or, nc, a); }
                _ => {}
            }
        }
        let n = *self.n(c);
        if n.op == K::Xor && self.cv(n.b) == Some(1) { return self.ite(n.a, b, a); }
        self.mk(K::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(v) = self.cv(a) { return self.c(v, w); }
        let n = *self.n(a);
        if n.op == K::Zext { return self.zext(n.a, w); }
        if n.op == K::Ite && n.sup == MANY && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(K::Zext, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(v) = self.cv(a) { return self.c(sx(v, aw) as u64, w); }
        let n = *self.n(a);
        if n.op == K::Zext { return self.zext(n.a, w); }
        self.mk(K::Sext, w, a, 0, 0, 0)
    }
    pub fn extract(&mut self, a: T, lo: u32, w: u32) -> T {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a; }
        if let Some(v) = self.cv(a) { return self.c(v >> lo, w); }
        let n = *self.n(a);
        match n.op {
            K::Extract => return self.extract(n.a, lo + n.k as u32, w),
            K::Zext | K::Sext if lo == 0 && w <= self.w(n.a) => return self.extract(n.a, 0, w),
            K::Zext if lo == 0 => return self.zext(n.a, w),
            K::Zext if lo >= self.w(n.a) => return self.c(0, w),
            K::Zext if lo + w <= self.w(n.a) => return self.extract(n.a, lo, w),
            K::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
            }
            K::Load if lo % 8 == 0 && w % 8 == 0 => { let o = self.c((lo / 8) as u64, 64); let ad = self.bin(K::Add, n.a, o); return self.mk(K::Load, w, ad, 0, 0, (w / 8) as u64); }
            K::And | K::Or | K::Xor => {
                // keep masks small: (x & const) truncated
                if self.cv(n.b).is_some() {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            K::Ite if n.sup == MANY && self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(K::Extract, w, a, 0, 0, lo as u64)
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.cv(hi), self.cv(lo)) { return self.c(x << wl | y, w); }
        if self.cv(hi) == Some(0) { return self.zext(lo, w); }
        let (nh, nl) = (*self.n(hi), *self.n(lo));
        // adjacent extracts
        if nh.op == K::Extract && nl.op == K::Extract && nh.a == nl.a && nh.k == nl.k + wl as u64 { return self.extract(nh.a, nl.k as u32, w); }
        if nh.op == K::Extract && nh.a == lo && nh.k == wl as u64 { return self.extract(nh.a, 0, w); }
        if nh.op == K::Load && nl.op == K::Load {
            let o = self.c(nl.k, 64);
            let e = self.bin(K::Add, nl.a, o);
            if e == nh.a && nh.k + nl.k <= 8 { return self.load(nl.a, (nh.k + nl.k) as u32); }
        }
        self.mk(K::Concat, w, hi, lo, 0, 0)
    }
    pub fn load(&mut self, addr: T, bytes: u32) -> T {
        if let Some(a) = self.cv(addr) { let v = self.img(a, bytes); return self.c(v, bytes * 8); }
        self.mk(K::Load, bytes * 8, addr, 0, 0, bytes as u64)
    }
    pub fn rf(&mut self, table: u64, idx: T) -> T {
        if let Some(a) = self.cv(idx) { let v = self.refs.get(table as u32, a as u32); return self.c(v as u64, 32); }
        self.mk(K::Ref, 32, idx, 0, 0, table)
    }
    pub fn img(&self, a: u64, bytes: u32) -> u64 {
        let o = a.wrapping_sub(crate::ir::GL_BASE) as usize;
        if o.checked_add(bytes as usize).map_or(true, |e| e > self.image.len()) { return 0; }
        let mut v = 0u64;
        for i in (0..bytes as usize).rev() { v = v << 8 | self.image[o + i] as u64; }
        v
    }

    /// rebuild t with every occurrence of variables replaced through `f`
    pub fn rebuild(&mut self, t: T, memo: &mut HashMap<T, T>) -> T {
        if let Some(&r) = memo.get(&t) { return r; }
        let n = *self.n(t);
        let r = match n.op {
            K::Const | K::Var => t,
            K::Zext => { let a = self.rebuild(n.a, memo); self.zext(a, n.w) }
            K::Sext => { let a = self.rebuild(n.a, memo); self.sext(a, n.w) }
            K::Extract => { let a = self.rebuild(n.a, memo); self.extract(a, n.k as u32, n.w) }
            K::Load => { let a = self.rebuild(n.a, memo); self.load(a, n.k as u32) }
            K::Ref => { let a = self.rebuild(n.a, memo); self.rf(n.k, a) }
            K::Ite => { let a = self.rebuild(n.a, memo); let b = self.rebuild(n.b, memo); let c = self.rebuild(n.c, memo); self.ite(a, b, c) }
            K::Concat => { let a = self.rebuild(n.a, memo); let b = self.rebuild(n.b, memo); self.concat(a, b) }
            op => { let a = self.rebuild(n.a, memo); let b = self.rebuild(n.b, memo); self.bin(op, a, b) }
        };
        memo.insert(t, r);
        r
    }

    pub fn show(&self, t: T, d: u32) -> String {
        let n = self.n(t);
        if d > 6 { return "..".into(); }
        match n.op {
            K::Const => format!("{:x}", n.k),
            K::Var => format!("x{}", n.k),
            op => {
                let ar = Self::arity(op);
                let mut s = format!("({:?}", op);
                if matches!(op, K::Extract | K::Load | K::Ref) { s.push_str(&format!("[{}]", n.k)); }
                for (i, x) in [n.a, n.b, n.c].iter().enumerate() { if i < ar { s.push(' '); s.push_str(&self.show(*x, d + 1)); } }
                s.push(')');
                s
            }
        }
    }
    pub fn arity(op: K) -> usize { match op { K::Const | K::Var => 0, K::Zext | K::Sext | K::Extract | K::Load | K::Ref => 1, K::Ite => 3, _ => 2 } }

    pub fn topo(&self, roots: &[T]) -> Vec<T> {
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        let mut st: Vec<(T, bool)> = roots.iter().rev().map(|&t| (t, false)).collect();
        while let Some((t, done)) = st.pop() {
            if done { out.push(t); continue; }
            if !seen.insert(t) { continue; }
            st.push((t, true));
            let n = self.n(t);
            let ar = Self::arity(n.op);
            for (i, x) in [n.c, n.b, n.a].iter().enumerate() { if 3 - i <= ar && !seen.contains(x) { st.push((*x, false)); } }
        }
        out
    }

    pub fn prog(&mut self, t: T) -> Rc<Prog> {
        let h = self.n(t).h;
        if let Some(p) = self.progs.get(&h) { return p.clone(); }
        let order = self.topo(&[t]);
        let mut slot = HashMap::new();
        let mut ops = vec![];
        for x in order {
            let n = *self.n(x);
            let ar = Self::arity(n.op);
            let g = |i: T, need: usize| if ar >= need { slot[&i] } else { 0 };
            let aw = if ar >= 1 { self.w(n.a) } else { 0 };
            // pack: k carries constants; auxiliary width goes in the high bits for ext/compare
            let k = match n.op {
                K::Const | K::Extract | K::Load | K::Ref => n.k,
                K::Concat => self.w(n.b) as u64,
                _ => aw as u64,
            };
            ops.push((n.op, n.w, g(n.a, 1), g(n.b, 2), g(n.c, 3), k));
            slot.insert(x, ops.len() - 1);
        }
        let p = Rc::new(Prog { ops });
        self.progs.insert(h, p.clone());
        p
    }

    /// values of the single-variable term at the given points
    pub fn eval_points(&mut self, t: T, pts: &[u32], out: &mut Vec<u64>) {
        let p = self.prog(t);
        out.clear();
        out.reserve(pts.len());
        self.evals += (pts.len() * p.ops.len()) as u64;
        let mut bufs: Vec<Vec<u64>> = vec![vec![0; pts.len().min(256)]; p.ops.len()];
        for ch in pts.chunks(256) {
            for (i, &(op, w, a, b, c, k)) in p.ops.iter().enumerate() {
                let (lo, hi) = bufs.split_at_mut(i);
                let d = &mut hi[0];
                let m = ch.len();
                macro_rules! un { ($f:expr) => {{ let x = &lo[a]; for j in 0..m { d[j] = $f(x[j]); } }}; }
                macro_rules! bi { ($f:expr) => {{ let x = &lo[a]; let y = &lo[b]; for j in 0..m { d[j] = $f(x[j], y[j]); } }}; }
                let mw = mask(w);
                match op {
                    K::Const => for j in 0..m { d[j] = k; },
                    K::Var => for j in 0..m { d[j] = ch[j] as u64; },
                    K::Zext => un!(|x| x),
                    K::Extract => un!(|x: u64| x >> k & mw),
                    K::Load => { let by = k as u32; let x = &lo[a]; for j in 0..m { d[j] = self.img(x[j], by); } }
                    K::Ref => { let x = &lo[a]; for j in 0..m { d[j] = self.refs.get(k as u32, x[j] as u32) as u64; } }
                    K::Ite => { let x = &lo[a]; let y = &lo[b]; let z = &lo[c]; for j in 0..m { d[j] = if x[j] != 0 { y[j] } else { z[j] }; } }
                    K::Concat => bi!(|x: u64, y: u64| x << k | y),
                    K::Add => bi!(|x: u64, y: u64| x.wrapping_add(y) & mw),
                    K::And => bi!(|x: u64, y: u64| x & y),
                    K::Or => bi!(|x: u64, y: u64| x | y),
                    K::Xor => bi!(|x: u64, y: u64| x ^ y),
                    K::Eq => bi!(|x: u64, y: u64| (x == y) as u64),
                    K::Ult => bi!(|x: u64, y: u64| (x < y) as u64),
                    K::Ule => bi!(|x: u64, y: u64| (x <= y) as u64),
                    K::Sext => un!(|x| fold(op, w, x, 0, k as u32).unwrap()),
                    _ => bi!(|x, y| fold(op, w, x, y, k as u32).unwrap()),
                }
            }
            out.extend_from_slice(&bufs[p.ops.len() - 1][..ch.len()]);
        }
    }

    /// known run table of a subterm over `d`
    fn known(&self, x: T, d: &Dom) -> Option<Vec<(u32, u32, u64)>> {
        let n = self.n(x);
        if n.w == 1 { if let Some(r) = self.atom_runs(x, d) { return Some(r); } }
        let info = self.shapes.get(&n.h)?;
        if info.many || info.runs.len() as u64 * 4 > d.n + 64 { return None; }
        let reg = info.region.as_ref()?;
        if !d.subset(reg) { return None; }
        Some(restrict(&info.runs, d))
    }
    /// Evaluates t over d, calling `f(first, last, value)` for consecutive
    /// stretches on which it is constant. Subterms with a known table are not
    /// re-evaluated.
    pub fn eval_segments<F: FnMut(u32, u32, u64) -> bool>(&mut self, t: T, d: &Dom, mut f: F) -> bool {
        let mut ops: Vec<(K, u32, usize, usize, usize, u64)> = vec![];
        let mut slot: HashMap<T, usize> = HashMap::new();
        let mut leaves: Vec<(usize, Vec<(u32, u32, u64)>)> = vec![];
        let mut has_var = false;
        let mut stk: Vec<(T, bool)> = vec![(t, false)];
        while let Some((x, done)) = stk.pop() {
            if slot.contains_key(&x) { continue; }
            let n = *self.n(x);
            let ar = Self::arity(n.op);
            if !done {
                if x != t && ar > 0 {
                    if let Some(r) = self.known(x, d) {
                        leaves.push((ops.len(), r));
                        slot.insert(x, ops.len());
                        ops.push((K::Var, 32, 0, 0, 0, leaves.len() as u64));
                        continue;
                    }
                }
                stk.push((x, true));
                for (i, y) in [n.a, n.b, n.c].iter().enumerate() { if i < ar && !slot.contains_key(y) { stk.push((*y, false)); } }
                continue;
            }
            let g = |i: T, need: usize| if ar >= need { slot[&i] } else { 0 };
            let aw = if ar >= 1 { self.w(n.a) } else { 0 };
            let k = match n.op { K::Const | K::Extract | K::Load | K::Ref => n.k, K::Concat => self.w(n.b) as u64, K::Var => { has_var = true; 0 } _ => aw as u64 };
            let o = (n.op, n.w, g(n.a, 1), g(n.b, 2), g(n.c, 3), k);
            slot.insert(x, ops.len());
            ops.push(o);
        }
        let B = d.n.min(512) as usize;
        let mut bufs: Vec<Vec<u64>> = vec![vec![0; B]; ops.len()];
        let mut cur = vec![0usize; leaves.len()];
        let mut seg: Vec<(u32, u32)> = Vec::with_capacity(B);
        let (mut di, mut p) = (0usize, d.iv.first().map_or(0, |x| x.0));
        while di < d.iv.len() {
            seg.clear();
            while seg.len() < B && di < d.iv.len() {
                let b = d.iv[di].1;
                let mut e = if has_var { p } else { b };
                for (i, (sl, t)) in leaves.iter().enumerate() {
                    while t[cur[i]].1 < p { cur[i] += 1; }
                    e = e.min(t[cur[i]].1);
                    bufs[*sl][seg.len()] = t[cur[i]].2;
                }
                seg.push((p, e));
                if e == b { di += 1; if di < d.iv.len() { p = d.iv[di].0; } } else { p = e + 1; }
            }
            let m = seg.len();
            self.evals += (m * ops.len()) as u64;
            for i in 0..ops.len() {
                let (op, w, a, b, c, k) = ops[i];
                if op == K::Var { if k == 0 { for j in 0..m { bufs[i][j] = seg[j].0 as u64; } } continue; }
                let (lo, hi) = bufs.split_at_mut(i);
                self.op_col(op, w, k, if a < i { &lo[a] } else { &[] }, if b < i { &lo[b] } else { &[] }, if c < i { &lo[c] } else { &[] }, &mut hi[0][..m]);
            }
            let r = &bufs[ops.len() - 1];
            for j in 0..m { if !f(seg[j].0, seg[j].1, r[j]) { return false; } }
        }
        true
    }
    fn op_col(&self, op: K, w: u32, k: u64, x: &[u64], y: &[u64], z: &[u64], d: &mut [u64]) {
        let m = d.len();
        macro_rules! un { ($f:expr) => {{ let x = &x[..m]; for j in 0..m { d[j] = $f(x[j]); } }}; }
        macro_rules! bi { ($f:expr) => {{ let x = &x[..m]; let y = &y[..m]; for j in 0..m { d[j] = $f(x[j], y[j]); } }}; }
        let mw = mask(w);
        match op {
            K::Const => for j in 0..m { d[j] = k; },
            K::Var => unreachable!(),
            K::Zext => un!(|x| x),
            K::Extract => un!(|x: u64| x >> k & mw),
            K::Load => un!(|x| self.img(x, k as u32)),
            K::Ref => un!(|x| self.refs.get(k as u32, x as u32) as u64),
            K::Ite => for j in 0..m { d[j] = if x[j] != 0 { y[j] } else { z[j] }; },
            K::Concat => bi!(|x: u64, y: u64| x << k | y),
            K::Add => bi!(|x: u64, y: u64| x.wrapping_add(y) & mw),
            K::And => bi!(|x: u64, y: u64| x & y),
            K::Or => bi!(|x: u64, y: u64| x | y),
            K::Xor => bi!(|x: u64, y: u64| x ^ y),
            K::Eq => bi!(|x: u64, y: u64| (x == y) as u64),
            K::Ult => bi!(|x: u64, y: u64| (x < y) as u64),
            K::Ule => bi!(|x: u64, y: u64| (x <= y) as u64),
            K::Sext => un!(|x| fold(op, w, x, 0, k as u32).unwrap()),
            _ => bi!(|x, y| fold(op, w, x, y, k as u32).unwrap()),
        }
    }

    fn eval_runs(&mut self, t: T, d: &Dom, limit: usize) -> Option<Vec<(u32, u32, u64)>> {
        let mut runs: Vec<(u32, u32, u64)> = vec![];
        let ok = self.eval_segments(t, d, |a, b, v| {
            if let Some(l) = runs.last_mut() { if l.2 == v && l.1 + 1 == a { l.1 = b; return true; } }
            runs.push((a, b, v));
            runs.len() <= limit
        });
        if ok { Some(runs) } else { None }
    }

    /// all values of a single-variable term over `d`
    pub fn values(&mut self, t: T, d: &Dom) -> Vec<u64> {
        let mut all: Vec<u64> = vec![];
        let mut lim = 1 << 16;
        self.eval_segments(t, d, |_, _, v| {
            if all.last() != Some(&v) { all.push(v); }
            if all.len() >= lim { all.sort_unstable(); all.dedup(); lim = all.len() + (1 << 16); }
            true
        });
        all.sort_unstable();
        all.dedup();
        all
    }

    /// runs of a comparison of the variable with a constant, computed directly
    fn atom_runs(&self, t: T, d: &Dom) -> Option<Vec<(u32, u32, u64)>> {
        let n = self.n(t);
        if n.op == K::Xor && n.w == 1 && self.cv(n.b) == Some(1) {
            let mut r = self.atom_runs(n.a, d)?;
            for x in r.iter_mut() { x.2 ^= 1; }
            return Some(r);
        }
        if !matches!(n.op, K::Eq | K::Ult | K::Ule) { return None; }
        let (a, b) = (self.n(n.a), self.n(n.b));
        // [lo, hi] = values that satisfy the comparison
        let (lo, hi) = if a.op == K::Var && b.op == K::Const {
            match n.op { K::Eq => (b.k, b.k), K::Ult => { if b.k == 0 { return None; } (0, b.k - 1) } _ => (0, b.k) }
        } else if a.op == K::Const && b.op == K::Var {
            match n.op { K::Eq => (a.k, a.k), K::Ult => (a.k + 1, u32::MAX as u64), _ => (a.k, u32::MAX as u64) }
        } else { return None; };
        let mut out = vec![];
        for &(x, y) in &d.iv {
            let (x, y) = (x as u64, y as u64);
            if x < lo { out.push((x as u32, y.min(lo - 1) as u32, 0)); }
            if x.max(lo) <= y.min(hi) { out.push((x.max(lo) as u32, y.min(hi) as u32, 1)); }
            if y > hi { out.push((x.max(hi + 1) as u32, y as u32, 0)); }
        }
        Some(out)
    }
    /// Exact runs of a single-variable term over `d`; None if it has too many.
    pub fn runs(&mut self, t: T, d: &Rc<Dom>) -> Option<Vec<(u32, u32, u64)>> {
        let n = *self.n(t);
        if n.w == 1 { if let Some(r) = self.atom_runs(t, d) { return Some(r); } }
        let limit = if n.w == 1 { usize::MAX } else { 200_000 };
        let info = self.shapes.entry(n.h).or_insert_with(|| ShapeInfo { rep: t, ..Default::default() });
        if info.many { if d.n > 4096 { return None; } return self.eval_runs(t, d, usize::MAX); }
        let missing = match &info.region { None => d.clone(), Some(r) => d.minus(r) };
        if !missing.empty() {
            let r = self.eval_runs(t, &missing, limit);
            let info = self.shapes.get_mut(&n.h).unwrap();
            match r {
                None => { info.many = true; return self.runs(t, d); }
                Some(mut r) => {
                    if info.runs.is_empty() { info.runs = r; } else {
                        info.runs.append(&mut r);
                        info.runs.sort();
                        let mut o: Vec<(u32, u32, u64)> = Vec::with_capacity(info.runs.len());
                        for &(a, b, v) in &info.runs {
                            if let Some(l) = o.last_mut() { if l.2 == v && l.1 + 1 == a { l.1 = b; continue; } }
                            o.push((a, b, v));
                        }
                        info.runs = o;
                    }
                    info.region = Some(match &info.region { None => missing, Some(x) => x.union(&missing) });
                }
            }
        }
        let info = &self.shapes[&n.h];
        // restrict
        let mut out = vec![];
        let mut i = match info.runs.binary_search_by(|r| if r.1 < d.iv[0].0 { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater }) { Ok(i) | Err(i) => i };
        for &(a, b) in &d.iv {
            while i < info.runs.len() && info.runs[i].1 < a { i += 1; }
            let mut k = i;
            while k < info.runs.len() && info.runs[k].0 <= b {
                let r = info.runs[k];
                out.push((r.0.max(a), r.1.min(b), r.2));
                k += 1;
            }
            i = k.saturating_sub(1).max(i);
        }
        Some(out)
    }

    /// (true set, false set) of a single-variable condition over d
    pub fn split(&mut self, t: T, d: &Rc<Dom>) -> (Rc<Dom>, Rc<Dom>) {
        let r = self.runs(t, d).unwrap();
        let mut a = vec![];
        let mut b = vec![];
        for (x, y, v) in r { if v != 0 { a.push((x, y)) } else { b.push((x, y)) } }
        (Dom::new(a), Dom::new(b))
    }

    /// evaluate under a full assignment of the input variables
    pub fn eval_env(&self, t: T, env: &HashMap<u32, u64>, memo: &mut HashMap<T, u64>) -> u64 {
        if let Some(&v) = memo.get(&t) { return v; }
        let n = *self.n(t);
        let v = match n.op {
            K::Const => n.k,
            K::Var => *env.get(&(n.k as u32)).unwrap_or(&0),
            K::Ite => { if self.eval_env(n.a, env, memo) != 0 { self.eval_env(n.b, env, memo) } else { self.eval_env(n.c, env, memo) } }
            K::Extract => self.eval_env(n.a, env, memo) >> n.k & mask(n.w),
            K::Load => { let a = self.eval_env(n.a, env, memo); self.img(a, n.k as u32) }
            K::Ref => { let a = self.eval_env(n.a, env, memo); self.refs.get(n.k as u32, a as u32) as u64 }
            K::Concat => { let a = self.eval_env(n.a, env, memo); let b = self.eval_env(n.b, env, memo); a << self.w(n.b) | b }
            K::Zext => self.eval_env(n.a, env, memo),
            K::Sext => { let a = self.eval_env(n.a, env, memo); fold(n.op, n.w, a, 0, self.w(n.a)).unwrap() }
            _ => { let a = self.eval_env(n.a, env, memo); let b = self.eval_env(n.b, env, memo); fold(n.op, n.w, a, b, self.w(n.a)).unwrap() }
        };
        memo.insert(t, v);
        v
    }
}

/// partition of `d` by the joint value of several run tables over `d`
pub fn joint(tabs: &[Vec<(u32, u32, u64)>], d: &Dom) -> Vec<(Rc<Dom>, Vec<u64>)> {
    let mut at = vec![0usize; tabs.len()];
    let mut ids: HashMap<Vec<u64>, usize> = HashMap::new();
    let mut out: Vec<(Vec<(u32, u32)>, Vec<u64>)> = vec![];
    let mut key = vec![0u64; tabs.len()];
    for &(a, b) in &d.iv {
        let mut p = a;
        loop {
            let mut e = b;
            for (i, t) in tabs.iter().enumerate() {
                while t[at[i]].1 < p { at[i] += 1; }
                e = e.min(t[at[i]].1);
                key[i] = t[at[i]].2;
            }
            let k = match ids.get(&key) { Some(&k) => k, None => { let k = out.len(); ids.insert(key.clone(), k); out.push((vec![], key.clone())); k } };
            out[k].0.push((p, e));
            if e == b { break; }
            p = e + 1;
        }
    }
    out.into_iter().map(|(iv, v)| (Dom::new(iv), v)).collect()
}

pub fn restrict(runs: &[(u32, u32, u64)], d: &Dom) -> Vec<(u32, u32, u64)> {
    let mut out = vec![];
    if d.iv.is_empty() { return out; }
    let mut i = runs.partition_point(|r| r.1 < d.iv[0].0);
    for &(a, b) in &d.iv {
        while i < runs.len() && runs[i].1 < a { i += 1; }
        let mut k = i;
        while k < runs.len() && runs[k].0 <= b { out.push((runs[k].0.max(a), runs[k].1.min(b), runs[k].2)); k += 1; }
        i = k.saturating_sub(1).max(i);
    }
    out
}
