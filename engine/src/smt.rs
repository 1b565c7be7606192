//! SMT-LIB encoding of terms and a persistent solver process.
use crate::term::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum Res { Sat(HashMap<u32, u64>), Unsat, Unknown(String) }

pub struct Solver { child: Child, inp: ChildStdin, out: BufReader<ChildStdout>, pub cmd: Vec<String>, pub queries: u64, pub secs: f64, pub max_s: f64, pub last: String }

impl Solver {
    pub fn new(cmd: &[&str]) -> Result<Solver, String> {
        let mut child = Command::new(cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("{}: {}", cmd[0], e))?;
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Ok(Solver { child, inp, out, cmd: cmd.iter().map(|s| s.to_string()).collect(), queries: 0, secs: 0.0, max_s: 0.0, last: String::new() })
    }
    /// one self-contained query; `vars` are (name, var id) whose values are wanted
    pub fn check(&mut self, body: &str, vars: &[(String, u32)], timeout_ms: u64) -> Result<Res, String> {
        let t0 = Instant::now();
        let cvc = self.cmd[0].contains("cvc5");
        let mut q = String::with_capacity(body.len() + 200);
        q.push_str("(reset)\n");
        if cvc { write!(q, "(set-option :tlimit-per {})\n(set-option :produce-models true)\n", timeout_ms).unwrap(); }
        else { write!(q, "(set-option :timeout {})\n", timeout_ms).unwrap(); }
        q.push_str("(set-logic QF_BV)\n");
        q.push_str(body);
        q.push_str("(check-sat)\n(echo \"@@\")\n");
        self.last = q.clone();
        self.inp.write_all(q.as_bytes()).and_then(|_| self.inp.flush()).map_err(|e| format!("solver pipe: {}", e))?;
        let ans = self.read()?;
        let r = if ans.contains("(error") { return Err(format!("solver error: {}", ans.lines().find(|l| l.contains("(error")).unwrap_or(""))); }
        else if ans.trim() == "unsat" { Res::Unsat }
        else if ans.trim() == "sat" {
            let mut m = HashMap::new();
            if !vars.is_empty() {
                let mut g = String::from("(get-value (");
                for (n, _) in vars { g.push_str(n); g.push(' '); }
                g.push_str("))\n(echo \"@@\")\n");
                self.inp.write_all(g.as_bytes()).and_then(|_| self.inp.flush()).map_err(|e| format!("solver pipe: {}", e))?;
                let a = self.read()?;
                for (n, id) in vars {
                    let pat = format!("({} ", n);
                    if let Some(p) = a.find(&pat) {
                        let s = &a[p + pat.len()..];
                        let e = s.find(')').unwrap_or(s.len());
                        let s = s[..e].trim();
                        let v = if let Some(h) = s.strip_prefix("#x") { u64::from_str_radix(h, 16).unwrap_or(0) }
                            else if let Some(b) = s.strip_prefix("#b") { u64::from_str_radix(b, 2).unwrap_or(0) } else { return Err(format!("model value {}", s)); };
                        m.insert(*id, v);
                    }
                }
            }
            Res::Sat(m)
        } else { Res::Unknown(ans.trim().to_string()) };
        self.queries += 1;
        let dt = t0.elapsed().as_secs_f64();
        if dt > 2.0 { if let Ok(d) = std::env::var("LLSYM_QDIR") { let _ = std::fs::write(format!("{}/{:06.2}-{}-{}.smt2", d, dt, self.child.id(), self.queries), &self.last); } }
        self.secs += dt;
        if dt > self.max_s { self.max_s = dt; }
        Ok(r)
    }
    fn read(&mut self) -> Result<String, String> {
        let mut s = String::new();
        loop {
            let mut l = String::new();
            let n = self.out.read_line(&mut l).map_err(|e| e.to_string())?;
            if n == 0 { return Err("solver ended".into()); }
            if l.trim() == "@@" || l.trim() == "\"@@\"" { return Ok(s); }
            s.push_str(&l);
        }
    }
}
impl Drop for Solver { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

pub struct Enc<'a> {
    pub ar: &'a mut Arena,
    pub out: String,
    memo: HashMap<T, String>,
    vmemo: HashMap<u32, String>,
    pub doms: BTreeMap<u32, Rc<Dom>>,
    pub inputs: Vec<(String, u32)>,
    fresh: u32,
    /// shapes whose run table was used in place of their definition
    pub used: Vec<(T, Rc<Dom>)>,
    pub structural: bool,
    nd: HashMap<(u32, String, String), String>,
}

fn bv(v: u64, w: u32) -> String {
    if w % 4 == 0 { format!("#x{:0width$x}", v & mask(w), width = (w / 4) as usize) } else { format!("#b{:0width$b}", v & mask(w), width = w as usize) }
}

impl<'a> Enc<'a> {
    pub fn new(ar: &'a mut Arena, doms: BTreeMap<u32, Rc<Dom>>, structural: bool) -> Enc<'a> {
        Enc { ar, out: String::new(), memo: HashMap::new(), vmemo: HashMap::new(), doms, inputs: vec![], fresh: 0, used: vec![], structural, nd: HashMap::new() }
    }
    fn def(&mut self, w: u32, e: String) -> String {
        let n = format!("t{}", self.fresh);
        self.fresh += 1;
        writeln!(self.out, "(define-fun {} () (_ BitVec {}) {})", n, w, e).unwrap();
        n
    }
    fn free(&mut self, w: u32) -> String {
        let n = format!("f{}", self.fresh);
        self.fresh += 1;
        writeln!(self.out, "(declare-const {} (_ BitVec {}))", n, w).unwrap();
        n
    }
    pub fn dom_of(&self, v: u32) -> Rc<Dom> { self.doms.get(&v).cloned().unwrap_or_else(|| self.ar.vars[v as usize].dom.clone()) }

    fn vbits(&self, v: u32) -> u32 {
        if self.structural { let d = self.dom_of(v); return if d.iv.last().map_or(false, |x| x.1 >= 1 << 21) { 32 } else { 21 }; }
        self.ar.vars[v as usize].bits
    }
    /// name of the variable's raw bits
    pub fn var(&mut self, v: u32) -> String {
        if let Some(s) = self.vmemo.get(&v) { return s.clone(); }
        let bits = self.vbits(v);
        let n = format!("x{}", v);
        writeln!(self.out, "(declare-const {} (_ BitVec {}))", n, bits).unwrap();
        self.inputs.push((n.clone(), v));
        self.vmemo.insert(v, n.clone());
        {
            let d = self.dom_of(v);
            let full = Dom::range(0, mask(bits) as u32);
            if *d != *full {
                let s = self.member(&n, bits, &d);
                writeln!(self.out, "(assert (= {} #b1))", s).unwrap();
            }
        }
        n
    }
    fn member(&mut self, x: &str, bits: u32, d: &Dom) -> String {
        if d.iv.len() <= 12 {
            let c: Vec<String> = d.iv.iter().map(|&(a, b)| if a == b { format!("(= {} {})", x, bv(a as u64, bits)) }
                else if a == 0 { format!("(bvule {} {})", x, bv(b as u64, bits)) }
                else { format!("(and (bvule {} {}) (bvule {} {}))", bv(a as u64, bits), x, x, bv(b as u64, bits)) }).collect();
            return self.def(1, format!("(ite {} #b1 #b0)", if c.len() == 1 { c[0].clone() } else { format!("(or {})", c.join(" ")) }));
        }
        let mut runs: Vec<(u64, u64, u64)> = vec![];
        let mut p = 0u64;
        for &(a, b) in &d.iv {
            if a as u64 > p { runs.push((p, a as u64 - 1, 0)); }
            runs.push((a as u64, b as u64, 1));
            p = b as u64 + 1;
        }
        if p <= mask(bits) { runs.push((p, mask(bits), 0)); }
        let bn = self.bits(x, bits);
        self.mux(&bn, &runs, 1, None)
    }
    fn bits(&mut self, x: &str, bits: u32) -> Vec<String> {
        (0..bits).map(|i| format!("(= ((_ extract {} {}) {}) #b1)", i, i, x)).collect()
    }
    /// decision diagram over the bits of an index; uncovered indices: `free`
    /// if given, otherwise arbitrary (caller guarantees they cannot occur).
    fn mux(&mut self, bits: &[String], runs: &[(u64, u64, u64)], w: u32, free: Option<&str>) -> String {
        let mut bn: Vec<Option<String>> = vec![None; bits.len()];
        self.nd.clear();
        fn rec(e: &mut Enc, bits: &[String], bn: &mut Vec<Option<String>>, runs: &[(u64, u64, u64)], nb: u32, base: u64, w: u32, free: Option<&str>) -> Option<String> {
            // runs: those overlapping [base, base+2^nb)
            let end = base + if nb >= 64 { u64::MAX } else { (1u64 << nb) - 1 };
            if runs.is_empty() { return free.map(|s| s.to_string()); }
            if runs.len() == 1 && (free.is_none() || (runs[0].0 <= base && runs[0].1 >= end)) { return Some(bv(runs[0].2, w)); }
            if free.is_none() && runs.iter().all(|r| r.2 == runs[0].2) { return Some(bv(runs[0].2, w)); }
            if nb == 0 { return Some(bv(runs[0].2, w)); }
            let mid = base + (1u64 << (nb - 1));
            let i = runs.partition_point(|r| r.1 < mid);
            let j = runs.partition_point(|r| r.0 < mid);
            let lo = rec(e, bits, bn, &runs[..j], nb - 1, base, w, free);
            let hi = rec(e, bits, bn, &runs[i..], nb - 1, mid, w, free);
            match (lo, hi) {
                (Some(a), Some(b)) => {
                    if a == b { return Some(a); }
                    let key = (nb, a.clone(), b.clone());
                    if let Some(s) = e.nd.get(&key) { return Some(s.clone()); }
                    let q = (nb - 1) as usize;
                    if bn[q].is_none() {
                        let n = format!("b{}", e.fresh);
                        e.fresh += 1;
                        writeln!(e.out, "(define-fun {} () Bool {})", n, bits[q]).unwrap();
                        bn[q] = Some(n);
                    }
                    let c = bn[q].clone().unwrap();
                    let s = e.def(w, format!("(ite {} {} {})", c, b, a));
                    e.nd.insert(key, s.clone());
                    Some(s)
                }
                (Some(a), None) | (None, Some(a)) => Some(a),
                (None, None) => None,
            }
        }
        let r = rec(self, bits, &mut bn, runs, bits.len() as u32, 0, w, free);
        r.unwrap_or_else(|| bv(0, w))
    }

    /// table over the variable itself (arbitrary outside the runs)
    fn table(&mut self, x: &str, bits: u32, runs: &[(u64, u64, u64)], w: u32) -> String {
        let mut m: Vec<(u64, u64)> = vec![];
        for r in runs { match m.last_mut() { Some(l) if l.1 == r.2 => l.0 = r.1, _ => m.push((r.1, r.2)) } }
        if m.len() <= 12 {
            let mut s = bv(m[m.len() - 1].1, w);
            for i in (0..m.len() - 1).rev() { s = format!("(ite (bvule {} {}) {} {})", x, bv(m[i].0, bits), bv(m[i].1, w), s); }
            return if m.len() == 1 { s } else { self.def(w, s) };
        }
        let b = self.bits(x, bits);
        self.mux(&b, runs, w, None)
    }
    /// table lookup addressed by a 64/32-bit term; `vals` lists the indices that
    /// can occur; any other index yields an unconstrained value.
    fn lookup(&mut self, idx: &str, iw: u32, mut keys: Vec<(u64, u64)>, w: u32) -> String {
        keys.sort();
        keys.dedup();
        if keys.is_empty() { return self.free(w); }
        let lo = keys[0].0;
        let hi = keys[keys.len() - 1].0;
        let diff = lo ^ hi;
        let nb = 64 - diff.leading_zeros();
        let base = if nb >= 64 { 0 } else { lo >> nb << nb };
        let mut runs: Vec<(u64, u64, u64)> = vec![];
        for (k, v) in keys {
            let k = k - base;
            if let Some(l) = runs.last_mut() { if l.2 == v && l.1 + 1 == k { l.1 = k; continue; } }
            runs.push((k, k, v));
        }
        let f = self.free(w);
        let m = if nb == 0 { bv(runs[0].2, w) } else {
            let bits: Vec<String> = (0..nb).map(|i| format!("(= ((_ extract {} {}) {}) #b1)", i, i, idx)).collect();
            self.mux(&bits, &runs, w, Some(&f))
        };
        if nb < iw {
            let p = bv(base >> nb, iw - nb);
            self.def(w, format!("(ite (= ((_ extract {} {}) {}) {}) {} {})", iw - 1, nb, idx, p, m, f))
        } else { m }
    }

    fn table_of(&mut self, t: T) -> Option<String> {
        let n = *self.ar.n(t);
        let v = n.sup;
        let d = self.dom_of(v);
        let runs = self.ar.runs(t, &d)?;
        if runs.len() > 6000 { return None; }
        let x = self.var(v);
        let b = self.vbits(v);
        let r: Vec<(u64, u64, u64)> = runs.iter().map(|r| (r.0 as u64, r.1 as u64, r.2)).collect();
        let s = self.table(&x, b, &r, n.w);
        self.used.push((t, d));
        Some(s)
    }

    pub fn term(&mut self, root: T) -> String {
        if let Some(s) = self.memo.get(&root) { return s.clone(); }
        // iterative over operands, recursion depth is bounded by DAG depth
        let n = *self.ar.n(root);
        if n.op != K::Const && n.op != K::Var && n.sup < MANY && !self.structural && (n.tab || n.depth > 12) {
            if let Some(s) = self.table_of(root) { self.memo.insert(root, s.clone()); return s; }
        }
        let w = n.w;
        let s = match n.op {
            K::Const => bv(n.k, w),
            K::Var => {
                let v = n.k as u32;
                let x = self.var(v);
                let b = self.vbits(v);
                if b == 32 { x } else { self.def(32, format!("((_ zero_extend {}) {})", 32 - b, x)) }
            }
            K::Zext => { let a = self.term(n.a); let aw = self.ar.w(n.a); self.def(w, format!("((_ zero_extend {}) {})", w - aw, a)) }
            K::Sext => { let a = self.term(n.a); let aw = self.ar.w(n.a); self.def(w, format!("((_ sign_extend {}) {})", w - aw, a)) }
            K::Extract => { let a = self.term(n.a); self.def(w, format!("((_ extract {} {}) {})", n.k as u32 + w - 1, n.k, a)) }
            K::Concat => { let a = self.term(n.a); let b = self.term(n.b); self.def(w, format!("(concat {} {})", a, b)) }
            K::Ite => { let c = self.term(n.a); let a = self.term(n.b); let b = self.term(n.c); self.def(w, format!("(ite (= {} #b1) {} {})", c, a, b)) }
            K::Load | K::Ref => {
                let a = self.term(n.a);
                let aw = self.ar.w(n.a);
                let an = *self.ar.n(n.a);
                assert!(an.sup < MANY, "lookup through a multi-variable index");
                let d = self.dom_of(an.sup);
                let ks = self.ar.values(n.a, &d);
                let keys: Vec<(u64, u64)> = ks.into_iter().map(|k| {
                    let v = if n.op == K::Load { self.ar.img(k, n.k as u32) } else { self.ar.refs.get(n.k as u32, k as u32) as u64 };
                    (k, v)
                }).collect();
                self.lookup(&a, aw, keys, w)
            }
            op => {
                let a = self.term(n.a);
                let b = self.term(n.b);
                let (f, cmp) = match op {
                    K::Add => ("bvadd", false), K::Sub => ("bvsub", false), K::Mul => ("bvmul", false), K::UDiv => ("bvudiv", false), K::URem => ("bvurem", false),
                    K::SDiv => ("bvsdiv", false), K::SRem => ("bvsrem", false), K::Shl => ("bvshl", false), K::LShr => ("bvlshr", false), K::AShr => ("bvashr", false),
                    K::And => ("bvand", false), K::Or => ("bvor", false), K::Xor => ("bvxor", false),
                    K::Eq => ("=", true), K::Ult => ("bvult", true), K::Ule => ("bvule", true), K::Slt => ("bvslt", true), K::Sle => ("bvsle", true),
                    _ => unreachable!(),
                };
                if cmp { self.def(1, format!("(ite ({} {} {}) #b1 #b0)", f, a, b)) } else { self.def(w, format!("({} {} {})", f, a, b)) }
            }
        };
        self.memo.insert(root, s.clone());
        s
    }
    pub fn assert(&mut self, t: T, val: bool) {
        let s = self.term(t);
        writeln!(self.out, "(assert (= {} {}))", s, if val { "#b1" } else { "#b0" }).unwrap();
    }
    pub fn member_of(&mut self, v: u32, d: &Dom) -> String {
        let x = self.var(v);
        let b = self.vbits(v);
        self.member(&x, b, d)
    }
    /// "t differs from its run table" (the table is arbitrary off its domain)
    pub fn differs(&mut self, t: T, runs: &[(u32, u32, u64)]) -> String {
        let n = *self.ar.n(t);
        let a = self.term(t);
        let x = self.var(n.sup);
        let b = self.vbits(n.sup);
        let r: Vec<(u64, u64, u64)> = runs.iter().map(|r| (r.0 as u64, r.1 as u64, r.2)).collect();
        let s = self.table(&x, b, &r, n.w);
        format!("(not (= {} {}))", a, s)
    }
}
