//! Turns everything the exploration relied on into solver queries.
use crate::exec::*;
use crate::pool::*;
use crate::smt::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::rc::Rc;

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub unsat: u64, pub sat: u64, pub unknown: u64, pub secs: f64, pub max_s: f64, pub certs: u64, pub asserts: u64, pub notes: Vec<String>, pub pending: u64, pub folded: u64, pub shared: u64 }

/// one goal: no value of `dom` makes `t` differ from its table (cert) / be false (assert)
#[derive(Clone)]
struct Goal { t: T, dom: Rc<Dom>, runs: Option<Vec<(u32, u32, u64)>>, msg: String, cost: usize }

fn chunks(d: &Rc<Dom>, runs: &[(u32, u32, u64)], per: usize) -> Vec<Rc<Dom>> {
    if runs.len() <= per { return vec![d.clone()]; }
    let mut out = vec![];
    for ch in runs.chunks(per) { out.push(d.inter(&Dom::range(ch[0].0, ch[ch.len() - 1].1))); }
    out
}

pub struct Ctx<'a> { pub pool: &'a Pool, pub job: usize, pub cmd: &'a [&'a str], pub tmo: u64, pub deadline: std::time::Instant }
enum Sub { Multi(Vec<Bx>, T, String), Unary(Vec<Goal>) }

fn late(cx: &Ctx) -> bool { std::time::Instant::now() > cx.deadline }

pub fn discharge(ex: &mut Ex, cx: &Ctx, sv: &mut Option<Solver>, load: &mut Load) -> Stats {
    let timeout_ms = cx.tmo;
    let mut st = Stats::default();
    let mut subs: Vec<Sub> = vec![];
    let mut goals: Vec<Goal> = vec![];
    // multi-variable assertions first: they may add table certificates
    let ob = std::mem::take(&mut ex.obligs);
    for o in &ob {
        for bs in o.boxes.chunks(48) {
            st.asserts += 1;
            let vars: Vec<u32> = { let mut v: Vec<u32> = ex.ar.topo(&[o.t]).into_iter().filter(|&x| ex.ar.n(x).op == K::Var).map(|x| ex.ar.n(x).k as u32).collect(); v.sort(); v.dedup(); v };
            let mut doms = BTreeMap::new();
            for &v in &vars {
                let mut d = ex.bdom(&bs[0], v);
                for b in &bs[1..] { d = d.union(&ex.bdom(b, v)); }
                doms.insert(v, d);
            }
            let bdoms: Vec<Vec<Rc<Dom>>> = bs.iter().map(|b| vars.iter().map(|&v| ex.bdom(b, v)).collect()).collect();
            let mut e = Enc::new(&mut ex.ar, doms.clone(), false);
            let mut alts = vec![];
            for b in &bdoms {
                let mut c = vec![];
                for (i, &v) in vars.iter().enumerate() { if *b[i] != *doms[&v] { c.push(e.member_of(v, &b[i])); } }
                alts.push(match c.len() { 0 => "true".to_string(), _ => format!("(and {})", c.iter().map(|x| format!("(= {} #b1)", x)).collect::<Vec<_>>().join(" ")) });
            }
            for &v in &vars { e.var(v); }
            writeln!(e.out, "(assert (or {}))", alts.join(" ")).unwrap();
            e.assert(o.t, false);
            let inputs = e.inputs.clone();
            let used = std::mem::take(&mut e.used);
            let body = std::mem::take(&mut e.out);
            drop(e);
            for (t, d) in used { ex.cert(t, &d); }
            cx.pool.submit(Query { job: cx.job, k: subs.len(), body, inputs });
            subs.push(Sub::Multi(bs.to_vec(), o.t, o.msg.clone()));
        }
    }
    let a1: Vec<(T, Rc<Dom>, String)> = ex.asserts1.values().cloned().collect();
    st.asserts += a1.len() as u64;
    let mut work: Vec<Goal> = vec![];
    for (t, d, msg) in a1 {
        let c = canon(ex, t);
        work.push(Goal { t: c, dom: d, runs: None, msg, cost: 0 });
    }
    let ids: Vec<(T, Rc<Dom>)> = ex.idents.values().cloned().collect();
    for (t, d) in ids {
        let c = canon(ex, t);
        let x = ex.ar.var(0);
        let q = ex.ar.bin(K::Eq, c, x);
        if ex.ar.cv(q) == Some(1) { continue; }
        st.certs += 1;
        work.push(Goal { t: q, dom: d, runs: None, msg: "identity certificate".into(), cost: 0 });
    }
    let mut done: HashMap<u128, Rc<Dom>> = HashMap::new();
    loop {
        for g in std::mem::take(&mut work) {
            if late(cx) { st.pending += 1; continue; }
            split_goal(ex, g, &mut goals, &mut st, 0);
        }
        let mut cs: Vec<(u128, T, Rc<Dom>)> = ex.certs.iter().map(|(h, (t, d))| (*h, *t, d.clone())).collect();
        cs.sort_by_key(|x| x.1);
        for (h, t, d) in cs {
            if is_atom(&ex.ar, t) { continue; }
            if done.get(&h).map_or(false, |x| d.subset(x)) { continue; }
            if late(cx) { st.pending += 1; continue; }
            // a table over the hull is often simpler than over a scattered domain
            let d = {
                let hull = d.hull();
                match (ex.ar.runs(t, &d), ex.ar.runs(t, &hull)) { (Some(a), Some(b)) if b.len() <= 2 * a.len() + 64 => hull, _ => d }
            };
            let miss = match done.get(&h) { Some(x) => d.minus(x), None => { st.certs += 1; d.clone() } };
            if miss.empty() { continue; }
            let all = match done.get(&h) { Some(x) => x.union(&miss), None => miss.clone() };
            done.insert(h, all);
            let miss = Dom::new(cx.pool.claim(h, &miss.iv));
            if miss.empty() { st.shared += 1; continue; }
            let c = canon(ex, t);
            if matches!(ex.ar.n(c).op, K::Var | K::Const) { continue; }
            let runs = match ex.ar.runs(c, &miss) { Some(r) => r, None => { st.notes.push("table too large to certify".into()); st.unknown += 1; continue; } };
            work.push(Goal { t: c, dom: miss, runs: Some(runs), msg: "table certificate".into(), cost: 0 });
        }
        if work.is_empty() { break; }
    }
    if std::env::var("LLSYM_SLOW").is_ok() { eprintln!("goals {} tab {} folded {} certs {}", goals.len(), goals.iter().filter(|g| ex.ar.n(g.t).tab).count(), st.folded, st.certs); }
    goals = group(ex, goals);
    if std::env::var("LLSYM_SLOW").is_ok() { eprintln!("grouped {}", goals.len()); }
    if std::env::var("LLSYM_SLOW").is_ok() {
        let mut hist: BTreeMap<String, (usize, u64)> = BTreeMap::new();
        for g in &goals { let k = format!("{} {}", g.msg, ex.ar.show(g.t, 0)); let k: String = k.split(&[' ', ')'][..]).filter(|x| !x.chars().all(|c| c.is_ascii_hexdigit())).collect::<Vec<_>>().join(" "); let k: String = k.split("400").next().unwrap().into(); let e = hist.entry(k).or_default(); e.0 += 1; e.1 += g.dom.n; }
        let mut v: Vec<_> = hist.into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
        for (k, c) in v.iter().take(25) { eprintln!("  {:?} {}", c, k); }
    }
    // batch goals over variable 0
    goals.sort_by_key(|g| (g.dom.first(), g.t));
    let mut i = 0;
    while i < goals.len() {
        let mut j = i;
        let mut c = 0;
        let small = |g: &Goal| g.cost <= 60;
        while j < goals.len() && (j == i || (small(&goals[i]) && small(&goals[j]) && c + goals[j].cost <= 300 && j - i < 40)) { c += goals[j].cost; j += 1; }
        let (mut body, inputs) = encode(ex, &goals[i..j]);
        if std::env::var("LLSYM_QDIR").is_ok() { let g = &goals[i]; body.push_str(&format!("; {} n={} dom={} iv={} first={} runs={} {}\n", g.msg, j - i, g.dom.n, g.dom.iv.len(), g.dom.first(), g.runs.as_ref().map_or(0, |r| r.len()), ex.ar.show(g.t, 0))); }
        cx.pool.submit(Query { job: cx.job, k: subs.len(), body, inputs });
        subs.push(Sub::Unary(goals[i..j].to_vec()));
        i = j;
        if std::time::Instant::now() > ex.deadline { st.pending += (goals.len() - i) as u64; break; }
    }
    let res = cx.pool.work(Some(cx.job), sv, cx.cmd, timeout_ms, cx.deadline, load);
    st.pending += (subs.len() - res.len()) as u64;
    for (k, r) in res {
        st.queries += 1;
        match (&subs[k], r) {
            (_, Ok(Res::Unsat)) => st.unsat += 1,
            (Sub::Multi(bs, t, msg), Ok(Res::Sat(m))) => {
                st.sat += 1;
                let _ = t;
                let b = bs.iter().find(|b| m.iter().all(|(v, x)| ex.bdom(b, *v).contains(*x as u32))).unwrap_or(&bs[0]).clone();
                cand(ex, msg, &b, &m);
            }
            (Sub::Multi(_, _, msg), Ok(Res::Unknown(s))) => { st.unknown += 1; st.notes.push(format!("{}: {}", msg, s)); }
            (Sub::Unary(gs), Ok(Res::Sat(_))) | (Sub::Unary(gs), Ok(Res::Unknown(_))) => {
                // find out which goal it is
                if sv.is_none() { *sv = Solver::new(cx.cmd).ok(); }
                let before = (st.queries, load.queries);
                let _ = before;
                if let Some(s) = sv { let gs = gs.clone(); if gs.len() == 1 { check_batch(ex, s, &gs, timeout_ms, &mut st); } else { for g in &gs { check_batch(ex, s, std::slice::from_ref(g), timeout_ms, &mut st); } } }
            }
            (_, Err(s)) => { st.unknown += 1; st.notes.push(s); }
        }
    }
    st
}

/// Splits a goal until every table lookup in it is addressed by arithmetic on
/// the variable alone: lookups that feed the address of another lookup are
/// replaced by their value on a sub-domain (and certified on their own).
fn split_goal(ex: &mut Ex, g: Goal, out: &mut Vec<Goal>, st: &mut Stats, lvl: u32) {
    if g.dom.empty() { return; }
    if let Some(v) = ex.ar.cv(g.t) {
        let bad = match &g.runs { None => if v & 1 == 1 { None } else { Some(g.dom.first()) }, Some(r) => r.iter().find(|x| x.2 != v).map(|x| x.0) };
        match bad {
            None => st.folded += 1,
            Some(_) => out.push(g),
        }
        return;
    }
    if g.runs.is_some() && is_atom(&ex.ar, g.t) { st.folded += 1; return; }
    let mut nested = false;
    if lvl < 6 && (ex.ar.n(g.t).tab || (g.runs.is_some() && ex.ar.n(g.t).depth > 3)) {
        let hull = g.dom.hull();
        let (used, tabs) = inner(ex, g.t, g.runs.is_some(), &hull, &g.dom, &mut nested);
        let classes = joint(&tabs, &g.dom);
        if !used.is_empty() {
            for &s in &used { ex.cert(s, &hull); }
            for (dom, vals) in classes {
                let mut memo = HashMap::new();
                for (i, &s) in used.iter().enumerate() { let w = ex.ar.w(s); let c = ex.ar.c(vals[i], w); memo.insert(s, c); }
                let t = ex.ar.rebuild(g.t, &mut memo);
                let runs = g.runs.as_ref().map(|r| restrict(r, &dom));
                split_goal(ex, Goal { t, dom, runs, msg: g.msg.clone(), cost: 0 }, out, st, lvl + 1);
            }
            return;
        }
    }
    let tab = ex.ar.n(g.t).tab;
    match &g.runs {
        None => {
            let looks = if tab { lookups(&ex.ar, g.t) } else { 0 };
            let sz = if nested { 64 } else if looks > 2 { 512 } else if tab { 4096 } else { 1 << 22 };
            let mut pos = 0u64;
            while pos < g.dom.n {
                let ch = take(&g.dom, pos, sz);
                pos += ch.n;
                let cost = if tab { (ch.n * 4).max(8) as usize } else { 10 };
                out.push(Goal { t: g.t, dom: ch, runs: None, msg: g.msg.clone(), cost });
            }
        }
        Some(runs) => {
            let per = if nested { 64 } else if tab { 150 } else { 2000 };
            for ch in chunks(&g.dom, runs, per) {
                let r = restrict(runs, &ch);
                let cost = r.len() + if tab { (ch.n * 4).min(100) as usize } else { 2 };
                out.push(Goal { t: g.t, dom: ch, runs: Some(r), msg: g.msg.clone(), cost });
            }
        }
    }
}
/// Subterms to replace by their certified value: lookups and conditions inside
/// the address of a lookup (with `direct`, also outermost lookups of the term).
fn inner(ex: &mut Ex, t: T, direct: bool, hull: &Rc<Dom>, dom: &Dom, nested: &mut bool) -> (Vec<T>, Vec<Vec<(u32, u32, u64)>>) {
    let mut seen = std::collections::HashSet::new();
    let (mut used, mut tabs) = (vec![], vec![]);
    let mut stk = vec![(t, false, false)];
    while let Some((x, under, cond)) = stk.pop() {
        if !seen.insert((x, under, cond)) { continue; }
        let n = *ex.ar.n(x);
        if n.op == K::Const || n.op == K::Var { continue; }
        let _ = cond;
        let look = matches!(n.op, K::Load | K::Ref);
        let bit = n.w == 1;
        if x != t && (look || bit) && (under || direct) {
            let room = (64 + hull.n / 16).max(20000.min(hull.n + 1));
            match ex.ar.runs(x, hull) {
                Some(r) if (r.len() as u64) < room => { tabs.push(restrict(&r, dom)); used.push(x); continue; }
                r => { if std::env::var("LLSYM_QDIR").is_ok() && look { eprintln!("not split: {} hull {} runs {:?}", ex.ar.show(x, 0), hull.n, r.map(|r| r.len())); } *nested |= look }
            }
        }
        let a = Arena::arity(n.op);
        for (i, y) in [n.a, n.b, n.c].iter().enumerate() { if i < a { stk.push((*y, under || look, n.op == K::Ite && i == 0)); } }
    }
    let mut ix: Vec<usize> = (0..used.len()).collect();
    ix.sort_by_key(|&i| used[i]);
    ix.dedup_by_key(|i| used[*i]);
    (ix.iter().map(|&i| used[i]).collect(), ix.iter().map(|&i| tabs[i].clone()).collect())
}
/// Joins goals "t equals c on D" about the same term and message into table goals.
fn group(ex: &mut Ex, goals: Vec<Goal>) -> Vec<Goal> {
    let mut by: BTreeMap<(T, String), (Vec<(u32, u32, u64)>, usize)> = BTreeMap::new();
    let mut out = vec![];
    let mut keep = vec![];
    for g in goals {
        let n = *ex.ar.n(g.t);
        let c = if n.op == K::Eq { ex.ar.cv(n.b) } else { None };
        match (&g.runs, c) {
            (None, Some(c)) if g.dom.n <= 4096 && ex.ar.n(g.t).tab => {
                let e = by.entry((n.a, g.msg.clone())).or_default();
                for &(a, b) in &g.dom.iv { e.0.push((a, b, c)); }
                e.1 += 1;
                keep.push(g);
            }
            _ => out.push(g),
        }
    }
    for ((t, msg), (mut runs, k)) in by {
        runs.sort();
        let clash = runs.windows(2).any(|w| w[1].0 <= w[0].1 && w[0].2 != w[1].2);
        if k < 2 || clash { continue; }
        keep.retain(|g| !(ex.ar.n(g.t).a == t && g.msg == msg));
        let dom = Dom::new(runs.iter().map(|r| (r.0, r.1)).collect());
        let mut m: Vec<(u32, u32, u64)> = vec![];
        for r in runs { match m.last_mut() { Some(l) if l.2 == r.2 && r.0 <= l.1.saturating_add(1) => l.1 = l.1.max(r.1), _ => m.push(r) } }
        for ch in chunks(&dom, &m, 64) {
            let r = restrict(&m, &ch);
            out.push(Goal { t, dom: ch, runs: Some(r), msg: msg.clone(), cost: 1000 });
        }
    }
    out.extend(keep);
    out
}
/// number of distinct table lookups in a term
fn lookups(ar: &Arena, t: T) -> usize { ar.topo(&[t]).into_iter().filter(|&x| matches!(ar.n(x).op, K::Load | K::Ref)).count() }
/// comparison of the variable itself with a constant: the domains of the path
/// condition are made of exactly these, nothing to certify
fn is_atom(ar: &Arena, t: T) -> bool {
    let n = ar.n(t);
    let (a, b) = (ar.n(n.a), ar.n(n.b));
    match n.op {
        K::Eq | K::Ult | K::Ule => a.w == 32 && ((a.op == K::Var && b.op == K::Const) || (a.op == K::Const && b.op == K::Var)),
        K::Xor => n.w == 1 && b.op == K::Const && is_atom(ar, n.a),
        _ => false,
    }
}
fn encode(ex: &mut Ex, gs: &[Goal]) -> (String, Vec<(String, u32)>) {
    let mut d = gs[0].dom.clone();
    for g in &gs[1..] { if *g.dom != *d { d = d.union(&g.dom); } }
    let mut doms = BTreeMap::new();
    doms.insert(0, d.clone());
    let mut e = Enc::new(&mut ex.ar, doms, true);
    let mut alts = vec![];
    for g in gs {
        let s = match &g.runs { Some(r) => e.differs(g.t, r), None => { let s = e.term(g.t); format!("(= {} #b0)", s) } };
        if *g.dom != *d { let m = e.member_of(0, &g.dom); alts.push(format!("(and (= {} #b1) {})", m, s)); } else { alts.push(s); }
    }
    e.var(0);
    writeln!(e.out, "(assert (or {}))", alts.join(" ")).unwrap();
    (std::mem::take(&mut e.out), e.inputs.clone())
}
fn check_batch(ex: &mut Ex, sv: &mut Solver, gs: &[Goal], timeout_ms: u64, st: &mut Stats) {
    let (body, inputs) = encode(ex, gs);
    let res = sv.check(&body, &inputs, timeout_ms);
    st.queries += 1;
    match res {
        Ok(Res::Unsat) => st.unsat += 1,
        Ok(Res::Sat(m)) => {
            if gs.len() > 1 { for g in gs { check_batch(ex, sv, std::slice::from_ref(g), timeout_ms, st); } return; }
            st.sat += 1;
            if gs[0].msg.ends_with("certificate") { st.unknown += 1; st.notes.push(format!("{} refuted at {:x?} shape {}", gs[0].msg, m.get(&0), ex.ar.show(gs[0].t, 0))); }
            else { let b: Bx = Rc::new(vec![]); cand(ex, &gs[0].msg, &b, &m); }
        }
        Ok(Res::Unknown(s)) => {
            if gs.len() > 1 { for g in gs { check_batch(ex, sv, std::slice::from_ref(g), timeout_ms, st); } return; }
            if gs[0].dom.n > 64 {
                for p in 0..4 { let n = gs[0].dom.n; let a = n * p / 4; let b = n * (p + 1) / 4; let dd = take(&gs[0].dom, a, b - a); let mut g = gs[0].clone(); if g.runs.is_some() { g.runs = ex.ar.runs(g.t, &dd); } g.dom = dd; check_batch(ex, sv, &[g], timeout_ms, st); }
                return;
            }
            st.unknown += 1;
            st.notes.push(format!("{}: {}", gs[0].msg, s));
        }
        Err(s) => { st.unknown += 1; st.notes.push(s); }
    }
}

fn cand(ex: &mut Ex, msg: &str, b: &Bx, m: &HashMap<u32, u64>) {
    let mut inputs = vec![];
    for (i, v) in &ex.inputs { inputs.push((*i, m.get(v).copied().unwrap_or_else(|| ex.bdom(b, *v).first() as u64))); }
    let c = Cand { kind: "assert".into(), msg: msg.into(), inputs, smt: true };
    FOUND.lock().unwrap().push((ex.job, c.clone()));
    ex.cands.push(c);
}
/// `len` elements of a domain starting at position `pos`
fn take(d: &Dom, pos: u64, len: u64) -> Rc<Dom> {
    let mut o = vec![];
    let (mut p, mut need) = (pos, len);
    for &(a, b) in &d.iv {
        let n = (b - a) as u64 + 1;
        if p >= n { p -= n; continue; }
        let s = a as u64 + p;
        let e = (s + need - 1).min(b as u64);
        o.push((s as u32, e as u32));
        need -= e - s + 1;
        p = 0;
        if need == 0 { break; }
    }
    Dom::new(o)
}
fn canon(ex: &mut Ex, t: T) -> T {
    let v = ex.ar.sup(t);
    if v == 0 || v == NONE { return t; }
    let a = ex.ar.var(v);
    let b = ex.ar.var(0);
    let mut memo = HashMap::new();
    memo.insert(a, b);
    ex.ar.rebuild(t, &mut memo)
}
