//! Query pool: explorations produce self-contained SMT queries, every worker
//! thread answers them with its own solver process.
use crate::smt::{Res, Solver};
use std::collections::{HashMap, VecDeque};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Query { pub job: usize, pub k: usize, pub body: String, pub inputs: Vec<(String, u32)> }
#[derive(Default)]
struct Inner { q: VecDeque<Query>, done: HashMap<usize, Vec<(usize, Result<Res, String>)>>, open: HashMap<usize, usize>, producers: usize, claims: HashMap<u128, Vec<(u32, u32)>> }
#[derive(Default)]
pub struct Pool { m: Mutex<Inner>, cv: Condvar }
#[derive(Default, Clone, Debug)]
pub struct Load { pub queries: u64, pub secs: f64, pub max_s: f64 }

impl Pool {
    pub fn producer(&self, d: i32) { let mut g = self.m.lock().unwrap(); g.producers = (g.producers as i32 + d) as usize; self.cv.notify_all(); }
    pub fn submit(&self, q: Query) {
        let mut g = self.m.lock().unwrap();
        *g.open.entry(q.job).or_default() += 1;
        g.q.push_back(q);
        self.cv.notify_one();
    }
    /// part of `iv` not yet claimed for this shape by any exploration
    pub fn claim(&self, h: u128, iv: &[(u32, u32)]) -> Vec<(u32, u32)> {
        let mut g = self.m.lock().unwrap();
        let old = g.claims.get(&h).cloned().unwrap_or_default();
        let a = crate::term::Dom::new(iv.to_vec());
        if old.is_empty() { g.claims.insert(h, a.iv.clone()); return a.iv.clone(); }
        let o = crate::term::Dom::new(old);
        let miss = a.minus(&o);
        if !miss.empty() { g.claims.insert(h, o.union(&a).iv.clone()); }
        miss.iv.clone()
    }
    fn answer(&self, sv: &mut Option<Solver>, cmd: &[&str], q: Query, tmo: u64, load: &mut Load) {
        if sv.is_none() { *sv = Solver::new(cmd).ok(); }
        let t0 = Instant::now();
        let r = match sv { Some(s) => s.check(&q.body, &q.inputs, tmo), None => Err("solver not available".into()) };
        let e = t0.elapsed().as_secs_f64();
        load.queries += 1;
        load.secs += e;
        if e > load.max_s { load.max_s = e; }
        if r.is_err() { *sv = None; }
        let mut g = self.m.lock().unwrap();
        *g.open.get_mut(&q.job).unwrap() -= 1;
        g.done.entry(q.job).or_default().push((q.k, r));
        self.cv.notify_all();
    }
    /// answers queries until those of `job` are done (or, with None, until
    /// nothing is left to answer and nobody produces any more)
    pub fn work(&self, job: Option<usize>, sv: &mut Option<Solver>, cmd: &[&str], tmo: u64, deadline: Instant, load: &mut Load) -> Vec<(usize, Result<Res, String>)> {
        loop {
            let q = {
                let mut g = self.m.lock().unwrap();
                loop {
                    if let Some(j) = job {
                        if g.open.get(&j).copied().unwrap_or(0) == 0 { return g.done.remove(&j).unwrap_or_default(); }
                        if Instant::now() > deadline {
                            let n = g.q.len();
                            g.q.retain(|q| q.job != j);
                            let dropped = n - g.q.len();
                            *g.open.get_mut(&j).unwrap() -= dropped;
                            if dropped > 0 { continue; }
                        }
                    } else if g.q.is_empty() && g.producers == 0 { return vec![]; }
                    if let Some(q) = g.q.pop_front() { break q; }
                    g = self.cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
                }
            };
            self.answer(sv, cmd, q, tmo, load);
        }
    }
}
