//! llsym: bounded symbolic execution of optimised LLVM IR with SMT discharge.
mod discharge;
mod exec;
mod ir;
mod pool;
mod refdata;
mod smt;
mod term;

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Job { harness: String, idx: u32, p: usize, n: usize }
#[derive(Default)]
struct Out {
    harness: String, part: String, secs: f64, explore: f64, paths: u64, steps: u64, states: u64, merged: u64, asserts: u64, asserts_const: u64, undef: u64,
    fns: HashSet<String>, cands: Vec<exec::Cand>, incomplete: BTreeMap<String, u64>, covers: BTreeMap<u64, u64>, st: discharge::Stats, inputs: Vec<(u32, u64)>, boxes: u64,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}

fn json(o: &Out) -> String {
    let mut s = String::from("{");
    s += &format!("\"harness\":{},\"part\":{},\"secs\":{:.3},\"explore\":{:.3},\"paths\":{},\"boxes\":{},\"steps\":{},\"states\":{},\"merged\":{},\"asserts\":{},\"asserts_const\":{},\"undef\":{},",
        esc(&o.harness), esc(&o.part), o.secs, o.explore, o.paths, o.boxes, o.steps, o.states, o.merged, o.asserts, o.asserts_const, o.undef);
    let mut f: Vec<_> = o.fns.iter().collect();
    f.sort();
    s += &format!("\"fns\":[{}],", f.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
    s += &format!("\"cands\":[{}],", o.cands.iter().map(|c| format!("{{\"kind\":{},\"msg\":{},\"smt\":{},\"inputs\":{{{}}}}}", esc(&c.kind), esc(&c.msg), c.smt,
        c.inputs.iter().map(|(i, v)| format!("\"{}\":{}", i, v)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    s += &format!("\"incomplete\":{{{}}},", o.incomplete.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    s += &format!("\"covers\":{{{}}},", o.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    s += &format!("\"domains\":{{{}}},", o.inputs.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    s += &format!("\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"pending\":{},\"certs\":{},\"obligations\":{},\"ground\":{},\"shared\":{},\"notes\":[{}]}}",
        o.st.queries, o.st.unsat, o.st.sat, o.st.unknown, o.st.pending, o.st.certs, o.st.asserts, o.st.folded, o.st.shared, o.st.notes.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
    s
}

fn run_job(m: &ir::Module, image: &Arc<Vec<u8>>, refs: &Arc<refdata::RefData>, j: &Job, cx: &discharge::Ctx, deadline: Instant, sv: &mut Option<smt::Solver>, load: &mut pool::Load) -> Out {
    let t0 = Instant::now();
    let mut o = Out { harness: j.harness.clone(), part: format!("{}/{}", j.p, j.n), ..Default::default() };
    let f = match m.fn_by_name.get(&j.harness) { Some(&f) => f, None => { o.incomplete.insert(format!("harness {} not found", j.harness), 1); return o; } };
    let ar = term::Arena::new(image.clone(), refs.clone());
    let mut ex = exec::Ex::new(m, ar, deadline);
    ex.job = cx.job;
    if j.n > 1 { ex.part = Some((j.idx, j.p, j.n)); }
    let st = ex.init_state();
    let r = ex.call(st, f, vec![]);
    o.paths = r.len() as u64;
    o.boxes = r.iter().map(|(s, _)| s.pc.len() as u64).sum();
    o.explore = t0.elapsed().as_secs_f64();
    if std::env::var("LLSYM_SLOW").is_ok() { eprintln!("{} {} explored {:.2}s paths {} steps {} states {} merged {} certs {} asserts1 {} obligs {} idents {} nodes {}", j.harness, o.part, o.explore, o.paths, ex.n_steps, ex.n_states, ex.n_merged, ex.certs.len(), ex.asserts1.len(), ex.obligs.len(), ex.idents.len(), ex.ar.nodes.len()); }
    if std::env::var("LLSYM_PROF").is_ok() {
        let mut v: Vec<_> = ex.prof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse((x.1).1));
        for (f, c) in v.iter().take(30) { eprintln!("  calls {:8} steps {:11} outs {:8} {}", c.0, c.1, c.2, exec::short(&m.fns[**f as usize].name)); }
    }
    ex.dead = false;
    o.st = discharge::discharge(&mut ex, cx, sv, load);
    o.steps = ex.n_steps; o.states = ex.n_states; o.merged = ex.n_merged; o.asserts = ex.n_assert; o.asserts_const = ex.n_assert_const; o.undef = ex.n_undef;
    o.fns = ex.fns.iter().map(|f| exec::short(&m.fns[*f as usize].name)).collect();
    o.cands = ex.cands; o.incomplete.extend(ex.incomplete); o.covers = ex.covers;
    o.inputs = ex.inputs.iter().map(|(i, v)| (*i, ex.ar.vars[*v as usize].dom.n)).collect();
    o.secs = t0.elapsed().as_secs_f64();
    o
}

fn main() {
    let t_start = Instant::now();
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let m = ir::Module::load(&get("--ir").expect("--ir")).expect("IR");
    let image = Arc::new(m.image.clone());
    let refs = Arc::new(refdata::RefData::load(&get("--ref").expect("--ref"), true).expect("reference data"));
    if let Some(h) = get("--conc") {
        // concrete mode: outputs of one harness for given inputs, one line per input vector on stdin
        let mut line = String::new();
        while std::io::stdin().read_line(&mut line).unwrap() > 0 {
            let ins: Vec<u32> = line.split_whitespace().map(|x| x.parse().unwrap()).collect();
            let ar = term::Arena::new(image.clone(), refs.clone());
            let mut ex = exec::Ex::new(&m, ar, Instant::now() + Duration::from_secs(60));
            for (i, v) in ins.iter().enumerate() { ex.in_dom.insert(i as u32, term::Dom::range(*v, *v)); }
            let st = ex.init_state();
            let r = std::thread::scope(|_| ex.call(st, *m.fn_by_name.get(&h).expect("harness"), vec![]));
            if r.len() == 1 {
                let v: Vec<String> = r[0].0.outs.iter().map(|x| match x { exec::V::C(c, _) => format!("{}", c), v => format!("{:?}", v) }).collect();
                println!("ok {}", v.join(" "));
            } else { println!("end {:?} {:?}", ex.cands.first().map(|c| c.kind.clone()), ex.incomplete); }
            line.clear();
        }
        return;
    }
    let threads: usize = get("--threads").and_then(|x| x.parse().ok()).unwrap_or(8);
    let secs: f64 = get("--seconds").and_then(|x| x.parse().ok()).unwrap_or(600.0);
    let tmo: u64 = get("--query-ms").and_then(|x| x.parse().ok()).unwrap_or(60000);
    let solver = get("--solver").unwrap_or("z3 -in".into());
    let solver: Vec<&str> = solver.split(' ').collect();
    let deadline = Instant::now() + Duration::from_secs_f64(secs);
    // --job harness[:parts[:input]]
    let mut jobs = vec![];
    for i in 0..a.len() {
        if a[i] == "--job" {
            let f: Vec<&str> = a[i + 1].split(':').collect();
            let n: usize = f.get(1).and_then(|x| x.parse().ok()).unwrap_or(1);
            let idx: u32 = f.get(2).and_then(|x| x.parse().ok()).unwrap_or(0);
            for p in 0..n { jobs.push(Job { harness: f[0].into(), idx, p, n }); }
        }
    }
    let next = AtomicUsize::new(0);
    let outs: Arc<Mutex<Vec<(usize, Out)>>> = Arc::new(Mutex::new(vec![]));
    {
        // whatever happens, report what is known some time after the deadline
        let (outs, out) = (outs.clone(), get("--out"));
        let list: Vec<(String, String)> = jobs.iter().map(|j| (j.harness.clone(), format!("{}/{}", j.p, j.n))).collect();
        std::thread::spawn(move || {
            std::thread::sleep(deadline.saturating_duration_since(Instant::now()) + Duration::from_secs(75));
            let mut v = std::mem::take(&mut *outs.lock().unwrap());
            let found = std::mem::take(&mut *exec::FOUND.lock().unwrap());
            for (i, (h, p)) in list.iter().enumerate() {
                if v.iter().any(|x| x.0 == i) { continue; }
                let mut o = Out { harness: h.clone(), part: p.clone(), ..Default::default() };
                o.incomplete.insert("stopped long after the time budget".into(), 1);
                o.cands = found.iter().filter(|x| x.0 == i).map(|x| x.1.clone()).collect();
                v.push((i, o));
            }
            write(out, v, &pool::Load::default(), t_start);
            std::process::exit(0);
        });
    }
    let pool = pool::Pool::default();
    let total = Mutex::new(pool::Load::default());
    pool.producer(jobs.len() as i32);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || {
                let mut sv = None;
                let mut load = pool::Load::default();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= jobs.len() { break; }
                    let cx = discharge::Ctx { pool: &pool, job: i, cmd: &solver, tmo, deadline: deadline + Duration::from_secs(30) };
                    let o = run_job(&m, &image, &refs, &jobs[i], &cx, deadline, &mut sv, &mut load);
                    eprintln!("{} {}: {:.2}s explore {:.2}s paths {} boxes {} steps {} states {} merged {} asserts {}({}) certs {}-{} q {} unk {} pend {} cands {} undef {} inc {:?} {:?}", o.harness, o.part, o.secs, o.explore, o.paths, o.boxes, o.steps, o.states, o.merged, o.asserts, o.asserts_const, o.st.certs, o.st.shared, o.st.queries, o.st.unknown, o.st.pending, o.cands.len(), o.undef, o.incomplete, o.st.notes.first());
                    outs.lock().unwrap().push((i, o));
                    pool.producer(-1);
                }
                pool.work(None, &mut sv, &solver, tmo, deadline + Duration::from_secs(30), &mut load);
                let mut t = total.lock().unwrap();
                t.queries += load.queries;
                t.secs += load.secs;
                t.max_s = t.max_s.max(load.max_s);
            }).unwrap();
        }
    });
    let total = total.into_inner().unwrap();
    let v = std::mem::take(&mut *outs.lock().unwrap());
    write(get("--out"), v, &total, t_start);
}

fn write(to: Option<String>, mut v: Vec<(usize, Out)>, total: &pool::Load, t_start: Instant) {
    v.sort_by_key(|x| x.0);
    let body: Vec<String> = v.iter().map(|(_, o)| json(o)).collect();
    let text = format!("{{\"queries\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"wall_s\":{:.3},\"jobs\":[{}]}}\n", total.queries, total.secs, total.max_s, t_start.elapsed().as_secs_f64(), body.join(",\n"));
    match to { Some(p) => std::fs::File::create(p).unwrap().write_all(text.as_bytes()).unwrap(), None => print!("{}", text) }
}
