//! Runs one harness natively, against the real crate, on given inputs.
//!   replay REFDIR HARNESS v0 v1 ...      one input vector (hex)
//!   replay REFDIR HARNESS batch          input vectors on stdin, outputs on stdout
//!   replay REFDIR HARNESS sweep          all values of input 0 (debugging aid)
//! Exit: 0 held, 3 an assertion failed, 4 inputs outside the harness's
//! domain; a panic of the code aborts (134).
#[path = "../../engine/src/refdata.rs"]
mod refdata;
use std::cell::RefCell;

#[derive(Default)]
struct St { refs: refdata::RefData, inp: Vec<u32>, failed: Vec<u32>, covers: Vec<u32>, outs: Vec<u32>, sweep: bool, skip: bool }
thread_local! { static ST: RefCell<St> = RefCell::new(St::default()); }

fn outside() { ST.with(|s| { let mut s = s.borrow_mut(); if s.sweep { s.skip = true; } else { println!("OUTSIDE"); std::process::exit(4); } }) }
#[no_mangle]
extern "C" fn vp_in(i: u32, kind: u32, table: u32) -> u32 {
    let (v, ok) = ST.with(|s| {
        let s = s.borrow();
        let v = *s.inp.get(i as usize).unwrap_or(&0);
        let scalar = char::from_u32(v).is_some();
        let ok = match kind { 0 => scalar, 1 => v <= 0x10FFFF, 2 => scalar && s.refs.get(table, v) != 0, _ => true };
        (v, ok)
    });
    if !ok { outside(); }
    v
}
#[no_mangle]
extern "C" fn vp_ref(t: u32, i: u32) -> u32 { ST.with(|s| s.borrow().refs.get(t, i)) }
#[no_mangle]
extern "C" fn vp_assert(ok: u32, id: u32) { if ok & 1 == 0 { ST.with(|s| s.borrow_mut().failed.push(id)); done_if_failed(); } }
#[no_mangle]
extern "C" fn vp_assume(ok: u32) { if ok & 1 == 0 { outside() } }
#[no_mangle]
extern "C" fn vp_cover(id: u32) { ST.with(|s| s.borrow_mut().covers.push(id)) }
#[no_mangle]
extern "C" fn vp_out(v: u32) { ST.with(|s| s.borrow_mut().outs.push(v)) }

fn done_if_failed() {
    ST.with(|s| { let s = s.borrow(); if !s.sweep { println!("ASSERT {}", s.failed[0]); std::process::exit(3); } })
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { eprintln!("usage: replay REFDIR HARNESS VALUES..."); std::process::exit(2); }
    let refs = refdata::RefData::load(&a[1], a[2].starts_with("n_")).expect("reference data");
    let all = vpharness::all();
    let h = match all.iter().find(|h| h.0 == a[2]) { Some(h) => h.1, None => { println!("UNKNOWN {}", a[2]); std::process::exit(5); } };
    ST.with(|s| s.borrow_mut().refs = refs);
    if a.get(3).map_or(false, |x| x == "sweep") {
        let mut bad = 0u64;
        for c in 0..=0x10FFFFu32 {
            ST.with(|s| { let mut s = s.borrow_mut(); s.sweep = true; s.skip = false; s.inp = vec![c]; s.failed.clear(); });
            h();
            ST.with(|s| { let s = s.borrow(); if !s.skip && !s.failed.is_empty() { bad += 1; if bad <= 20 { println!("{:04X} {:?}", c, s.failed); } } });
        }
        println!("{} bad", bad);
        return;
    }
    if a.get(3).map_or(false, |x| x == "batch") {
        // one input vector (decimal) per line of stdin, one line of outputs each
        let mut l = String::new();
        while std::io::stdin().read_line(&mut l).unwrap() > 0 {
            let inp: Vec<u32> = l.split_whitespace().map(|x| x.parse().expect("number")).collect();
            ST.with(|s| { let mut s = s.borrow_mut(); s.inp = inp; s.outs.clear(); });
            h();
            ST.with(|s| println!("ok {}", s.borrow().outs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
            l.clear();
        }
        return;
    }
    let inp = a[3..].iter().map(|x| u32::from_str_radix(x.trim_start_matches("0x"), 16).expect("hex")).collect();
    ST.with(|s| s.borrow_mut().inp = inp);
    h();
    ST.with(|s| { let s = s.borrow(); println!("OK covers {:?} outs {:x?}", s.covers, s.outs); });
}
