//! Threads that create containers. Which thread moves at each access of shared memory is symbolic.
use crate::sym;
use over::arr::Arr;
use over::tup::Tup;
use over::{Obj, ReferenceType};
use std::str::FromStr;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

const MAX: usize = 320;
static IDS: [AtomicUsize; MAX] = [const { AtomicUsize::new(0) }; MAX];
static HOW: AtomicUsize = AtomicUsize::new(0);
static SHARED: std::sync::Mutex<Option<Obj>> = std::sync::Mutex::new(None);

/// arg: slot of the first id | number of containers << 16
extern "C" fn body(arg: usize) {
    let (s, n, how) = (arg & 0xffff, arg >> 16, HOW.load(SeqCst));
    for i in 0..n {
        let id = match (how + i) % 4 {
            0 => Arr::empty().id(),
            1 => Tup::from_values(vec![]).id(),
            2 => Obj::empty().id(),
            _ => Obj::from_str("").unwrap().id(),
        };
        IDS[s + i].store(id + 1, SeqCst);
    }
}
/// The native counterpart: the executor's schedule cannot be forced on real threads, so they race, many times over.
fn stress(t: usize, how: usize) {
    let go = std::sync::Arc::new(std::sync::Barrier::new(t));
    let hs: Vec<_> = (0..t).map(|_| { let go = go.clone(); std::thread::spawn(move || {
        go.wait();
        (0..200_000).map(|i| match how % 4 { 0 => Arr::empty().id(), 1 => Tup::from_values(vec![]).id(), 2 => Obj::empty().id(), _ => if i < 5000 { Obj::from_str("").unwrap().id() } else { Obj::empty().id() } }).collect::<Vec<usize>>()
    }) }).collect();
    let mut all: Vec<usize> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
    all.sort();
    sym::check(all.windows(2).all(|w| w[0] != w[1]), 303);
}
/// param: threads | containers each << 8 | switches << 16 | first kind << 24 | warm << 32
pub fn h_ids(param: u64) {
    let (t, n, sw) = ((param & 0xff) as usize, (param >> 8 & 0xff) as usize, param >> 16 & 0xff);
    HOW.store((param >> 24 & 0xff) as usize, SeqCst);
    for i in 0..t * n { IDS[i].store(0, SeqCst); }
    // either the counter is used for the first time, or it stands anywhere
    if param >> 32 & 1 == 1 { for _ in 0..36 { Arr::empty(); } let n = Arr::empty().id() as u64; sym::havoc("CUR_ID", n + 1); }
    let first = if param >> 32 & 1 == 1 { Some(Arr::empty().id() + 1) } else { None };
    let args: Vec<usize> = (0..t).map(|i| (i * n) | n << 16).collect();
    if !sym::is_sym() { stress(t, HOW.load(SeqCst)); return; }
    {
        sym::run_threads(body, &args, sw);
        let after = Tup::empty().id() + 1;
        if n > 8 {
            let mut all: Vec<usize> = (0..t * n).map(|i| IDS[i].load(SeqCst)).collect();
            sym::check(all.iter().all(|&a| a != 0), 301);
            all.push(after);
            all.extend(first);
            all.sort();
            sym::check(all.windows(2).all(|w| w[0] != w[1]), 303);
            return;
        }
        for i in 0..t * n {
            let a = IDS[i].load(SeqCst);
            sym::check(a != 0, 301);
            sym::check(a != after && Some(a) != first, 302);
            for j in 0..i { sym::check(a != IDS[j].load(SeqCst), 303); }
        }
    }
}
extern "C" fn reader(_arg: usize) {
    let o = { let g = SHARED.lock().unwrap(); g.as_ref().unwrap().clone() };
    let p = o.clone();
    let a = p.get("a");
    drop(o);
    drop(p);
    IDS[0].fetch_add(a.is_some() as usize, SeqCst);
}
/// references taken and dropped by several threads. param: threads | switches << 8
pub fn h_refs(param: u64) {
    let o = Obj::from_str("a: {b: 1}").unwrap();
    *SHARED.lock().unwrap() = Some(o.clone());
    IDS[0].store(0, SeqCst);
    let args: Vec<usize> = (0..(param & 0xff) as usize).collect();
    let rounds = if sym::is_sym() { 1 } else { 3000 };
    for r in 1..=rounds {
        sym::run_threads(reader, &args, param >> 8);
        sym::check(o.num_references() == 2 && o.get_obj("a").unwrap().num_references() == 2, 304);
        sym::check(IDS[0].load(SeqCst) == r * args.len(), 305);
    }
    *SHARED.lock().unwrap() = None;
    sym::check(o.num_references() == 1, 306);
}

const DOCS: [&str; 4] = ["a: [1] b: a", "@g: {x: 1.5} y: @g.x*2 z: \"s\"+\"t\"", "o: {^: {p: null}}\nx: o.q", "a: ((((1 ]"];
fn told(i: usize) -> String { match Obj::from_str(DOCS[i]) { Ok(o) => o.write_to_string(), Err(e) => format!("{}", e) } }
static WANT: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);
/// arg: slot | document << 8
extern "C" fn parser(arg: usize) {
    let (s, k) = (arg & 0xff, arg >> 8);
    let (text, ids) = match Obj::from_str(DOCS[k]) { Ok(o) => { let mut v = vec![]; crate::docs::ids_of(&over::value::Value::Obj(o.clone()), &mut v); v.sort(); v.dedup(); (o.write_to_string(), v) } Err(e) => (format!("{}", e), vec![]) };
    let same = WANT.lock().unwrap()[k] == text;
    IDS[s * 4].fetch_add(same as usize, SeqCst);
    for (i, x) in ids.iter().take(3).enumerate() { IDS[s * 4 + 1 + i].store(x + 1, SeqCst); }
}
/// threads that parse. param: threads | switches << 8
pub fn h_parse(param: u64) {
    let (t, sw) = ((param & 0xff) as usize, param >> 8);
    let k: Vec<usize> = (0..t).map(|_| sym::conc(sym::choice(4) as u64) as usize).collect();
    *WANT.lock().unwrap() = (0..4).map(told).collect();
    for i in 0..16 { IDS[i].store(0, SeqCst); }
    let args: Vec<usize> = (0..t).map(|i| i | k[i] << 8).collect();
    let rounds = if sym::is_sym() { 1 } else { 2000 };
    for r in 1..=rounds {
        sym::run_threads(parser, &args, sw);
        for i in 0..t { sym::check(IDS[i * 4].load(SeqCst) == r, 307); }
        let mut all: Vec<usize> = (0..t * 4).filter(|i| i % 4 != 0).map(|i| IDS[i].load(SeqCst)).filter(|&x| x != 0).collect();
        let n = all.len();
        all.sort();
        all.dedup();
        sym::check(all.len() == n, 303);
    }
}
