//! rsym: bounded symbolic execution of LLVM IR with Z3 deciding every branch and assertion.
mod exec;
mod expr;
mod ir;
mod mem;
mod vfs;
mod z3;
use exec::{short, Eng, State, Stop};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn signal(n: i32, h: usize) -> usize;
    fn kill(p: i32, s: i32) -> i32;
    fn getpid() -> i32;
}

#[repr(C)]
struct Shared { live: AtomicI64, next: AtomicI64, viol: AtomicI64, first_viol_ms: AtomicU64, root: AtomicI64, done_paths: AtomicI64, pids: [AtomicI64; NPID] }
const NPID: usize = 8192;

struct Job { name: String, hx: u32, param: u64, limit: u64, depth: u32 }
enum Item { Start(usize), St(Box<State>) }

#[derive(Default)]
struct JobRes {
    done: u64, assume: u64, viol: u64, unsup: u64, unknown: u64, steps_out: u64, incomplete: u64, unexplored: u64, max_vars: u64, max_steps: u64, max_forks: u32,
    samples: Vec<String>, viols: Vec<String>, viol_msgs: BTreeMap<String, u32>, unsup_msgs: BTreeMap<String, u64>, reach: BTreeMap<u32, u64>, depth: u32,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
fn hex(v: &[u8]) -> String { v.iter().map(|b| format!("{:02x}", b)).collect() }

struct W<'a> {
    e: Eng, jobs: &'a [Job], res: Vec<JobRes>, sh: &'static Shared, t0: Instant, deadline: Instant, max_workers: i64, outdir: String, samples: usize, id: i64, mem0: mem::Mem, entry: u32, last_fork: Instant, viol_grace_ms: u64,
}

fn values(e: &mut Eng, st: &State) -> String {
    let mut s = String::from("[");
    for (i, &v) in st.vars.iter().enumerate() {
        let w = e.cx.w(v);
        let x = st.model.get(i).copied().unwrap_or(0) & expr::mask(w);
        let _ = write!(s, "{}[{},{}]", if i > 0 { "," } else { "" }, w, x);
    }
    s.push(']');
    s
}

impl<'a> W<'a> {
    fn record_viol(&mut self, st: &State, kind: &str, msg: &str) {
        let bt = self.e.backtrace(st);
        let j = st.hx_job;
        let r = &mut self.res[j];
        r.viol += 1;
        let n = r.viol_msgs.entry(format!("{}: {}", kind, msg)).or_insert(0);
        *n += 1;
        if self.sh.viol.fetch_add(1, SeqCst) == 0 { self.sh.first_viol_ms.store(self.t0.elapsed().as_millis() as u64 + 1, SeqCst); }
        if *n <= 4 && r.viols.len() < 40 {
            let vals = values(&mut self.e, st);
            let b: Vec<String> = bt.iter().map(|s| js(s)).collect();
            let line = format!("{{\"kind\":{},\"msg\":{},\"values\":{},\"bt\":[{}]}}", js(kind), js(msg), vals, b.join(","));
            self.res[j].viols.push(line);
        }
    }
    fn finish(&mut self, st: &State, stop: Stop) {
        self.e.st.paths += 1;
        self.e.st.steps += st.steps;
        let soft = std::mem::take(&mut self.e.soft);
        for (s, k, m) in soft { self.record_viol(&s, &k, &m); }
        let j = st.hx_job;
        {
            let r = &mut self.res[j];
            if st.incomplete { r.incomplete += 1; }
            r.max_vars = r.max_vars.max(st.vars.len() as u64);
            r.max_steps = r.max_steps.max(st.steps);
            r.max_forks = r.max_forks.max(st.nforks);
            r.depth = r.depth.max(st.depth_peak);
            if !matches!(stop, Stop::Assume) { for &x in st.reach.iter() { *r.reach.entry(x).or_insert(0) += 1; } }
        }
        match stop {
            Stop::Done => {
                let r = &mut self.res[j];
                r.done += 1;
                let n = r.done;
                let take = r.samples.len() < self.samples && (n <= 2 || n.is_power_of_two() || n % 97 == 0);
                if take {
                    let vals = values(&mut self.e, st);
                    let mut notes = String::new();
                    for (i, b) in st.notes.iter().enumerate() { let c = self.e.concrete_bytes(st, b); let _ = write!(notes, "{}\"{}\"", if i > 0 { "," } else { "" }, hex(&c)); }
                    self.res[j].samples.push(format!("{{\"values\":{},\"notes\":[{}]}}", vals, notes));
                }
            }
            Stop::Assume => self.res[j].assume += 1,
            Stop::Violation(k, m) => self.record_viol(st, &k, &m),
            Stop::Steps => self.record_viol(st, "hang", "step limit exceeded"),
            Stop::Unsupported(m) => { let bt = self.e.backtrace(st); let r = &mut self.res[j]; r.unsup += 1; if r.unsup_msgs.len() < 20 { *r.unsup_msgs.entry(format!("{} in {}", m, bt.join(" < "))).or_insert(0) += 1; } }
            Stop::Unknown(m) => { let r = &mut self.res[j]; if m == "time" { r.unexplored += 1; } else { r.unknown += 1; } }
        }
        self.sh.done_paths.fetch_add(1, SeqCst);
    }
    fn out_of_time(&self) -> bool {
        if Instant::now() > self.deadline { return true; }
        let f = self.sh.first_viol_ms.load(SeqCst);
        f != 0 && (self.t0.elapsed().as_millis() as u64) > f + self.viol_grace_ms
    }
    fn run(&mut self, mut pending: Vec<Item>) {
        while let Some(it) = pending.pop() {
            if self.id != 0 && unsafe { kill(self.sh.root.load(SeqCst) as i32, 0) } != 0 { unsafe { _exit(9) } }
            if self.out_of_time() {
                match it { Item::Start(j) => self.res[j].unexplored += 1, Item::St(s) => self.res[s.hx_job].unexplored += 1 }
                continue;
            }
            let mut st = match it {
                Item::Start(j) => {
                    let jb = &self.jobs[j];
                    let m = self.mem0.clone();
                    let mut s = self.e.initial(&m, self.entry, jb.hx, jb.param, jb.limit, jb.depth);
                    s.hx_job = j;
                    Box::new(s)
                }
                Item::St(s) => s,
            };
            let stop = self.e.run(&mut st);
            for f in std::mem::take(&mut self.e.forked) { pending.push(Item::St(Box::new(f))); }
            self.finish(&st, stop);
            drop(st);
            // share work
            if pending.len() >= 2 && self.last_fork.elapsed() > Duration::from_millis(15) && self.sh.live.load(SeqCst) < self.max_workers {
                if self.sh.live.fetch_add(1, SeqCst) >= self.max_workers { self.sh.live.fetch_sub(1, SeqCst); continue; }
                let id = self.sh.next.fetch_add(1, SeqCst);
                let mut mine = vec![];
                let mut theirs = vec![];
                for (i, p) in pending.drain(..).enumerate() { if i % 2 == 0 { theirs.push(p) } else { mine.push(p) } }
                let pid = unsafe { fork() };
                if pid == 0 {
                    std::mem::forget(mine);
                    pending = theirs;
                    self.id = id;
                    self.sh.pids[id as usize % NPID].store(unsafe { getpid() } as i64, SeqCst);
                    self.res = (0..self.jobs.len()).map(|_| JobRes::default()).collect();
                    self.e.st = Default::default();
                    self.e.dumps.clear();
                    for x in self.e.entered.iter_mut() { *x = 0; }
                    self.last_fork = Instant::now();
                } else if pid < 0 {
                    self.sh.live.fetch_sub(1, SeqCst);
                    pending = mine; pending.extend(theirs);
                } else {
                    self.sh.pids[id as usize % NPID].store(pid as i64, SeqCst);
                    for t in theirs { std::mem::forget(t); }
                    pending = mine;
                    self.last_fork = Instant::now();
                }
            }
        }
    }
    fn write(&self) {
        if self.e.prof_on { let mut v: Vec<_> = self.e.prof.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(x.1 .1)); for (k, x) in v.iter().take(40) { eprintln!("{:>8} {:>9.1}ms {}", x.0, x.1 as f64 / 1e6, k); } }
        let mut s = String::from("{\"jobs\":[");
        let mut first = true;
        for (j, r) in self.res.iter().enumerate() {
            if r.done + r.assume + r.viol + r.unsup + r.unknown + r.unexplored + r.incomplete == 0 { continue; }
            if !first { s.push(','); }
            first = false;
            let m = |b: &BTreeMap<String, u64>| b.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
            let m2 = r.viol_msgs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
            let rc = r.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",");
            let _ = write!(s, "{{\"job\":{},\"done\":{},\"assume\":{},\"viol\":{},\"unsup\":{},\"unknown\":{},\"incomplete\":{},\"unexplored\":{},\"max_vars\":{},\"max_steps\":{},\"max_forks\":{},\"depth\":{},\"unsup_msgs\":{{{}}},\"viol_msgs\":{{{}}},\"reach\":{{{}}},\"viols\":[{}],\"samples\":[{}]}}",
                j, r.done, r.assume, r.viol, r.unsup, r.unknown, r.incomplete, r.unexplored, r.max_vars, r.max_steps, r.max_forks, r.depth, m(&r.unsup_msgs), m2, rc, r.viols.join(","), r.samples.join(","));
        }
        s.push_str("],\"stats\":");
        let t = &self.e.st;
        let _ = write!(s, "{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_ns\":{},\"steps\":{},\"forks\":{},\"paths\":{},\"asserts\":{},\"static\":{},\"presolved\":{},\"audits\":{},\"sym_asserts\":{},\"max_query_ns\":{},\"nodes\":{}}}", t.queries, t.sat, t.unsat, t.unknown, t.cache_hits, t.solver_ns, t.steps, t.forks, t.paths, t.asserts, t.static_dec, t.presolved, t.audits, t.sym_asserts, t.max_query_ns, self.e.cx.n.len());
        s.push_str(",\"funcs\":{");
        let mut first = true;
        for (i, &n) in self.e.entered.iter().enumerate() { if n > 0 { let _ = write!(s, "{}{}:{}", if first { "" } else { "," }, js(&short(&self.e.m.funcs[i].name)), n); first = false; } }
        s.push_str("},\"dumps\":[");
        for (i, (d, r)) in self.e.dumps.iter().enumerate() { let _ = write!(s, "{}[{},{}]", if i > 0 { "," } else { "" }, js(d), r); }
        s.push_str("]}");
        let p = format!("{}/w{}.json", self.outdir, self.id);
        let tmp = format!("{}.tmp", p);
        std::fs::File::create(&tmp).unwrap().write_all(s.as_bytes()).unwrap();
        std::fs::rename(&tmp, &p).unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let t0 = Instant::now();
    let text = std::fs::read_to_string(opt("--ir").expect("--ir")).expect("ir file");
    let m = match ir::parse(&text) { Ok(m) => m, Err(e) => { eprintln!("rsym: cannot parse IR: {}", e); std::process::exit(3); } };
    drop(text);
    let m: &'static ir::Module = Box::leak(Box::new(m));
    let parse_ms = t0.elapsed().as_millis();
    if opt("--dump-fn").is_some() {
        let f = opt("--dump-fn").unwrap();
        for x in &m.funcs { if x.name.contains(&f) { println!("{} regs {} frame {}", x.name, x.nregs, x.frame); for (i, n) in x.insts.iter().enumerate() { println!("  {} {:?}", i, n); } for (i, e) in x.edges.iter().enumerate() { println!("  e{} {:?}", i, e); } } }
        return;
    }
    if a.iter().any(|x| x == "--lint") {
        let mut h: BTreeMap<String, u64> = BTreeMap::new();
        for f in &m.funcs { for i in &f.insts { if let ir::Inst::Unsupported(s) = i { *h.entry(format!("{} ({})", s, short(&f.name))).or_insert(0) += 1; } } }
        for (k, v) in h { println!("{} {}", v, k); }
        println!("functions {} insts {} globals {} parse_ms {}", m.funcs.len(), m.ninsts, m.globals.len(), parse_ms);
        return;
    }
    let entry = *m.fidx.get(&opt("--entry").unwrap_or("hx_entry".into())).expect("entry function");
    let outdir = opt("--out").expect("--out");
    std::fs::create_dir_all(&outdir).unwrap();
    let jobs: Vec<Job> = std::fs::read_to_string(opt("--jobs").expect("--jobs")).expect("jobs").lines().filter(|l| !l.trim().is_empty()).map(|l| {
        let p: Vec<&str> = l.split_whitespace().collect();
        Job { name: p[0].to_string(), hx: p[1].parse().unwrap(), param: p[2].parse().unwrap(), limit: p[3].parse().unwrap(), depth: p[4].parse().unwrap() }
    }).collect();
    let time: f64 = opt("--time").map_or(60.0, |s| s.parse().unwrap());
    let workers: i64 = opt("--workers").map_or(8, |s| s.parse().unwrap());
    let samples: usize = opt("--samples").map_or(2, |s| s.parse().unwrap());
    let dump: u64 = opt("--dump-every").map_or(0, |s| s.parse().unwrap());
    let zms: u32 = opt("--rlimit").map_or(50_000_000, |s| s.parse().unwrap());
    let grace: u64 = opt("--grace-ms").map_or(4000, |s| s.parse().unwrap());
    let sh: &'static Shared = unsafe { signal(17, 1); let p = mmap(std::ptr::null_mut(), 1 << 17, 3, 0x21, -1, 0); &*(p as *const Shared) };
    sh.root.store(unsafe { getpid() } as i64, SeqCst);
    sh.live.store(1, SeqCst);
    sh.next.store(1, SeqCst);
    let mut e = Eng::new(m, zms);
    e.dump_every = dump;
    let deadline = t0 + Duration::from_secs_f64(time);
    e.deadline = deadline + Duration::from_secs(2);
    let mem0 = e.base_mem();
    let mut w = W { e, jobs: &jobs, res: (0..jobs.len()).map(|_| JobRes::default()).collect(), sh, t0, deadline, max_workers: workers, outdir, samples, id: 0, mem0, entry, last_fork: Instant::now() - Duration::from_secs(1), viol_grace_ms: grace };
    let pending: Vec<Item> = (0..jobs.len()).rev().map(Item::Start).collect();
    w.run(pending);
    w.write();
    sh.live.fetch_sub(1, SeqCst);
    if w.id != 0 { unsafe { _exit(0) } }
    // root: wait for the others
    let mut lost = 0;
    loop {
        if sh.live.load(SeqCst) <= 0 { break; }
        std::thread::sleep(Duration::from_millis(5));
        let n = sh.next.load(SeqCst);
        let mut alive = false;
        for i in 1..n { let p = sh.pids[i as usize % NPID].load(SeqCst); if p > 0 && unsafe { kill(p as i32, 0) } == 0 { alive = true; } }
        if Instant::now() > deadline + Duration::from_secs(45) {
            lost = sh.live.load(SeqCst).max(1);
            for i in 1..n { let p = sh.pids[i as usize % NPID].load(SeqCst); if p > 0 { unsafe { kill(p as i32, 9); } } }
            break;
        }
        if !alive && sh.live.load(SeqCst) > 0 { std::thread::sleep(Duration::from_millis(50)); lost = sh.live.load(SeqCst); if lost > 0 { break; } }
    }
    let names: Vec<String> = jobs.iter().map(|j| js(&j.name)).collect();
    println!("{{\"workers\":{},\"lost\":{},\"seconds\":{:.3},\"parse_ms\":{},\"paths\":{},\"module_funcs\":{},\"module_insts\":{},\"jobs\":[{}]}}", sh.next.load(SeqCst), lost, t0.elapsed().as_secs_f64(), parse_ms, sh.done_paths.load(SeqCst), m.funcs.iter().filter(|f| f.defined).count(), m.ninsts, names.join(","));
}
