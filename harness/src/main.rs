mod api;
mod docs;
mod files;
mod spec;
mod sym;
mod templates;
mod threads;

#[no_mangle]
pub extern "C" fn hx_entry(id: u32, param: u64) {
    match id {
        1 => docs::h_doc(param),
        2 => docs::h_num(param),
        3 => docs::h_arith(param),
        4 => docs::h_layout(param),
        5 => docs::h_comment(param),
        6 => docs::h_depth(param),
        7 => docs::h_chain(param),
        8 => docs::h_wrapped(param),
        20 => api::h_types(param),
        21 => api::h_arr(param),
        22 => api::h_write(param),
        23 => api::h_write_long(param),
        24 => api::h_eq(param),
        25 => api::h_eqint(param),
        26 => api::h_getters(param),
        27 => api::h_errors(param),
        28 => api::h_ids(param),
        29 => api::h_parent(param),
        30 => api::h_field(param),
        31 => api::h_cont(param),
        32 => api::h_macros(param),
        33 => api::h_look(param),
        9 => docs::h_nest(param),
        10 => docs::h_edges(param),
        11 => docs::h_seq(param),
        12 => docs::h_release(param),
        34 => api::h_release(param),
        40 => files::h_inc(param),
        41 => files::h_io(param),
        42 => files::h_file_doc(param),
        43 => files::h_big(param),
        50 => threads::h_ids(param),
        51 => threads::h_refs(param),
        52 => threads::h_parse(param),
        _ => {}
    }
}

#[cfg(rsym)]
fn main() { hx_entry(std::env::args().count() as u32, 0) }

#[cfg(not(rsym))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id: u32 = a[1].parse().unwrap();
    let param: u64 = a[2].parse().unwrap();
    let vals: Vec<(u32, u64)> = std::fs::read_to_string(&a[3]).unwrap().lines().filter(|l| !l.is_empty()).map(|l| { let mut p = l.split(' '); (p.next().unwrap().parse().unwrap(), p.next().unwrap().parse().unwrap()) }).collect();
    let base = a[4].clone();
    let stack: usize = a.get(5).map_or(2 << 20, |s| s.parse().unwrap());
    std::env::set_current_dir(&base).unwrap();
    { let mut r = sym::imp::REPLAY.lock().unwrap(); r.vals = vals; r.base = base; }
    let h = std::thread::Builder::new().stack_size(stack).spawn(move || hx_entry(id, param)).unwrap();
    match h.join() { Ok(()) => println!("REPLAY-OK"), Err(_) => { println!("PANICKED"); std::process::exit(101) } }
}
