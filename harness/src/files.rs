//! Harnesses over files: includes, include graphs, I/O faults.
use crate::docs::{compare, dirs, fill, note_result, DIFF, IDENT, MSG, POS, TYPES};
use crate::spec::{self, Fs};
use crate::sym;
use over::{obj, try_obj};
use over::Obj;
use std::str::FromStr;

fn pick(n: usize) -> usize { sym::choice(n as u32) as usize }

struct World { fs: Fs, base: String, asp: u64 }
impl World {
    fn new() -> World { let base = sym::fs_base(); sym::fs_add(&base, b"", 1); World { fs: Fs { ents: dirs(&base) }, base, asp: ALL } }
    fn abs(&self, p: &str) -> String { format!("{}/{}", self.base, p) }
    fn file(&mut self, p: &str, d: &[u8]) { let a = self.abs(p); sym::fs_add(&a, d, 0); self.fs.ents.retain(|e| e.0 != a); self.fs.ents.push((a, 0, d.to_vec())); }
    fn refile(&mut self, p: &str, d: &[u8]) { let a = self.abs(p); sym::fs_add(&a, d, 0); for e in self.fs.ents.iter_mut() { if e.0 == a { e.2 = d.to_vec(); } } }
    fn dir(&mut self, p: &str) { let a = self.abs(p); sym::fs_add(&a, b"", 1); self.fs.ents.push((a, 1, vec![])); }
    fn link(&mut self, p: &str, to: &str) { let a = self.abs(p); self.fs.ents.retain(|e| e.0 != a); sym::fs_add(&a, to.as_bytes(), 2); self.fs.ents.push((a, 2, to.as_bytes().to_vec())); }
    fn text(&self, doc: &str) {
        let r = Obj::from_str(doc);
        note_base(&r, &self.base);
        let c: Vec<char> = doc.chars().collect();
        compare(&spec::parse_str(&c, &self.fs, &self.base), &r, self.asp);
        sym::check(sym::fs_open_fds() == 0, 70);
    }
    fn top(&self, path: &str) {
        let r = Obj::from_file(path);
        note_base(&r, &self.base);
        compare(&spec::parse_file(path, &self.fs, &self.base), &r, self.asp);
        sym::check(sym::fs_open_fds() == 0, 70);
    }
}
/// the directory of the case differs between the executor and a replay, so messages that hold it are not noted
fn note_base(r: &Result<Obj, over::OverError>, base: &str) {
    match r { Err(e) => { sym::reach(2); let s = e.to_string(); if !s.contains(base) { sym::note(s.as_bytes()); } } _ => note_result(r) }
}
const ALL: u64 = DIFF | POS | IDENT | TYPES;
const TOK: [&str; 9] = ["", "Obj", "Arr", "Tup", "Str", "null", "1", "Foo", "Obj Arr"];

/// A tree of files: f.over holds an Obj, g values, d/h.over an Obj that includes through `..`, and links to them.
fn tree(w: &mut World) {
    w.file("f.over", b"x: 1\ny: [2]\n");
    w.file("g", b"1 # one\n2");
    w.dir("d");
    w.file("d/h.over", b"up: <\"../f.over\">\nhere: <Arr \"k\">");
    w.file("d/k", b"[1] [2]");
    w.link("l", "f.over");
    w.link("ld", "d");
    w.link("d/up", "../g");
    w.file("empty", b" # nothing\n");
}
const PATHS: [&str; 20] = ["f.over", "./f.over", "d/../f.over", "l", "ld/../f.over", "g", "d/up", "ld/up", "d/h.over", "ld/h.over", "d/k", "empty", "d", ".", "none", "", "f.over/", "f.over/x", "none/../f.over", "//"];

/// param: scenario | more << 8 | messages only << 32
pub fn h_inc(param: u64) {
    let more = param >> 8 & 0xff_ffff;
    let mut w = World::new();
    if param >> 32 & 1 == 1 { w.asp = MSG; }
    match param & 0xff {
        // one include: any token, any path
        0 => {
            tree(&mut w);
            let (t, p) = (TOK[pick(TOK.len())], PATHS[pick(PATHS.len())]);
            let p = if pick(2) == 1 { w.abs(p) } else { p.to_string() };
            w.text(&format!("a: <{} \"{}\">", t, p));
        }
        // two includes of symbolic types and spellings, directly and through another file
        1 => {
            tree(&mut w);
            let (t, u) = (TOK[pick(5)], TOK[pick(5)]);
            let (p, q) = [("f.over", "l"), ("g", "./g"), ("g", "d/up"), ("d/k", "ld/k"), ("f.over", "g"), ("empty", "d/../empty")][pick(6)];
            match pick(4) {
                0 => w.text(&format!("a: <{} \"{}\"> b: <{} \"{}\">", t, p, u, q)),
                1 => { w.file("m", format!("b: <{} \"{}\">", u, q).as_bytes()); w.text(&format!("a: <{} \"{}\"> m: <\"m\"> c: a", t, p)) }
                2 => { w.file("d/m", format!("b: <{} \"../{}\">", u, q).as_bytes()); w.text(&format!("m: <\"d/m\"> a: <{} \"{}\">", t, p)) }
                _ => w.text(&format!("a: [<{} \"{}\"> <{} \"{}\">]", t, p, u, q)),
            }
        }
        // graphs: three files of up to two includes each
        2 => {
            let n = ["f0", "f1", "f2"];
            for i in 0..3 {
                let mut s = String::new();
                for (k, x) in ["x", "y"].iter().enumerate() {
                    if i == 2 && k == 1 && more == 0 { continue; }
                    let t = pick(if k == 0 { 4 } else { 5 });
                    if t < 3 { s.push_str(&format!("{}: <\"{}\">\n", x, n[t])); }
                    if t == 4 { s.push_str(&format!("{}: <Str \"{}\">\n", x, n[(i + 1) % 3])); }
                }
                w.file(n[i], s.as_bytes());
            }
            if pick(2) == 0 { w.top("f0") } else { w.text("a: <\"f0\"> b: <\"f1\">") }
        }
        // relative to the including file, whatever its own path is written like
        3 => {
            tree(&mut w);
            w.file("top.over", b"h: <\"d/h.over\"> f: <\"f.over\">");
            w.file("d/top.over", b"h: <\"h.over\"> f: <\"../f.over\">");
            w.link("d/sl", "../top.over");
            let p = ["top.over", "./top.over", "d/../top.over", "d/top.over", "ld/top.over", "d/sl", "ld/sl", "d/./top.over", "none", "d", ""][pick(11)];
            let p = if pick(2) == 1 && !p.is_empty() { w.abs(p) } else { p.to_string() };
            w.top(&p);
        }
        // errors inside an included file
        4 => {
            let t = TOK[pick(5)];
            let c: String = fill(["§2a", "x: 1\n§2a", "\"é\n\"§2a\n", "x: [1\n2]\n y: §a"][more as usize]).into_iter().collect();
            w.dir("d");
            w.file("d/bad", c.as_bytes());
            let d = format!("z: 1\na: <{} \"d/bad\"> ", t);
            if pick(2) == 0 { w.text(&d) } else { w.file("top", d.as_bytes()); w.top("top") }
        }
        // names stay inside their file
        5 => {
            let c: String = fill("@g: 1 y: 2 z: §vg").into_iter().collect();
            let d: String = fill("@§i: 5 y: 7 a: <\"in\"> z: §2v").into_iter().collect();
            w.file("in", c.as_bytes());
            w.text(&d);
        }
        // includes as parts of values
        6 => {
            tree(&mut w);
            w.file("s", b"te\"x\\t");
            let d = ["a: <Str \"s\">+\"x\"", "a: \"x\"+<Str \"s\">", "a: [0]+<Arr \"g\">", "a: <Arr \"g\">+<Arr \"g\">", "a: <Arr \"d/k\"> b: a.1.0", "a: <\"f.over\"> b: a.y.0 c: a.x", "a: { ^: <\"f.over\"> z: 1 } b: a.x", "^: <\"f.over\"> k: 1",
                "a: <Tup \"g\">+(1)", "p: \"f.over\" a: <p>", "@p: \"f.over\" a: <Str @p>", "p: \"f.\" a: <p+\"over\">", "a: <<Str \"pp\">>", "a: -<Arr \"g\">", "a: <\"f.over\">-1", "a: <1>", "a: <[]>", "a: <Str 1>", "a: <Obj Obj>", "a: <\"f.over\" \"g\">", "a: <\"f.over\"]", "a: <\"f.over\"", "a: <", "a: <>", "a: <Arr>", "a: <\"f.over\">b: 1", "a: <# c\n\"f.over\"# c\n>", "a: <Str\n#\n\"s\" >", "a: (<Str \"s\">)", "a: [<\"f.over\">]", "a: {b: <\"f.over\">}", "a: <Str\"s\">", "a: <x.y>", "x: {y: \"s\"} a: <Str x.y>"][pick(34)];
            w.file("pp", b"f.over");
            w.text(d);
        }
        // symbolic path characters
        7 => {
            tree(&mut w);
            let mut p = String::new();
            for _ in 0..more { p.push(crate::docs::among(b"./dgl")); }
            w.text(&format!("a: <{} \"{}\">", TOK[pick(5)], p));
        }
        // a file holds exactly what the same text means
        8 => {
            let c: Vec<char> = fill(["§2a", "a: §2a", "a: [§2t", "a: \"§2q\"", "§ua: 1§u", "§U", "a: \"\r\n§u§q\" # \r\n§ub: 1\r\n"][more as usize]);
            let s: String = c.iter().collect();
            w.file("x", s.as_bytes());
            let (p, q) = (Obj::from_file("x"), Obj::from_str(&s));
            note_base(&p, &w.base);
            match (&p, &q) {
                (Ok(a), Ok(b)) => sym::check(crate::docs::deep_obj(a, b), 71),
                (Err(a), Err(b)) => { let (a, b) = (a.to_string(), b.to_string()); sym::check(a.starts_with("x:") && a.ends_with(&b), 72); }
                _ => sym::check(false, 73),
            }
            // included as an Obj it is the same again
            match (&p, Obj::from_str("i: <\"x\"> j: <Obj \"x\">")) {
                (Ok(a), Ok(b)) => sym::check(crate::docs::deep_obj(a, &b.get_obj("i").unwrap()) && b.get_obj("i") == b.get_obj("j"), 74),
                (Err(_), Err(_)) => (),
                _ => sym::check(false, 75),
            }
        }
        // verbatim text
        9 => {
            let mut s: Vec<u8> = vec![];
            for _ in 0..more & 15 { let b = sym::u8(); sym::assume(b < 128); s.push(b); }
            if more >> 4 & 1 == 1 { let mut t = String::new(); t.push(crate::docs::hole('u')); t.push_str("x"); t.push(crate::docs::hole('u')); s.extend(t.as_bytes()); }
            if more >> 5 & 1 == 1 { s.extend("line é\r\n".repeat(40).as_bytes()); }
            if pick(2) == 0 { s.extend("é\r\n\0".as_bytes()); }
            if more >> 4 & 1 == 1 && pick(2) == 0 { s.extend(" \n\n".as_bytes()); }
            w.file("x", &s);
            match Obj::from_str("a: <Str \"x\">") { Ok(o) => sym::check(o.get_str("a").unwrap().as_bytes() == &s[..], 76), Err(_) => sym::check(false, 77) }
        }
        // graphs over files of every kind: what they hold, and includes of each other in between
        11 => {
            let n = ["f0", "f1", "f2"];
            w.file("t", b"1 2");
            w.file("o", b"k: 1");
            let kind: Vec<usize> = (0..3).map(|_| pick(3)).collect();
            for i in 0..3 {
                let mut s = String::new();
                for k in 0..if i == 2 && more == 0 { 1 } else { 2 } {
                    let t = if i == 2 && more == 0 { pick(4) } else { pick(7) };
                    let inc = match t { 0 => continue, 1..=3 => format!("<{} \"{}\">", ["Obj", "Arr", "Tup"][kind[t - 1]], n[t - 1]), 4 => String::from("<Tup \"t\">"), 5 => String::from("<\"o\">"), _ => format!("<Str \"{}\">", n[(i + 1) % 3]) };
                    if kind[i] == 0 { s.push_str(["x: ", "y: "][k]); } else if k == 1 && kind[i] == 1 { continue; }
                    s.push_str(&inc);
                    s.push('\n');
                }
                w.file(n[i], s.as_bytes());
            }
            w.text(&format!("a: <{} \"f0\">", ["Obj", "Arr", "Tup"][kind[0]]))
        }
        // one parse after another, with the files changed in between: nothing is remembered
        12 => {
            let body = ["x: 1", "x: 7", "x: [2]", "1 2", "x: ]", "x: <\"f\">", "x: <\"g\">", "", "x: <Str \"f\">"];
            let last = body.len() - (more == 0) as usize;
            let (a, g) = (body[pick(last)], ["x: 1", "x: <\"f\">"][pick(2)]);
            w.file("g", g.as_bytes());
            w.file("f", a.as_bytes());
            let doc = |w: &World, k: usize| { let t = ["a: <\"f\">", "a: <Tup \"f\">", "a: <Str \"f\">", "a: <\"g\"> b: <\"f\">", ""][k]; if t.is_empty() { w.abs("f") } else { t.into() } };
            let k = pick(5);
            let d = doc(&w, k);
            let (kept, m) = if k == 4 { (Obj::from_file(&d), spec::parse_file(&d, &w.fs, &w.base)) } else { (Obj::from_str(&d), spec::parse_str(&d.chars().collect::<Vec<_>>(), &w.fs, &w.base)) };
            note_base(&kept, &w.base);
            match pick(3) {
                0 => { let b = body[pick(last)]; w.refile("f", b.as_bytes()); }
                1 => w.refile("g", b"x: <Str \"f\">"),
                _ => (),
            }
            let k = pick(5);
            let d = doc(&w, k);
            if k == 4 { w.top(&d) } else { w.text(&d) }
            compare(&m, &kept, w.asp);
            if let (Ok(a), Ok(b)) = (&kept, if k == 4 { Obj::from_file(&d) } else { Obj::from_str(&d) }) { sym::check(crate::docs::apart(a, &b), 15); }
        }
        // the same after a failure that is gone
        13 => {
            tree(&mut w);
            let d = ["a: <\"f.over\"> b: <Arr \"g\">", "a: <\"d/h.over\">", "a: <Str \"g\">"][pick(3)];
            sym::fs_faults([4 | 1, 64, 128, 4 | 64 | 128][pick(4)], 1 + more);
            let r = Obj::from_str(d);
            sym::fs_faults(0, 0);
            note_base(&r, &w.base);
            w.text(d);
            w.top("d/h.over");
        }
        // what parses of files leave behind
        14 => {
            tree(&mut w);
            w.file("e", b"x: ]");
            w.file("c", b"x: <\"c\">");
            let (t, p) = (TOK[pick(5)], ["f.over", "g", "d/h.over", "e", "c", "none", "d", "empty"][pick(8)]);
            let f = pick([1, 2, 4][more as usize]);
            crate::docs::settled(|i| {
                sym::fs_faults([0, 4, 64, 128][f], if f == 0 { 0 } else { 1 });
                let r = Obj::from_str(&format!("z{}: 1 a: <{} \"{}\"> b: <{} \"./{}\">", i, t, p, t, p));
                let q = Obj::from_file(p);
                sym::fs_faults(0, 0);
                if let Ok(o) = &r { let _ = o.write_to_file(&format!("out{}", i)).is_ok(); let _ = o.write_to_file("d").is_err(); }
                drop((r, q));
                sym::check(sym::fs_open_fds() == 0, 70);
            });
        }
        // what may stand around, before and after an include of a file that is there
        15 => {
            w.file("s", b"1 # t");
            w.file("o", b"k: 1");
            let c: String = fill(["a: <Str \"s\"§3a", "a: {b: <Tup \"s\"§4B", "a: [<Arr \"s\"§4B", "a: (1 <\"o\"§4B", "a: <§aTup§a\"s\"§a", "a: <Str \"s\">§2a\"s\"> ", "a: <Arr \"s\">§2a", "a: <\"o\">§2a1", "a: <Str <Str \"s\"§2a>", "a: <§2wTup§2w\"s\"§2w>§2w", "a: <\"§2uo\">§u"][more as usize]).into_iter().collect();
            w.text(&c);
        }
        // graphs over directories and links, where a file is named in many ways
        16 => {
            w.dir("d");
            w.link("ld", "d");
            w.link("l", "f0");
            w.link("d/up", "..");
            let pre = ["", "x: <\"e\"> "][if more == 0 { 0 } else { pick(2) }];
            w.file("e", b"k: 1");
            w.file("d/e", b"k: 2");
            let kind = ["", "Obj "][pick(2)];
            let body = |p: &str| if p.is_empty() { String::from("k: 1") } else { format!("{}y: <{}\"{}\">", pre, kind, p) };
            let a = body(["d/f1", "ld/f1", "d/../f0", "l", "./f0", "ld/f2", "d/up/d/f1"][pick(7)]);
            let b = body(["../f0", "f2", "../l", "../ld/f2", "./f1", "up/f0", ""][pick(7)]);
            let c = body(["", "../f0", "f1", "../ld/f1", "up/l", "../d/f2"][pick(6)]);
            w.file("f0", a.as_bytes());
            w.file("d/f1", b.as_bytes());
            w.file("d/f2", c.as_bytes());
            match pick(6) {
                0 => w.top("f0"),
                1 => w.top("./l"),
                2 => { let p = w.abs("d/../f0"); w.top(&p) }
                3 => w.top("ld/f1"),
                4 => w.text("a: <\"f0\"> b: <\"l\"> c: <\"d/up/f0\">"),
                _ => w.text("a: <\"ld/f1\"> b: <\"d/f1\"> c: <\"d/f2\">"),
            }
        }
        // nesting inside a file: openers of symbolic kinds up to about the limit
        17 => {
            const OPEN: [&str; 6] = ["[", "(", "{k: ", "<", "<Str <", "(1-"];
            w.file("s", b"1");
            let (a, last) = (OPEN[pick(4)], pick(6));
            let n = 62 + pick(4);
            let mut t = a.repeat(n - 1);
            t.push_str(OPEN[last]);
            t.push_str(["\"s\"", "x", "1", "]"][pick(4)]);
            let how = pick(4);
            w.file("n", if how == 0 || how == 3 { format!("k: {}", t) } else { t }.as_bytes());
            match how { 0 => w.top("n"), 1 => w.text("a: <Arr \"n\">"), 2 => w.text("a: [<Tup \"n\">]"), _ => w.text("\na: { b: <\"n\">") }
        }
        // sequences in files, of which the type is settled late or not at all
        19 => {
            let s: String = fill(["§E §E", "§F §F §F", "(§F §F) (§F [])", "[§F] [§F §F] []", "\n[[§F] []] [[] [§F]]\n", "§F §F+[§F]"][pick(6)]).into_iter().collect();
            w.file("n", s.as_bytes());
            w.asp |= crate::docs::TYPES;
            w.text(["a: <Arr \"n\">", "a: <Tup \"n\">", "a: [<Arr \"n\"> [\"\"]]"][pick(3)]);
        }
        // after many parses, of which most failed deep inside, the next one is what it would have been at first
        20 => {
            tree(&mut w);
            const OPEN: [&str; 6] = ["[", "(", "{k: ", "<", "<Str <", "[({k: "];
            w.file("c", format!("x: {}", "{k: [".repeat(20)).as_bytes());
            w.file("b", b"y: <\"c\">");
            let how = pick(OPEN.len() + 6);
            let bad = match how {
                0 => format!("a: {}]", OPEN[pick(4)].repeat(60)),
                k if k < OPEN.len() + 1 => format!("a: {}", OPEN[k - 1].repeat(if k == 6 { 20 } else { 60 })),
                7 => String::from("@g: 1 @h: {x: @g} a: <\"b\">"),
                8 => String::from("a: {p: <\"f.over\"> b: <Arr \"g\"> ^: 1}"),
                9 => format!("{}a: \"", "# \u{e9}\n".repeat(30)),
                10 => format!("a: {}1{}", "{k: ".repeat(60), "}".repeat(60)),
                _ => String::from("a: <\"d/h.over\"> b: <Str \"g\">"),
            };
            // (one that goes deeper than the failing one in between)
            let fine = format!("a: {}1{}", OPEN[2].repeat(62), "}".repeat(62));
            for _ in 0..more { let _ = Obj::from_str(&bad); sym::check(Obj::from_str(&fine).is_ok(), 78); }
            match pick(3) {
                0 => w.text("@g: 1 a: {b: [(@g) (2)]} b: <Str \"g\"> c: <\"d/h.over\">\nd: <\"f.over\"> e: <Tup \"g\">"),
                1 => w.text(&format!("a: {}1{} b: ]", OPEN[2].repeat(62), "}".repeat(62))),
                _ => w.top("d/h.over"),
            }
        }
        // two files of similar names
        21 => {
            const NEAR: [&str; 16] = ["e", "E", "e.over", "E.over", "e.OVER", ".e", "e~", "e ", " e", "e1", "ee", "\u{e9}", "e\u{301}", "d/e", "D/e", "d/E"];
            w.dir("d");
            w.dir("D");
            let i = sym::conc(pick(16) as u64) as usize;
            let j = (i + 1 + sym::conc(pick(15) as u64) as usize) % 16;
            let t = ["", "Str ", "Tup "][pick(3)];
            w.file(NEAR[i], ["k: 1", "1"][(t == "Tup ") as usize].as_bytes());
            if pick(4) != 0 { w.file(NEAR[j], ["k: 2", "2"][(t == "Tup ") as usize].as_bytes()); }
            w.text(&format!("a: <{}\"{}\"> b: <{}\"{}\"> c: <{}\"./{}\">", t, NEAR[i], t, NEAR[j], t, NEAR[i]));
        }
        // any character in a path, with and without a file of precisely that name
        22 => {
            let (at, c) = (pick(8), sym::conc(crate::docs::hole('a') as u64) as u8 as char);
            let c = if pick(16) == 0 { crate::docs::hole('u') } else { c };
            let p = ["d\u{0}h", "\u{0}d/h", "d/h\u{0}", "d/\u{0}h", "\u{0}/h", "d/.\u{0}/h", "./\u{0}h", "h\u{0}"][at].replace('\0', &c.to_string());
            w.dir("d");
            w.file("d/h", b"k: 1");
            w.file("dh", b"k: 2");
            w.file("h", b"k: 3");
            if c != '/' && c != '.' && c != '\0' && pick(2) == 0 {
                if at == 4 { w.dir(&c.to_string()); }
                if at == 1 { w.dir(&format!("{}d", c)); }
                if at == 5 { w.dir(&format!("d/.{}", c)); }
                w.file(p.trim_start_matches("./"), b"k: 4");
            }
            let esc = p.replace('\\', "\\\\").replace('"', "\\\"");
            w.text(&format!("a: <{}\"{}\"> b: <Str \"dh\">", ["", "Str "][pick(2)], esc));
        }
        // long files included
        23 => {
            let n = more as usize;
            let end = crate::docs::hole('q');
            let (t, s) = match pick(4) {
                0 => ("Str", format!("{}{}", "x".repeat(n), end)),
                1 => ("Tup", format!("\"{}{}\" 1", "x".repeat(n), end)),
                2 => ("Arr", format!("{}\"{}\"", "\n".repeat(n), end)),
                _ => ("Obj", format!("# {}\nk: \"{}\"", "\u{e9}".repeat(n / 2), end)),
            };
            w.file("n", s.as_bytes());
            w.text(&format!("a: <{} \"n\">", t));
        }
        // several tokens and paths in one include
        24 => {
            const P: [&str; 12] = ["", "Str ", "Arr ", "Tup ", "Obj ", "\"n\" ", "s ", "null ", "1 ", "Str", "@g ", "<Str \"n\"> "];
            w.file("n", b"#k");
            let last = [P[5], P[6], "\"n\"", "\"n", P[4]][pick(5)];
            w.text(&format!("s: \"n\" @g: \"n\" a: <{}{}{}{}>", P[pick(12)], P[pick(12)], [P[0], P[1], P[3]][pick(3)], last));
        }
        // links and directories that lead elsewhere later
        25 => {
            w.file("x", b"1");
            w.file("y", b"2");
            w.file("d/k", b"3");
            w.dir("d");
            w.file("e/k", b"4");
            w.dir("e");
            w.file("d/o", b"a: <Tup \"../l\"> b: <Tup \"k\">");
            w.file("e/o", b"a: <Tup \"../m/k\"> b: <Tup \"k\">");
            w.link("l", "x");
            w.link("m", "d");
            for i in 0..2 {
                let t = ["Tup", "Str"][pick(2)];
                match pick(5) {
                    0 => w.text(&format!("a: <{} \"l\"> b: <{} \"x\"> c: <{} \"y\">", t, t, t)),
                    1 => w.text(&format!("a: <{} \"m/k\"> b: <{} \"d/k\"> c: <{} \"e/k\">", t, t, t)),
                    2 => w.text("a: <\"m/o\"> b: <\"d/o\"> c: <\"e/o\">"),
                    3 => w.top("m/o"),
                    _ => w.text(&format!("a: <{} \"y\"> b: <{} \"m/k\"> c: <{} \"l\">", t, t, t)),
                }
                if i == 0 { match pick(4) { 0 => w.link("l", "y"), 1 => w.link("m", "e"), 2 => { w.link("l", "m/k"); w.link("m", "e") } _ => w.refile("x", b"9") } }
            }
        }
        // long paths
        26 => {
            let n = more as usize;
            w.dir("d");
            w.file("f", b"k: 1");
            w.file("d/f", b"k: 2");
            w.file("g", b"k: <\"f\">");
            let p = format!("{}{}", ["./", "d/../", "/", ".//"][pick(4)].repeat(n), ["f", "d/f", "g", "none", "f/", "d", "../d/f"][pick(7)]);
            let t = TOK[pick(5)];
            let p = if pick(2) == 0 { w.abs(&p) } else { p };
            match pick(3) {
                0 => w.text(&format!("a: <{} \"{}\"> b: <\"f\">", t, p)),
                1 => { w.file("h", format!("a: <{} \"{}\"> b: <{} \"f\">", t, p, t).as_bytes()); w.text("x: <\"h\"> y: ]") }
                _ => w.top(&p),
            }
        }
        // many files, each included once more under another name: it is the same value, or with another type it is not
        18 => {
            let n = more as usize;
            let mut t = String::new();
            for i in 0..n { w.file(&format!("f{}", i), format!("{} []", i).as_bytes()); t.push_str(&format!("a{}: <Tup \"f{}\">\n", i, i)); }
            let k = [0, 1, n / 2, n - 2, n - 1][pick(5)];
            t.push_str(&format!("b: <{} \"./f{}\"> c: a{} d: [<Tup \"f{}\">]", ["Tup", "Str"][pick(2)], k, k, k));
            w.text(&t);
        }
        // long chains of files, with a symbolic link back at the end
        _ => {
            let n = more as usize;
            let back = pick(n + 2);
            for i in 0..n { w.file(&format!("c{}", i), if i + 1 < n { format!("n: <\"c{}\">", i + 1) } else if back < n { format!("n: <\"c{}\">", back) } else if back == n { String::from("n: 1") } else { String::from("n: <Str \"c0\">") }.as_bytes()); }
            w.top("c0");
        }
    }
}

/// I/O with faults. param: scenario | fault mask << 8 | fault budget << 24 | size << 32
pub fn h_io(param: u64) {
    let (mask, budget, n) = (param >> 8 & 0xffff, param >> 24 & 0xff, (param >> 32 & 0xff) as usize);
    let mut w = World::new();
    match param & 0xff {
        // reading symbolic bytes
        0 => {
            let mut d = b"a: \"".to_vec();
            // (with three bytes and more they stay inside the Str: what an error says of an arbitrary character is too hard for the solver)
            for _ in 0..n { let b = sym::u8(); sym::assume(n < 3 || (b != b'"' && b != b'\\')); d.push(b); }
            if n == 1 { d.extend("é\u{1F600}".as_bytes()); }
            d.extend(b"\"\n");
            w.file("x", &d);
            sym::fs_faults(mask, budget);
            let r = Obj::from_file("x");
            sym::fs_faults(0, 0);
            // what cannot succeed, and what may fail: the size of a file is only a hint
            let (hard, may) = (sym::fs_hard() & 0xffff > 0, sym::fs_hard() > 0);
            match (std::str::from_utf8(&d), r) {
                (Ok(s), Ok(o)) => { sym::reach(1); sym::check(!hard, 80); match Obj::from_str(s) { Ok(p) => sym::check(crate::docs::deep_obj(&o, &p), 81), Err(_) => sym::check(false, 81) } }
                (Ok(s), Err(_)) => { sym::reach(2); sym::check(may || Obj::from_str(s).is_err(), 82); }
                (Err(_), Ok(_)) => sym::check(false, 83),
                (Err(_), Err(_)) => sym::reach(3),
            }
        }
        // writing
        1 => {
            let mut s = String::new();
            for _ in 0..n { let b = sym::u8(); sym::assume(b < 128); s.push(b as char); }
            s.push('é');
            let o = obj! { "a" => s.as_str(), "b" => 1 };
            let want = o.write_to_string();
            let old = pick(4);
            if old == 3 { w.file("x", &vec![b'z'; want.len()]); }
            if old == 1 { w.file("x", &vec![b'z'; 200]); }
            if old == 2 { w.file("x", b""); }
            sym::fs_faults(mask, budget);
            let r = o.write_to_file("x");
            sym::fs_faults(0, 0);
            // what cannot succeed, and what may fail: the size of a file is only a hint
            let (hard, may) = (sym::fs_hard() & 0xffff > 0, sym::fs_hard() > 0);
            match r {
                Ok(()) => { sym::reach(1); sym::check(!hard, 84); sym::check(sym::fs_get(&w.abs("x")).map_or(false, |d| d == want.as_bytes()), 85); match Obj::from_file("x") { Ok(p) => sym::check(p == o, 86), Err(_) => sym::check(false, 86) } }
                Err(_) => { sym::reach(2); sym::check(may, 87); }
            }
        }
        // includes under faults
        2 => {
            w.file("t", b"a: <Str \"f\"> b: <\"d/g\"> c: <Arr \"h\">");
            w.file("f", b"text");
            w.file("h", b"1 2");
            w.dir("d");
            w.file("d/g", b"x: <\"../k\">");
            w.file("k", b"y: 1");
            sym::fs_faults(mask, budget);
            let r = if n == 0 { Obj::from_file("t") } else { Obj::from_str("a: <Str \"f\"> b: <\"d/g\"> c: <Arr \"h\">") };
            sym::fs_faults(0, 0);
            // what cannot succeed, and what may fail: the size of a file is only a hint
            let (hard, may) = (sym::fs_hard() & 0xffff > 0, sym::fs_hard() > 0);
            match r {
                Ok(o) => { sym::reach(1); sym::check(!hard, 88); compare(&spec::parse_file("t", &w.fs, &w.base), &Ok(o), DIFF); }
                Err(x) => {
                    sym::reach(2);
                    sym::check(may, 89);
                    // a path that cannot be resolved is reported like one that is not there
                    if n == 0 && mask == 128 {
                        let mut told = false;
                        for gone in ["f", "d/g", "k", "h"] {
                            let a = w.abs(gone);
                            let fs = Fs { ents: w.fs.ents.iter().filter(|e| e.0 != a).cloned().collect() };
                            if let Err(e) = spec::parse_file("t", &fs, &w.base) { let t = x.to_string(); told |= spec::names(&e, &t) && spec::says(&e, &t); }
                        }
                        sym::check(told, 96);
                    }
                }
            }
        }
        // writing where that is impossible
        3 => {
            w.dir("d");
            w.file("f", b"1");
            w.link("l", "f");
            let p = ["d", "none/x", "f/x", "", "d/x", "l"][pick(6)];
            let o = obj! { "a" => 1 };
            let r = o.write_to_file(p);
            let good = p == "d/x" || p == "l";
            sym::check(r.is_ok() == good, 90);
            if good { sym::check(sym::fs_get(&w.abs(if p == "l" { "f" } else { p })).map_or(false, |d| d == b"a: 1\n"), 91); }
            sym::check(Obj::from_file(["d", "none", "f/x", ""][pick(4)]).is_err(), 92);
        }
        // included bytes that are not UTF-8
        _ => {
            let mut d = b"\"".to_vec();
            for _ in 0..n { d.push(sym::u8()); }
            d.extend(b"\"");
            w.file("x", &d);
            let ok = std::str::from_utf8(&d).is_ok();
            match Obj::from_str("a: <Str \"x\">") { Ok(o) => { sym::check(ok, 93); sym::check(o.get_str("a").unwrap().as_bytes() == &d[..], 94); } Err(_) => sym::check(!ok, 95) }
        }
    }
    sym::check(sym::fs_open_fds() == 0, 70);
}

/// A text of a template, read from a file. param: template | aspects << 16
pub fn h_file_doc(param: u64) {
    let mut w = World::new();
    w.asp = param >> 16;
    let s: String = fill(crate::templates::T[(param & 0xffff) as usize].1).into_iter().collect();
    w.file("t.over", s.as_bytes());
    w.top("t.over");
}

/// Texts with long parts that are concrete, and a symbolic end. param: kind | size << 8 | read from a file << 32
pub fn h_big(param: u64) {
    let n = (param >> 8 & 0xff_ffff) as usize;
    let mut w = World::new();
    w.asp = param >> 40;
    let each = |f: &dyn Fn(usize) -> String| (0..n).map(|i| f(i)).collect::<String>();
    let t = match param & 0xff {
        0 => format!("{}a: 1§a", "\n".repeat(n)),
        1 => format!("{}a: 1§a", " ".repeat(n)),
        2 => format!("#{}§a\n b: 1§a", "x".repeat(n)),
        3 => format!("a: \"{}§q\" b: 1§a", "x".repeat(n)),
        4 => format!("a: \"{}§q\" b: [1]§a", "é\u{1F600}x".repeat(n)),
        5 => format!("{}: 1 b: {}§e", "x".repeat(n), "x".repeat(n)),
        6 => format!("@{}: 1 b: @{}§e", "é".repeat(n), "é".repeat(n)),
        7 => format!("l: [{}§F] x: l.{} y: l.{}", "1 ".repeat(n), n - 1, n + pick(2)),
        8 => format!("l: ({}§F) x: l.{} y: l.{}", "1 ".repeat(n), n - 1, n + pick(2)),
        9 => format!("l: [({}§F) ({}§F)]", "1 ".repeat(n), "1 ".repeat(n)),
        10 => format!("{}§i: 1 f{}: 2", each(&|i| format!("f{}: {}\n", i, i)), [0, 1, n - 1, n][pick(4)]),
        11 => format!("{}@§i: 1 x: @f{}", each(&|i| format!("@f{}: {}\n", i, i)), [0, 1, n - 1, n][pick(4)]),
        12 => format!("@p: {{f: 0}} {}x: @p{}.f{}", each(&|i| format!("@p{}: {{^: @p{} f{}: {}}}\n", i, if i == 0 { String::new() } else { (i - 1).to_string() }, i, i)), n - 1, ["", "0", "1", "z"][pick(4)]),
        13 => format!("a: 1{}§a1 b: 0{}§o2§o3", "+1".repeat(n), "+1-2".repeat(n)),
        14 => format!("a: 7{}{} b: -{}", "9".repeat(n), ["", "0", "_1", ".5", ".", "x"][pick(6)], "12".repeat(n)),
        15 => format!("a: 1.{}{}", "3".repeat(n), ["", "0", "_1", ".", "00"][pick(5)]),
        16 => format!("a: \"\"{}+\"§q\"", "+\"x\"".repeat(n)),
        17 => format!("a: []{}+[§F]", "+[[]]".repeat(n)),
        18 => format!("a: 1{}*§d b: 3{}", "*2".repeat(n), "/2".repeat(n)),
        19 => format!("a: {}§a", "-".repeat(n)),
        20 => format!("{}a: ]", each(&|i| format!("f{}: \"\n\" # {}\n", i, i))),
        25 => format!("@x: [1] @o: {{}} y: [{}] z: @x p: (@x (@x @x §v)) q: {{^: @o k: §d}} r: [{}]", "@x ".repeat(n), "@o ".repeat(n)),
        23 => format!("o: {{{}{}: 9 ^: {{{}zz: 1}}}} x: o.f0001", each(&|i| format!("f{:04}: {} ", i, i)), (b'a' + pick(26) as u8) as char, each(&|i| format!("g{:04}: {} ", n - i, i))),
        24 => format!("{}: 9 {}{}: 8", (b'a' + pick(26) as u8) as char, each(&|i| format!("f{:04}: {} ", i, i)), (b'b' + pick(25) as u8) as char),
        22 => format!("l: [{}§F] a: l+l b: a.{} c: a.{} s: \"{}§q\" t: s+s m: [l] n: m+m", "1 ".repeat(n), n, 2 * n, "x".repeat(n)),
        _ => format!("l: [{}{{x: §d}}] y: l.{} z: y.x", each(&|i| format!("{{x: {}}} ", i)), [0, 1, n - 1, n, n + 1][pick(5)]),
    };
    let s: String = fill(&t).into_iter().collect();
    if param >> 32 & 1 == 1 {
        w.file("t.over", s.as_bytes());
        w.top("t.over");
        // what is written over a longer file is all there is
        if let Ok(o) = Obj::from_file("t.over") {
            let want = o.write_to_string();
            w.file("out", &vec![b'z'; want.len() + 1]);
            sym::check(o.write_to_file("out").is_ok(), 97);
            sym::check(sym::fs_get(&w.abs("out")).map_or(false, |d| d == want.as_bytes()), 97);
            sym::check(Obj::from_file("out").map_or(false, |p| crate::docs::deep_obj(&p, &o)), 98);
        }
    } else {
        w.text(&s);
        if w.asp & crate::docs::RT != 0 { if let Ok(o) = Obj::from_str(&s) { crate::docs::roundtrip(&o); } }
    }
}
