//! Loading, editing and saving programs through the library.
use crate::oracle::*;
use crate::{near, words, guard, hex, Cx, Rng};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::path::{Path, PathBuf};
use ti_tools::calculator::models::{Model, ModelDetails};
use ti_tools::calculator::program::Program;
use ti_tools::calculator::tokens::{load_tokens, OsVersion};

pub enum Got {
    Ok(Program),
    Err(String),
    Panic(String),
}
impl Got {
    pub fn text(&self) -> String {
        match self {
            Got::Ok(_) => "a program".into(),
            Got::Err(e) => format!("error: {}", short(e)),
            Got::Panic(e) => format!("panic: {}", e),
        }
    }
}
fn got<E: std::fmt::Debug>(r: Result<Result<Program, E>, String>) -> Got {
    match r {
        Ok(Ok(p)) => Got::Ok(p),
        Ok(Err(e)) => Got::Err(format!("{:?}", e)),
        Err(p) => Got::Panic(p),
    }
}
pub fn load(cx: &Cx, ext: &str, content: &[u8], d: DM) -> Got {
    let p = cx.tdir().join(format!("in.{}", ext));
    std::fs::write(&p, content).unwrap();
    cx.busy(format!("loading a {} file of {} bytes: {}", ext, content.len(), hex(&content[..content.len().min(400)])));
    let r = load_path(&p, ext, d, EM::Smart);
    cx.idle();
    r
}
pub fn load_path(p: &Path, ext: &str, d: DM, e: EM) -> Got {
    match ext {
        "txt" => got(guard(|| Program::load_from_txt(p.to_path_buf(), &e.real()))),
        "json" => got(guard(|| Program::load_from_json(p.to_path_buf()))),
        _ => got(guard(|| Program::load_from_8xp(p.to_path_buf(), d.real()))),
    }
}
pub fn load_txt(cx: &Cx, content: &[u8], e: EM) -> Got {
    let p = cx.tdir().join("in.txt");
    std::fs::write(&p, content).unwrap();
    cx.busy(format!("loading text of {} bytes in mode {:?}: {}", content.len(), e, short(&String::from_utf8_lossy(content))));
    let r = load_path(&p, "txt", DM::Accessible, e);
    cx.idle();
    r
}
/// Saves to a fresh path and returns what was written.
pub fn save(cx: &Cx, p: &Program, ext: &str) -> Result<Vec<u8>, String> {
    let f = cx.tdir().join(format!("saved.{}", ext));
    let _ = std::fs::remove_file(&f);
    cx.busy(format!("saving as {}", ext));
    let r = guard(|| p.save_to(&f));
    cx.idle();
    match r {
        Ok(Ok(())) => std::fs::read(&f).map_err(|e| format!("reported success but {}", e)),
        Ok(Err(e)) => Err(format!("error: {:?}", e)),
        Err(p) => Err(format!("panic: {}", p)),
    }
}

/// the layout of a calculator file
pub struct Spec {
    pub sig: Vec<u8>,
    pub extra: [u8; 2],
    pub id: u8,
    pub comment: [u8; 42],
    pub hlen: Option<u16>,
    pub flag: u8,
    pub unknown: u8,
    pub len1: Option<u16>,
    pub ftype: u8,
    pub name: [u8; 8],
    pub version: u8,
    pub dest: u8,
    pub len2: Option<u16>,
    pub len3: Option<u16>,
    pub body: Vec<u8>,
    pub sum: Option<u16>,
}
impl Spec {
    pub fn new(sig: &str, id: u8, body: Vec<u8>) -> Spec {
        let mut comment = [0; 42];
        comment[..5].copy_from_slice(b"Hello");
        Spec { sig: sig.as_bytes().to_vec(), extra: [0x1A, 0x0A], id, comment, hlen: None, flag: 0x0D, unknown: 0, len1: None, ftype: 5,
            name: *b"PROG\0\0\0\0", version: 0, dest: 0, len2: None, len3: None, body, sum: None }
    }
    pub fn bytes(&self, short: bool) -> Vec<u8> {
        let n = self.body.len();
        let ml = if short { 17 } else { 19 };
        let mut v = self.sig.clone();
        v.extend(self.extra);
        v.push(self.id);
        v.extend(self.comment);
        v.extend(self.hlen.unwrap_or((n + ml) as u16).to_le_bytes());
        let mut m = vec![if short && self.flag == 0x0D { 0x0B } else { self.flag }, self.unknown];
        m.extend(self.len1.unwrap_or((n + 2) as u16).to_le_bytes());
        m.push(self.ftype);
        m.extend(self.name);
        if !short {
            m.push(self.version);
            m.push(self.dest);
        }
        m.extend(self.len2.unwrap_or((n + 2) as u16).to_le_bytes());
        m.extend(self.len3.unwrap_or(n as u16).to_le_bytes());
        let s = self.sum.unwrap_or(sum16(&m, &self.body));
        v.extend(m);
        v.extend(&self.body);
        v.extend(s.to_le_bytes());
        v
    }
}
/// random bytes that decode on the model
pub fn good_body(cx: &Cx, r: &mut Rng, model: &str, tokens: usize) -> Vec<u8> {
    let keys: Vec<&Vec<u8>> = cx.o.tables[model].keys().collect();
    let mut b = vec![];
    for _ in 0..tokens {
        if let Some(t) = r.text() {
            // digits and capital letters are tokens of their own
            b.extend(t.bytes().map(|c| c.to_ascii_uppercase()).filter(|c| cx.o.tables[model].contains_key(&vec![*c])));
        } else if let Some(x) = r.word() {
            let k = if x < 256 { vec![x as u8] } else { (x as u16).to_be_bytes().to_vec() };
            if cx.o.tables[model].contains_key(&k) {
                b.extend(k);
            }
        } else {
            b.extend(*r.pick(&keys));
        }
    }
    b
}
/// a file that can be loaded; `clean`: with correct lengths and checksum
/// a zero-padded text with blanks, zeros or line ends before, inside or after it
fn padded(r: &mut Rng, f: &mut [u8], base: u8) {
    let odd = [b' ', b'\t', b'\n', b'\r', 0, 0xA0, 0x85, b'[', b'.', b'-', b'/', b'\\', b':'];
    let n = r.below(f.len() + 1);
    let mut v: Vec<u8> = (0..n).map(|_| base + r.below(26) as u8).collect();
    for at in 0..3 {
        if r.chance(2) {
            for _ in 0..1 + r.below(2) {
                let i = [0, v.len(), r.below(v.len() + 1)][at];
                v.insert(i, *r.pick(&odd));
            }
        }
    }
    v.resize(f.len(), 0);
    f.copy_from_slice(&v);
}
pub fn good_file(cx: &Cx, r: &mut Rng, short: bool, clean: bool) -> Vec<u8> {
    let h = r.pick(&HEADERS);
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => r.below(3000),
        _ => r.below(60),
    };
    let mut s = Spec::new(h.0, h.1, good_body(cx, r, h.2, n));
    if let Some(x) = r.word() {
        // exactly so many bytes in the body, or in the whole file
        let n = x as usize;
        let n = *r.pick(&[n, n.wrapping_sub(2), n.wrapping_sub(17), n.wrapping_sub(19), n.wrapping_sub(74), n.wrapping_sub(76)]);
        if n < 65517 && (n < 5000 || r.chance(8)) {
            let c = *r.pick(&[0x31, 0x41, 0x2B, 0x3F]);
            s.body = (0..n).map(|k| if k % 7 == 0 { 0x41 } else { c }).collect();
        }
    }
    if r.chance(8) && h.1 != 0 {
        s.sig = r.bytes(8);
    }
    for b in s.comment.iter_mut() {
        *b = match r.below(4) {
            0 => 0,
            1 => r.byte(),
            _ => b'a' + r.below(26) as u8,
        };
    }
    for b in s.name.iter_mut() {
        *b = match r.below(5) {
            0 => 0,
            1 => r.byte(),
            _ => b'A' + r.below(26) as u8,
        };
    }
    if r.chance(3) {
        padded(r, &mut s.comment[..], b'a');
    }
    if r.chance(3) {
        padded(r, &mut s.name[..], b'A');
    }
    if let Some(t) = r.text() {
        let t: Vec<u8> = t.chars().map(|c| c as u8).collect();
        if r.chance(2) {
            let n = t.len().min(8);
            s.name[..n].copy_from_slice(&t[..n]);
            if r.chance(2) {
                s.name[n..].fill(0);
            }
        } else {
            let n = t.len().min(42);
            let k = r.below(43 - n);
            s.comment[k..k + n].copy_from_slice(&t[..n]);
        }
    }
    s.ftype = *r.pick(&[5, 6, 0x17, 0x24]);
    s.dest = *r.pick(&[0, 0x80]);
    s.version = r.byte();
    if r.chance(2) {
        s.extra = [r.byte(), r.byte()];
        if !clean || !short {
            s.flag = r.byte();
            s.unknown = r.byte();
        }
    }
    if !clean {
        for f in [&mut s.hlen, &mut s.len1, &mut s.len2, &mut s.len3, &mut s.sum] {
            if r.chance(2) {
                *f = Some(match r.below(4) {
                    0 => *r.pick(&[0xFFFF, 0, 1, 0xFF00, 0x00FF, 0x8000, 0x7FFF, 0xFFFE]),
                    _ => r.short(),
                });
            }
        }
    }
    let mut bytes = s.bytes(short);
    if short && !clean && r.chance(3) {
        bytes[55] = *r.pick(&[0x0D, 0x0B, 0x0C, 0x00, 0xFF]);
    }
    bytes
}
pub fn detail(ext: &str, content: &[u8]) -> Value {
    json!({"file": format!("in.{}", ext), "bytes": hex(&content[..content.len().min(4000)]), "length": content.len()})
}
pub fn check_read(cx: &Cx, ext: &str, content: &[u8], d: DM, only: Option<&[&str]>) -> Option<Program> {
    let want = cx.o.read(content, ext, d);
    let g = load(cx, ext, content, d);
    match (&want, g) {
        (Some(w), Got::Ok(p)) => {
            let mut diff = flat(&p).diff(w);
            if let Some(o) = only {
                diff.retain(|x| o.iter().any(|f| x.starts_with(&format!("{}:", f))));
            }
            if !diff.is_empty() {
                cx.fail(format!("loading ({}, {:?}): {}", ext, d, diff.join("; ")), detail(ext, content));
            }
            Some(p)
        }
        (None, Got::Err(_)) => None,
        (_, g) => {
            let w = if want.is_some() { "a program" } else { "an error" };
            cx.fail(format!("loading ({}, {:?}) gives {} instead of {}", ext, d, g.text(), w), detail(ext, content));
            None
        }
    }
}

// ------------------------------------------------------------------ C01
const TEXT: [&str; 2] = ["text", "body"];
pub fn c01(cx: &Cx) {
    // every token of every table in every form, in one file
    cx.par(HEADERS.len() * 3, |i| {
        let h = HEADERS[i / 3];
        let d = DMS[i % 3];
        for rev in [false, true] {
            let mut keys: Vec<&Vec<u8>> = cx.o.tables[h.2].keys().collect();
            if rev {
                keys.reverse();
            }
            let body: Vec<u8> = keys.iter().flat_map(|k| k.iter().copied()).collect();
            let f = Spec::new(h.0, h.1, body).bytes(false);
            cx.case(&f);
            check_read(cx, "8xp", &f, d, Some(&TEXT));
        }
    });
    // every body of one byte, and of two bytes
    let one = HEADERS.len() * 3 * 256;
    cx.par(one, |i| {
        let h = HEADERS[i / 256 / 3];
        let f = Spec::new(h.0, h.1, vec![i as u8]).bytes(i % 5 == 0);
        cx.case(&f);
        check_read(cx, if i % 5 == 0 { "83p" } else { "8xp" }, &f, DMS[i / 256 % 3], Some(&TEXT));
    });
    cx.sample("every one-byte body, every token of every table, two-byte bodies, random bodies".into());
    // pairs: an assigned or unassigned lead byte before everything
    let configs = if cx.thorough { HEADERS.len() * 3 } else { 1 };
    for c in 0..configs {
        let h = HEADERS[(c + cx.seed as usize) % HEADERS.len()];
        let d = DMS[(c / HEADERS.len() + cx.seed as usize) % 3];
        let leads: Vec<u8> = (0..=255u8).filter(|b| !cx.o.tables[h.2].contains_key(&vec![*b])).collect();
        cx.par(leads.len() * 256, |i| {
            let f = Spec::new(h.0, h.1, vec![leads[i / 256], i as u8]).bytes(false);
            cx.case(&f);
            check_read(cx, "8xp", &f, d, Some(&TEXT));
        });
    }
    // random bodies: good ones, cut ones, damaged ones
    let n = if cx.thorough { 200_000 } else { 12_000 };
    cx.par(n, |i| {
        let mut r = Rng(cx.seed ^ (i as u64) << 20);
        let h = r.pick(&HEADERS);
        let d = *r.pick(&DMS);
        let k = r.below(if i % 50 == 0 { 20_000 } else { 40 });
        let mut b = good_body(cx, &mut r, h.2, k);
        b.truncate(65516);
        match r.below(4) {
            0 if !b.is_empty() => {
                let j = r.below(b.len());
                b.remove(j);
            }
            1 if !b.is_empty() => {
                let j = r.below(b.len());
                b[j] = r.byte();
            }
            2 => b.push(r.byte()),
            _ => {}
        }
        let short = r.chance(4);
        let f = Spec::new(h.0, h.1, b).bytes(short);
        cx.case(&f);
        check_read(cx, if short { "82p" } else { "8xp" }, &f, d, Some(&TEXT));
    });
    crate::wire::as_text(cx, false);
    crate::wire::mass(cx, "C01");
}

// ------------------------------------------------------------------ edits
#[derive(Clone, Debug)]
pub enum Edit {
    Rename(String),
    Comment(String),
    Lock,
    Unlock,
    Archive,
    Unarchive,
}
pub fn apply(p: &mut Program, e: &Edit) -> Result<bool, String> {
    guard(|| match e {
        Edit::Rename(n) => p.metadata.rename(n.clone()).is_ok(),
        Edit::Comment(c) => p.header.comment(c.clone()).is_ok(),
        Edit::Lock => {
            p.metadata.lock();
            true
        }
        Edit::Unlock => {
            p.metadata.unlock();
            true
        }
        Edit::Archive => {
            p.metadata.archive();
            true
        }
        Edit::Unarchive => {
            p.metadata.unarchive();
            true
        }
    })
}
pub fn apply_flat(f: &mut Flat, e: &Edit) -> bool {
    match e {
        Edit::Rename(n) => {
            if n.len() > 8 || !n.chars().all(|c| c.is_ascii_alphabetic()) {
                return false;
            }
            let n = n.to_ascii_uppercase();
            for i in 0..8 {
                f.metadata[5 + i] = *n.as_bytes().get(i).unwrap_or(&0);
            }
            f.name = n;
        }
        Edit::Comment(c) => {
            if c.len() > 42 {
                return false;
            }
            for i in 0..42 {
                f.header[11 + i] = *c.as_bytes().get(i).unwrap_or(&0);
            }
            f.comment = c.clone();
        }
        Edit::Lock | Edit::Unlock => {
            let l = matches!(e, Edit::Lock);
            f.metadata[4] = if l { 6 } else { 5 };
            f.file_type = if l { "Locked Program" } else { "Program" }.into();
        }
        Edit::Archive | Edit::Unarchive => {
            let l = matches!(e, Edit::Archive);
            f.metadata[14] = if l { 0x80 } else { 0 };
            f.destination = if l { "Archive" } else { "RAM" }.into();
        }
    }
    true
}
/// lengths of bodies around which something may change
fn sizes() -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, 2, 3, 10, 99, 100, 101, 127, 128, 129, 236, 237, 238, 253, 254, 255, 256, 257, 493, 511, 512, 513, 999, 1000, 1001, 1005, 1024, 2048, 4077, 4096, 8192, 9999, 10000, 16384, 20000, 24576, 32700, 32746, 32747, 32748, 32749, 32750];
    v.extend([32764, 32765, 32766, 32767, 32768, 40000, 49152, 50000, 60000, 65000, 65279, 65280, 65510, 65513, 65514, 65515, 65516]);
    v.extend(near(65516));
    v.sort();
    v.dedup();
    v
}
fn start(cx: &Cx, r: &mut Rng) -> (Program, Flat, Vec<u8>) {
    let mut refused = 0;
    loop {
        let k = r.below(3);
        let ext = ["8xp", "82p", "83p"][k];
        let clean = r.chance(2);
        let f = good_file(cx, r, k > 0, clean);
        let d = *r.pick(&DMS);
        match load(cx, ext, &f, d) {
            Got::Ok(p) => {
                if r.chance(6) {
                    // the program over a changed json file
                    if let Some((q, j)) = json_program(cx, r, &p) {
                        let w = flat(&q);
                        return (q, w, j);
                    }
                }
                let w = flat(&p);
                return (p, w, f);
            }
            g => {
                // other checks report this
                if !cx.left() {
                    panic!("no loadable program: {}", g.text());
                }
                cx.evals.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                refused += 1;
                if refused > 400 {
                    panic!("no loadable program: {}", g.text());
                }
            }
        }
    }
}
const ODD: [&str; 18] = ["", "A", "A\rB", "\r\n", "\n", "A\nB\n", "\t \t", "θ", "\u{398}", "日本", "\u{0}", "[color:red]", "\"", "\\", "\u{feff}x", "\u{2028}", " x ", "ABCDEFGHIJ"];
/// changes values of a json file, at any depth
pub fn json_change(r: &mut Rng, v: &mut Value) {
    match v {
        Value::Object(m) => {
            let ks: Vec<String> = m.keys().cloned().collect();
            if let Some(k) = if ks.is_empty() { None } else { Some(r.pick(&ks).clone()) } {
                json_change(r, m.get_mut(&k).unwrap());
            }
        }
        Value::Array(a) => match r.below(6) {
            0 => {
                a.pop();
            }
            1 => a.push(json!(r.byte())),
            2 if a.len() > 1 => {
                let n = r.below(a.len());
                a.truncate(n);
            }
            3 => a.extend((0..r.below(5)).map(|x| json!(x))),
            _ if !a.is_empty() => {
                let k = r.below(a.len());
                json_change(r, &mut a[k]);
            }
            _ => {}
        },
        Value::Number(n) => {
            let x = n.as_u64().unwrap_or(0);
            *v = match r.below(5) {
                0 => json!(0),
                1 => json!(x.wrapping_add(1)),
                2 => json!(r.short()),
                _ => json!(r.byte()),
            }
        }
        Value::String(s) => {
            *v = match r.below(5) {
                0 => json!(format!("{}{}", s, r.pick(&ODD))),
                1 => json!(format!("{}{}", r.pick(&ODD), s)),
                2 => json!(s.chars().skip(1).collect::<String>()),
                _ => json!(format!("{}{}", r.pick(&ODD), r.pick(&ODD))),
            }
        }
        _ => {}
    }
}
/// the program of a json file made from `p` with some values changed, if it is accepted
pub fn json_program(cx: &Cx, r: &mut Rng, p: &Program) -> Option<(Program, Vec<u8>)> {
    let mut v: Value = serde_json::from_slice(&save(cx, p, "json").ok()?).ok()?;
    for _ in 0..r.below(5) {
        json_change(r, &mut v);
    }
    let j = serde_json::to_vec(&v).ok()?;
    match load(cx, "json", &j, DM::Accessible) {
        Got::Ok(q) => Some((q, j)),
        _ => None,
    }
}
fn edit_case(cx: &Cx, p: &mut Program, f: &mut Flat, file: &[u8], e: &Edit, history: &[Edit]) -> bool {
    let before = f.clone();
    let want = apply_flat(f, e);
    cx.case(format!("{:?}{:?}{}", e, history.len(), crate::hash(&before.metadata) ^ crate::hash(&before.header)).as_bytes());
    let d = || json!({"program": hex(&file[..file.len().min(2000)]), "edits": format!("{:?} then {:?}", history, e)});
    match apply(p, e) {
        Ok(x) if x == want => {}
        Ok(x) => {
            cx.fail(format!("{:?} {} but must {}", e, if x { "succeeds" } else { "fails" }, if want { "succeed" } else { "be rejected" }), d());
            return false;
        }
        Err(x) => {
            cx.fail(format!("{:?} panics: {}", e, x), d());
            return false;
        }
    }
    let diff = flat(p).diff(f);
    if !diff.is_empty() {
        cx.fail(format!("after {:?}: {}", e, diff.join("; ")), d());
        return false;
    }
    true
}
pub fn rand_name(r: &mut Rng) -> String {
    let n = r.below(11);
    let mut s: String = (0..n).map(|_| *r.pick(&['A', 'z', 'Z', 'a', 'm', 'Q'])).collect();
    if r.chance(3) {
        let c = *r.pick(&['0', '9', '@', '[', '`', '{', ' ', 'é', 'ß', 'θ', '\0', '_', '-', 'ı', 'ſ', '日', 'ﬃ', '\n', 'K', '1']);
        let i = r.below(s.chars().count() + 1);
        let mut v: Vec<char> = s.chars().collect();
        v.insert(i, c);
        s = v.into_iter().collect();
    }
    if let Some(t) = r.text() {
        let k = r.below(4);
        s = s.chars().take(k).chain(t.chars()).collect();
        if r.chance(2) {
            s = s.to_uppercase();
        }
    } else if let Some(c) = r.word().and_then(|x| char::from_u32(x as u32)) {
        s.push(c);
    }
    s
}
pub fn rand_comment(r: &mut Rng) -> String {
    let n = match r.below(4) {
        0 => 38 + r.below(8),
        1 => r.below(100),
        _ => r.below(44),
    };
    let mut s = String::new();
    if let Some(t) = r.text() {
        s += t;
    } else if let Some(c) = r.word().and_then(|x| char::from_u32(x as u32)) {
        s.push(c);
    }
    while s.len() < n {
        s.push(if r.chance(12) { *r.pick(&['é', 'θ', '日', '😀', '\n', '\0', '[', ']']) } else { (b' ' + r.below(95) as u8) as char });
    }
    s
}
pub fn c08(cx: &Cx) {
    let mut names: Vec<String> = vec![];
    for c in (0u32..0x300).chain([0x1E9E, 0x131, 0x17F, 0x212A, 0xFF21, 0x3B8, 0x65E5, 0x1F600]).filter_map(char::from_u32) {
        for n in [0, 1, 3, 6, 7, 8] {
            names.push("AbCdEfGhI".chars().take(n).chain([c]).collect());
        }
        names.push([c].into_iter().chain("Zz".chars()).collect());
    }
    for n in 0..20 {
        names.push("aZmBcDeFgHiJkLmNoPqRsT".chars().take(n).collect());
        names.push("é".repeat(n));
    }
    for t in &words().texts {
        for n in [t.clone(), t.to_uppercase(), t.to_lowercase(), format!("A{}", t), format!("{}A", t)] {
            names.push(n);
        }
    }
    for n in near(70_000) {
        names.push("A".repeat(n));
        if let Some(c) = char::from_u32(n as u32) {
            names.push(c.into());
            names.push(format!("A{}", c));
        }
    }
    let names = &names;
    cx.sample(format!("{} names, e.g. {:?}", names.len(), &names[100..104]));
    cx.par(names.len(), |i| {
        let mut r = Rng(cx.seed ^ i as u64);
        let (mut p, mut f, file) = start(cx, &mut r);
        edit_case(cx, &mut p, &mut f, &file, &Edit::Rename(names[i].clone()), &[]);
    });
    // the name the program already has, however it is stored
    some_names(cx);
    crate::wire::rename(cx);
    sequences(cx, |r| if r.chance(4) { any_edit(r) } else { Edit::Rename(rand_name(r)) });
}
pub fn c09(cx: &Cx) {
    let mut cs: Vec<String> = vec![];
    for n in 0..120 {
        cs.push("x".repeat(n));
        cs.push("é".repeat(n));
        cs.push("日".repeat(n));
        cs.push("a".repeat(n) + "😀");
    }
    for c in (0u32..0x180).filter_map(char::from_u32) {
        cs.push(format!("{}{}", c, "q".repeat(40)));
        cs.push(format!("{}{}", "q".repeat(41), c));
    }
    cs.push("x".repeat(70_000));
    for t in &words().texts {
        for n in [t.clone(), t.to_uppercase(), t.to_lowercase(), format!("x {}", t), format!("{} x", t)] {
            cs.push(n);
        }
    }
    for n in near(70_000) {
        cs.push("x".repeat(n));
        if let Some(c) = char::from_u32(n as u32) {
            cs.push(c.into());
            cs.push(format!("x{}", c));
        }
    }
    let cs = &cs;
    cx.sample(format!("{} comments of 0 to 70000 bytes", cs.len()));
    cx.par(cs.len(), |i| {
        let mut r = Rng(cx.seed ^ i as u64);
        let (mut p, mut f, file) = start(cx, &mut r);
        edit_case(cx, &mut p, &mut f, &file, &Edit::Comment(cs[i].clone()), &[]);
    });
    some_names(cx);
    crate::wire::comment(cx);
    sequences(cx, |r| if r.chance(4) { any_edit(r) } else { Edit::Comment(rand_comment(r)) });
}
/// names and comments stored with zero bytes in between, set again to what is reported
fn some_names(cx: &Cx) {
    for name in [*b"AB\0C\0\0\0\0", *b"\0\0\0ABCDE", *b"A\0\0\0\0\0\0B", *b"ABCDEFGH", *b"abcdefgh", *b"AbC\0\0\0\0\0", *b"\0\0\0\0\0\0\0\0", *b"A1\0\0B\0\0\0", *b"A\xE9\0\0\0\0\0\0"] {
        for c in ["a\0b", "\0\0x", "plain", "", "\u{e9}\0t", "x\0\0\0\0y\0"] {
            for short in [false, true] {
                let mut s = Spec::new("**TI83F*", 0x0A, vec![0x41, 0x3F]);
                s.name = name;
                s.comment = [0; 42];
                for (k, x) in c.chars().enumerate() {
                    s.comment[k + 1] = x as u32 as u8;
                }
                let b = s.bytes(short);
                for e in 0..6 {
                    if let Got::Ok(mut p) = load(cx, if short { "83p" } else { "8xp" }, &b, DM::Accessible) {
                        let mut f = flat(&p);
                        let e = match e {
                            0 => Edit::Rename(f.name.clone()),
                            1 => Edit::Rename(f.name.to_lowercase()),
                            2 => Edit::Rename(f.name.to_uppercase()),
                            3 => Edit::Comment(f.comment.clone()),
                            4 => Edit::Rename(f.name.chars().take(1).collect()),
                            _ => Edit::Comment(f.comment.trim().to_string()),
                        };
                        if edit_case(cx, &mut p, &mut f, &b, &e, &[]) {
                            // and again
                            edit_case(cx, &mut p, &mut f, &b, &e, &[e.clone()]);
                        }
                    }
                }
            }
        }
    }
}
pub fn any_edit(r: &mut Rng) -> Edit {
    match r.below(6) {
        0 => Edit::Rename(rand_name(r)),
        1 => Edit::Comment(rand_comment(r)),
        2 => Edit::Lock,
        3 => Edit::Unlock,
        4 => Edit::Archive,
        _ => Edit::Unarchive,
    }
}
fn sequences(cx: &Cx, gen: impl Fn(&mut Rng) -> Edit + Sync) {
    let n = if cx.thorough { 60_000 } else { 3_000 };
    cx.par(n, |i| {
        let mut r = Rng(cx.seed.wrapping_mul(77) ^ (i as u64) << 24);
        let (mut p, mut f, file) = start(cx, &mut r);
        let mut hist = vec![];
        for _ in 0..1 + r.below(10) {
            let e = match r.below(12) {
                0 => Edit::Rename(f.name.clone()),
                1 => Edit::Comment(f.comment.clone()),
                _ => gen(&mut r),
            };
            if !edit_case(cx, &mut p, &mut f, &file, &e, &hist) {
                break;
            }
            hist.push(e);
        }
    });
}
pub fn c10(cx: &Cx) {
    // all sequences of up to four flag edits on all start states
    let flags = [Edit::Lock, Edit::Unlock, Edit::Archive, Edit::Unarchive];
    let flags = &flags;
    cx.sample("all sequences of up to 4 flag edits on programs of every type and destination".into());
    cx.par(256, |i| {
        for t in [5u8, 6, 0x17, 0x24] {
            for dst in [0u8, 0x80] {
                for short in [false, true] {
                    let mut s = Spec::new("**TI83F*", 0x0A, vec![0x41, 0x3F]);
                    s.ftype = t;
                    s.dest = dst;
                    let b = s.bytes(short);
                    if let Got::Ok(mut p) = load(cx, if short { "82p" } else { "8xp" }, &b, DM::Accessible) {
                        let mut f = flat(&p);
                        let mut hist = vec![];
                        for k in 0..4 {
                            let e = flags[i >> (2 * k) & 3].clone();
                            if !edit_case(cx, &mut p, &mut f, &b, &e, &hist) {
                                return;
                            }
                            hist.push(e);
                        }
                    }
                }
            }
        }
    });
    crate::wire::flags(cx);
    sequences(cx, |r| if r.chance(4) { any_edit(r) } else { [Edit::Lock, Edit::Unlock, Edit::Archive, Edit::Unarchive][r.below(4)].clone() });
}

// ------------------------------------------------------------------ saving
fn consistent(b: &[u8], ml: usize) -> Option<String> {
    if b.len() < 57 + ml {
        return Some(format!("only {} bytes", b.len()));
    }
    let n = b.len();
    let sum = u16::from_le_bytes([b[n - 2], b[n - 1]]);
    let want = sum16(&b[55..n - 2], &[]);
    if sum != want {
        return Some(format!("checksum {:04X} instead of {:04X}", sum, want));
    }
    let len = u16::from_le_bytes([b[53], b[54]]) as usize;
    if len != n - 57 {
        return Some(format!("header length {} instead of {}", len, n - 57));
    }
    None
}
pub fn c06(cx: &Cx) {
    let check = |p: &Program, ext: &str, what: &dyn Fn() -> String| {
        let r = save(cx, p, ext);
        cx.case(format!("{}{:?}", ext, r.as_ref().map(|b| crate::hash(b))).as_bytes());
        match r {
            Err(e) => cx.fail(format!("saving as {}: {}", ext, e), json!(what())),
            Ok(b) => {
                if let Some(e) = consistent(&b, if ext == "8xp" { 19 } else { 17 }) {
                    cx.fail(format!("saved as {}: {}", ext, e), json!(what()));
                }
            }
        }
    };
    cx.sample("programs from 8xp, 82p, 83p, txt and json files with up to 8 edits, saved as 8xp, 82p and 83p; bodies up to the length limits".into());
    // lengths at the limits
    let mut sizes = sizes();
    sizes.extend(65517..65540); // too long, unless a loader lets one in
    cx.par(sizes.len() * 3, |i| {
        let n = sizes[i / 3];
        for fill in [0x31u8, 0xDE, 0xFF] {
            let body: Vec<u8> = if fill == 0xFF { (0..n).map(|k| [0x31, 0x41, 0x2B][k % 3]).collect() } else { vec![fill; n] };
            let ext = ["8xp", "82p", "83p"][i % 3];
            let f = Spec::new("**TI83F*", 0x0A, body).bytes(i % 3 > 0);
            if let Got::Ok(p) = load(cx, ext, &f, DM::Accessible) {
                for e in ["8xp", "82p", "83p"] {
                    check(&p, e, &|| format!("{} file with a body of {} bytes {:02X}", ext, n, fill));
                }
            }
            let t = format!("AB\n\nProgram\nRAM\naccessible\nlatest\n{}", "1".repeat(n));
            if let Got::Ok(p) = load_txt(cx, t.as_bytes(), EM::Max) {
                for e in ["8xp", "82p", "83p"] {
                    check(&p, e, &|| format!("text with {} characters", n));
                }
            }
        }
    });
    // the sum so far at its limits, then one more byte
    let mut at = vec![0usize, 1, 2, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x101, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF];
    at.extend(near(0xFFFF));
    cx.par(at.len() * 256, |i| {
        let (t, last) = (at[i % at.len()], (i / at.len()) as u8);
        if !cx.thorough && last > 2 && last < 0xFC && (i / at.len()) % 5 != 0 {
            return;
        }
        for n in 700..2600usize {
            let f = Spec::new("**TI83F*", 0x0A, vec![0x41; n]).bytes(false);
            let meta: usize = f[55..74].iter().map(|b| *b as usize).sum();
            let want = (t + 3 * 65536 - meta) % 65536 + if n > 1300 { 65536 } else { 0 };
            let m = n - 1;
            if want < m * 0x41 || want > m * 0x5A {
                continue;
            }
            let (low, more) = (want / m, want % m);
            let mut body: Vec<u8> = (0..m).map(|k| (low + usize::from(k < more)) as u8).collect();
            body.push(last);
            let s = Spec::new("**TI83F*", 0x0A, body);
            if let Got::Ok(p) = load(cx, "8xp", &s.bytes(false), DM::Accessible) {
                check(&p, "8xp", &|| format!("8xp file {}", hex(&s.bytes(false))));
                check(&p, "83p", &|| format!("8xp file {}", hex(&s.bytes(false))));
            }
            break;
        }
    });
    // every version and flag byte with right and wrong stored lengths and checksum
    cx.par(256, |v| {
        for (field, wrong) in [(0, false), (1, false), (2, false), (3, false), (0, true), (1, true), (2, true), (3, true)] {
            let mut s = Spec::new("**TI83F*", 0x0A, vec![0x41, 0x3F, 0x42, 0x70]);
            match field {
                0 => s.version = v as u8,
                1 => s.flag = v as u8,
                2 => s.unknown = v as u8,
                _ => s.extra = [v as u8, 0x0A],
            }
            if v % 2 == 1 {
                s.flag = 0x0B;
            }
            if wrong {
                s.sum = Some(0x1234 + v as u16);
                s.hlen = Some(v as u16);
                s.len1 = Some(7);
                s.len2 = Some(v as u16);
                s.len3 = Some(1);
            }
            if let Got::Ok(p) = load(cx, "8xp", &s.bytes(false), DM::Accessible) {
                for e in ["8xp", "83p"] {
                    check(&p, e, &|| format!("8xp file {}", hex(&s.bytes(false))));
                }
            }
        }
    });
    // json files with fields of every length
    if let Got::Ok(p) = load(cx, "8xp", &Spec::new("**TI83F*", 0x0A, vec![0x41, 0x3F, 0x42]).bytes(false), DM::Accessible) {
        if let Ok(j) = save(cx, &p, "json") {
            for (a, b) in [("header", "bytes"), ("metadata", "bytes"), ("body", "bytes"), ("checksum", "bytes"), ("header", "signature_extra")] {
                for n in (0..70).chain([255, 256, 65515, 65516, 65517, 65535, 65536]) {
                    let mut v: Value = serde_json::from_slice(&j).unwrap();
                    let field = match v.get_mut(a).and_then(|x| x.get_mut(b)).and_then(|x| x.as_array_mut()) {
                        Some(f) => f,
                        None => continue,
                    };
                    field.resize(n, json!(0x31));
                    if let Got::Ok(q) = load(cx, "json", &serde_json::to_vec(&v).unwrap(), DM::Accessible) {
                        for e in ["8xp", "82p", "83p"] {
                            check(&q, e, &|| format!("json file whose {} {} has {} values", a, b, n));
                        }
                    }
                }
            }
        }
    }
    let n = if cx.thorough { 60_000 } else { 4_000 };
    cx.par(n, |i| {
        let mut r = Rng(cx.seed.wrapping_mul(31) ^ (i as u64) << 22);
        let mut desc = String::new();
        let mut p = if i % 4 == 0 {
            let t = gen_txt(cx, &mut r);
            desc = short(&t);
            match load_txt(cx, t.as_bytes(), *r.pick(&EMS)) {
                Got::Ok(p) => p,
                _ => return,
            }
        } else {
            let (p, _, f) = start(cx, &mut r);
            desc += &hex(&f[..f.len().min(500)]);
            p
        };
        if i % 5 == 1 {
            if let Ok(j) = save(cx, &p, "json") {
                if let Got::Ok(q) = load(cx, "json", &j, DM::Accessible) {
                    p = q;
                    desc += " via json";
                }
            }
        } else if i % 5 == 2 {
            if let Some((q, j)) = json_program(cx, &mut r, &p) {
                p = q;
                desc = format!("json file {}", String::from_utf8_lossy(&j));
            }
        }
        let mut hist = vec![];
        for _ in 0..r.below(9) {
            let e = any_edit(&mut r);
            let _ = apply(&mut p, &e);
            hist.push(e);
        }
        for e in ["8xp", "82p", "83p"] {
            check(&p, e, &|| format!("{} edits {:?}", desc, hist));
        }
    });
}
/// a text file that is mostly acceptable
pub fn gen_txt(cx: &Cx, r: &mut Rng) -> String {
    let d = *r.pick(&DMS);
    let m = r.pick(&MODELS).0;
    let toks: Vec<&[String; 3]> = cx.o.tables[m].values().collect();
    let mut t = format!(
        "{}\n{}\n{}\n{}\n{}\n{}",
        (0..r.below(9)).map(|_| (b'A' + r.below(26) as u8 + 32 * r.below(2) as u8) as char).collect::<String>(),
        if r.chance(3) { "any comment" } else { "" },
        r.pick(&["Program", "Locked Program", "Group", "Flash Application"]),
        r.pick(&["RAM", "Archive"]),
        d.name(),
        if r.chance(9) { "TI-99" } else { m }
    );
    if let Some(w) = r.text() {
        // in the place of one of the six lines
        let mut l: Vec<String> = t.split('\n').map(String::from).collect();
        let k = r.below(6);
        l[k] = if k == 0 && r.chance(2) { format!("A{}", w) } else { w.into() };
        t = l.join("\n");
    }
    if r.chance(12) {
        return t;
    }
    t.push('\n');
    if let Some(x) = r.word().filter(|x| *x < 20_000) {
        // so many characters, in one line or in many
        let w = *r.pick(&["1", "A", "1\n", "\n", "\"A"]);
        t += &w.repeat(x as usize / w.len());
        if x as usize % w.len() > 0 {
            t += "1";
        }
        return t;
    }
    let k = match r.below(10) {
        0 => 0,
        1 => r.below(800),
        _ => r.below(30),
    };
    for _ in 0..k {
        let i = match d {
            DM::Ti => 0,
            DM::Pretty => 1,
            DM::Accessible => 2,
        };
        let s = &r.pick(&toks)[i];
        t += s;
        if let Some(w) = r.text() {
            t += w;
        }
        match r.below(12) {
            0 => t.push('\n'),
            1 => t.push('"'),
            2 => t += "->",
            3 if r.chance(4) => t += "\r\n",
            4 if r.chance(4) => t.push(*r.pick(&['\u{0398}', '\u{03F4}', '\u{1DBF}', 'θ'])),
            5 if r.chance(30) => t.push(*r.pick(&['日', '\u{7f}', '\u{1F600}', '\t', '\r'])),
            _ => {}
        }
    }
    t
}
pub fn c07(cx: &Cx) {
    cx.sample("random 8xp files: every field random, lengths and checksum right or wrong; field by field comparison and unedited save".into());
    let n = if cx.thorough { 150_000 } else { 9_000 };
    // every value of every header and metadata byte
    cx.par(74, |pos| {
        for v in 0..=255u8 {
            let mut f = Spec::new("**TI83F*", 0x0A, vec![0x41, 0x3F, 0x42]).bytes(false);
            f[pos] = v;
            cx.case(&f);
            check_read(cx, "8xp", &f, DM::Accessible, None);
        }
    });
    cx.par(n, |i| {
        let mut r = Rng(cx.seed.wrapping_mul(131) ^ (i as u64) << 22);
        let clean = i % 2 == 0;
        let f = good_file(cx, &mut r, false, clean);
        cx.case(&f);
        let d = *r.pick(&DMS);
        if let Some(p) = check_read(cx, "8xp", &f, d, None) {
            if clean {
                match save(cx, &p, "8xp") {
                    Ok(b) if b == f => {}
                    Ok(b) => {
                        let at = b.iter().zip(&f).position(|(x, y)| x != y);
                        cx.fail(format!("saving the unedited program changes the file ({} to {} bytes, first difference at {:?})", f.len(), b.len(), at), detail("8xp", &f))
                    }
                    Err(e) => cx.fail(format!("saving the unedited program: {}", e), detail("8xp", &f)),
                }
            }
        }
    });
    // large bodies
    let mut sizes = sizes();
    sizes.push(65517);
    let sizes = &sizes;
    cx.par(sizes.len(), |i| {
        let n = sizes[i];
        let f = Spec::new("**TI83F*", 0x0A, vec![0x41; n]).bytes(false);
        cx.case(&f);
        if let Some(p) = check_read(cx, "8xp", &f, DM::Accessible, None) {
            if save(cx, &p, "8xp").as_deref() != Ok(&f[..]) {
                cx.fail(format!("saving a program with a body of {} bytes changes the file", n), json!({"body": format!("{} times 41", n)}));
            }
        }
    });
    crate::wire::same_format(cx, false);
    crate::wire::details(cx, false);
    crate::wire::contents(cx);
}
pub fn c13(cx: &Cx) {
    cx.sample("random 82p and 83p files loaded and saved as 82p, 83p and 8xp; 8xp files saved as 82p and 83p".into());
    let n = if cx.thorough { 100_000 } else { 7_000 };
    let mut sizes = sizes();
    sizes.push(65517);
    let sizes = &sizes;
    cx.par(n + sizes.len(), |i| {
        let mut r = Rng(cx.seed.wrapping_mul(151) ^ (i as u64) << 22);
        let short = i % 4 != 0;
        let ext = if short { *r.pick(&["82p", "83p"]) } else { "8xp" };
        let f = if i >= n { Spec::new("**TI83F*", 0, vec![0x41; sizes[i - n]]).bytes(short) } else { good_file(cx, &mut r, short, i % 3 != 0) };
        cx.case(&f);
        let d = *r.pick(&DMS);
        let p = match check_read(cx, ext, &f, d, None) {
            Some(p) => p,
            None => return,
        };
        let w = flat(&p);
        for e in ["82p", "83p", "8xp"] {
            match save(cx, &p, e) {
                Err(x) => cx.fail(format!("a loaded {} file cannot be saved as {}: {}", ext, e, x), detail(ext, &f)),
                Ok(b) => {
                    if b != w.save(e) {
                        let at = b.iter().zip(&w.save(e)).position(|(x, y)| x != y);
                        cx.fail(format!("a loaded {} file saved as {} has {} bytes instead of {}, first difference at {:?}", ext, e, b.len(), w.save(e).len(), at), detail(ext, &f));
                    }
                    // the well-formed short form survives
                    if short && e != "8xp" && f[55] == 0x0B && f[56] == 0 && consistent(&f, 17).is_none() && f[57..59] == ((f.len() - 74 + 2) as u16).to_le_bytes()
                        && f[68..70] == ((f.len() - 74 + 2) as u16).to_le_bytes() && f[70..72] == ((f.len() - 74) as u16).to_le_bytes() && b != f
                    {
                        cx.fail(format!("a well-formed {} file does not survive load and save as {}", ext, e), detail(ext, &f));
                    }
                }
            }
        }
    });
    crate::wire::same_format(cx, true);
    crate::wire::details(cx, true);
}
pub fn c14(cx: &Cx) {
    cx.sample("programs from random calculator and text files, with edits, through json; all fields and all files saved afterwards compared".into());
    let n = if cx.thorough { 60_000 } else { 5_000 };
    let sizes = sizes();
    let sizes = &sizes;
    cx.par(n + sizes.len() * 4, |i| {
        let mut r = Rng(cx.seed.wrapping_mul(171) ^ (i as u64) << 22);
        let (mut p, what) = if i < sizes.len() * 4 {
            let size = sizes[i / 4];
            if i % 4 == 3 {
                let t = format!("AB\n\nProgram\nRAM\naccessible\nlatest\n{}", "1".repeat(size));
                match load_txt(cx, t.as_bytes(), EM::Smart) {
                    Got::Ok(p) => (p, json!({"text": format!("a program of {} digits", size)})),
                    _ => return,
                }
            } else {
                let body: Vec<u8> = (0..size).map(|k| [0x31, 0x41, 0x2B, 0x3F][k % 4]).collect();
                match load(cx, ["8xp", "83p", "82p"][i % 4], &Spec::new("**TI83F*", 0x0A, body).bytes(i % 4 > 0), DM::Accessible) {
                    Got::Ok(p) => (p, json!({"body": format!("{} bytes", size)})),
                    _ => return,
                }
            }
        } else if i % 3 == 0 {
            // every model in every display form
            let mut t = gen_txt(cx, &mut r);
            let i = i - sizes.len() * 4;
            if i < 300 {
                let m = MODELS[i / 3 % 25].0;
                t = format!("AB\n\nProgram\nRAM\n{}\n{}\n", DMS[i / 75 % 3].name(), m);
            }
            match load_txt(cx, t.as_bytes(), *r.pick(&EMS)) {
                Got::Ok(p) => (p, json!({"text": t})),
                _ => return,
            }
        } else {
            let (p, _, f) = start(cx, &mut r);
            (p, json!({"bytes": hex(&f[..f.len().min(2000)])}))
        };
        for _ in 0..r.below(4) {
            let e = any_edit(&mut r);
            let _ = apply(&mut p, &e);
        }
        let w = flat(&p);
        cx.case(format!("{:?}", w).as_bytes());
        let j = match save(cx, &p, "json") {
            Ok(j) => j,
            Err(e) => return cx.fail(format!("export to json: {}", e), what),
        };
        match load(cx, "json", &j, DM::Accessible) {
            Got::Ok(q) => {
                let diff = flat(&q).diff(&w);
                if !diff.is_empty() {
                    return cx.fail(format!("after json: {}", diff.join("; ")), what);
                }
                for e in ["8xp", "82p", "83p", "txt"] {
                    let (a, b) = (save(cx, &p, e), save(cx, &q, e));
                    if a != b {
                        cx.fail(format!("saving as {} after json gives a different file", e), what.clone());
                    }
                }
            }
            g => cx.fail(format!("reading the exported json back gives {}", g.text()), what),
        }
    });
    crate::wire::via_json(cx);
    crate::wire::mass(cx, "C14");
}

// ------------------------------------------------------------------ C15, C16
pub fn c15(cx: &Cx) {
    cx.sample("all 25 models, all product ids with known, unknown and damaged signatures, 3000 unknown names".into());
    for (n, sig, id, _, lang) in MODELS {
        cx.case(n.as_bytes());
        let r = guard(|| {
            let m = Model::from_string(n);
            let back = m.to_string();
            let d = ModelDetails::from_model(&m);
            (back, d.signature.clone(), d.product_id, d.language.clone(), d.model.to_string())
        });
        match r {
            Err(p) => cx.fail(format!("model {} panics: {}", n, p), Value::Null),
            Ok((back, s, i, l, m2)) => {
                if back != n {
                    cx.fail(format!("model name {} comes back as {}", n, back), Value::Null);
                }
                if s != sig || i != id || m2 != n {
                    cx.fail(format!("model {} is written with {} {:02X} as {} instead of {} {:02X}", n, s, i, m2, sig, id), Value::Null);
                }
                if l != lang {
                    cx.fail(format!("model {} has language {} instead of {}", n, l, lang), Value::Null);
                }
                match guard(|| ModelDetails::from_byte(i, &s).map(|d| (d.signature.clone(), d.product_id)).ok()) {
                    Ok(Some(x)) if x == (s.clone(), i) => {}
                    x => cx.fail(format!("the header of model {} ({} {:02X}) leads to {:?}", n, s, i, x), Value::Null),
                }
            }
        }
    }
    for id in 0..=255u8 {
        for s in ["**TI83F*", "**TI83**", "**TI82**", "**TI84**", "", "**ti83f*", "**TI83F", "**TI83F*x"] {
            cx.case(format!("{}{}", id, s).as_bytes());
            match guard(|| ModelDetails::from_byte(id, s).map(|d| (d.model.to_string(), d.signature.clone(), d.product_id)).ok()) {
                Err(p) => cx.fail(format!("product id {:02X} with {:?} panics: {}", id, s, p), Value::Null),
                Ok(None) if !IDS.contains(&id) => {}
                Ok(Some((m, ..))) if Some(m.as_str()) == header_model(s.as_bytes(), id) => {}
                Ok(x) => cx.fail(format!("product id {:02X} with signature {:?} leads to {:?} instead of {:?}", id, s, x, header_model(s.as_bytes(), id)), Value::Null),
            }
        }
    }
    let mut r = Rng(cx.seed);
    for t in &words().texts {
        for (m, ..) in MODELS {
            for n in [format!("{}{}", t, m), format!("{}{}", m, t), m.replace("TI-", t)] {
                let want = if MODELS.iter().any(|x| x.0 == n) { n.as_str() } else { "latest" };
                match guard(|| Model::from_string(&n).to_string()) {
                    Ok(x) if x == want => {}
                    x => cx.fail(format!("model name {:?} means {:?} instead of {}", n, x, want), Value::Null),
                }
            }
        }
        for id in 0..=255u8 {
            match guard(|| ModelDetails::from_byte(id, t).map(|d| d.model.to_string()).ok()) {
                Ok(None) if !IDS.contains(&id) => {}
                Ok(Some(m)) if Some(m.as_str()) == header_model(t.as_bytes(), id) => {}
                x => cx.fail(format!("product id {:02X} with signature {:?} leads to {:?} instead of {:?}", id, t, x, header_model(t.as_bytes(), id)), Value::Null),
            }
        }
    }
    for i in 0..3000 {
        let mut n: String = r.text().unwrap_or(r.pick(&MODELS).0).into();
        let n0 = n.len().max(1);
        let k = (0..=r.below(n0)).rev().find(|k| n.is_char_boundary(*k)).unwrap_or(0);
        match i % 4 {
            0 => {
                if k < n.len() {
                    n.remove(k);
                }
            }
            1 => n.insert(k, *r.pick(&['+', 'S', 'E', ' ', 'é', '8', 't'])),
            2 => n = n.to_lowercase(),
            _ => n.push(*r.pick(&[' ', '+', 'F', '\n'])),
        }
        let want = if MODELS.iter().any(|m| m.0 == n) { n.as_str() } else { "latest" };
        cx.case(n.as_bytes());
        match guard(|| Model::from_string(&n).to_string()) {
            Ok(x) if x == want => {}
            x => cx.fail(format!("model name {:?} means {:?} instead of {}", n, x, want), Value::Null),
        }
    }
    // unknown names in a text file
    for (k, (m, ..)) in MODELS.iter().enumerate() {
        for n in [format!(" {}", m), format!("{} ", m), format!("{}\t", m), format!("\t{}", m), m.to_lowercase(), m.to_uppercase(), format!("{}+", m), format!("\"{}\"", m), m.replace("TI-", "TI"), m.replace("TI-", ""), m.replace("+", " Plus"), m.replace(".fr", ".FR"), format!("{}\u{a0}", m), format!("{},", m)] {
            let want = if MODELS.iter().any(|x| x.0 == n) { n.as_str() } else { "latest" };
            let t = format!("AB\n\nProgram\nRAM\n{}\n{}\nA", DMS[k % 3].name(), n);
            let t = if k % 3 == 2 { t.replace("\nA", "\n") } else { t };
            cx.case(t.as_bytes());
            match load_txt(cx, t.as_bytes(), EM::Smart) {
                Got::Ok(p) if p.model.model.to_string() == want => {}
                Got::Ok(p) => cx.fail(format!("model name {:?} in a text file means {} instead of {}", n, p.model.model.to_string(), want), json!({"text": t})),
                _ => {}
            }
        }
    }
    // through files: the model of a text file, saved and read back
    for (n, sig, id, _, _) in MODELS {
        let t = format!("AB\n\nProgram\nRAM\naccessible\n{}\nA", n);
        if let Got::Ok(p) = load_txt(cx, t.as_bytes(), EM::Smart) {
            if let Ok(b) = save(cx, &p, "8xp") {
                if b.len() < 11 || &b[..8] != sig.as_bytes() || b[10] != id {
                    cx.fail(format!("a program for {} is saved with another signature or product id", n), json!({"text": t}));
                }
                match load(cx, "8xp", &b, DM::Accessible) {
                    Got::Ok(q) if q.model.signature == sig && q.model.product_id == id => {}
                    g => cx.fail(format!("a program for {} saved and read back gives {}", n, g.text()), json!({"text": t})),
                }
            }
        } else {
            cx.fail(format!("a text for model {} is not accepted", n), json!({"text": t}));
        }
    }
}
fn ord(a: &OsVersion, b: &OsVersion) -> Result<Ordering, String> {
    guard(|| {
        let c = a.cmp(b);
        assert!(a.partial_cmp(b) == Some(c) && (a <= b) == (c != Ordering::Greater) && (a >= b) == (c != Ordering::Less), "comparison operators disagree");
        c
    })
}
pub fn c16(cx: &Cx) {
    let mut vs: Vec<String> = vec!["".into(), "latest".into(), "1".into(), "1.0".into(), "01.0".into(), "9.9".into(), "10.0".into(), "x".into(), "0".into(), "2.55MP".into(), "99999999999".into(),
        "1.1.1".into(), "5.2.0.0035".into(), "4294967295.1".into(), ".".into(), "1..2".into(), "latest.1".into(), "latest ".into(), "Latest".into(), "1.latest".into(), " ".into(), "5.2.latest".into(), "latestx".into(), "-1".into(), "+1".into(), "1.+1".into(), "00001.1".into(), "0.01012".into(), "0.01014".into()];
    for l in cx.o.sheet.values() {
        for t in l {
            vs.push(t.since.1.clone());
            if let Some(u) = &t.until {
                vs.push(u.1.clone());
            }
        }
    }
    for t in &words().texts {
        vs.push(t.clone());
        vs.push(format!("{}.0", t));
    }
    for v in ["1.2.3.4", "1.2.3.4.5", "1.2.3.4.6", "1.2.3.4.5.6", "1.2.3.4.5.7", "1.2.3.4.5.6.7.8.9", "1.2.3.4.5.6.7.8.10"] {
        vs.push(v.into());
    }
    for n in near(u64::MAX - 1) {
        vs.extend([n.to_string(), format!("{}.0", n), format!("0.{}", n), format!("5.2.{}", n)]);
    }
    vs.sort();
    vs.dedup();
    let vs = &vs;
    cx.sample(format!("tables of 25 models at {} versions, e.g. {:?}", vs.len(), &vs[..4]));
    cx.par(25 * vs.len(), |i| {
        let (m, v) = (MODELS[i % 25].0, &vs[i / 25]);
        cx.case(format!("{} {}", m, v).as_bytes());
        let want = cx.o.table(m, v);
        cx.busy(format!("token table of {} {}", m, v));
        let r = guard(|| load_tokens(&OsVersion::new(Model::from_string(m), v.clone())).ok());
        cx.idle();
        let d = json!({"model": m, "version": v});
        match r {
            Ok(Some(t)) => {
                if t.map.len() != want.len() {
                    cx.fail(format!("the table of {} {:?} has {} tokens instead of {}", m, v, t.map.len(), want.len()), d.clone());
                }
                for (k, x) in &want {
                    let key = k.iter().map(|b| format!("${:02X}", b)).collect::<String>() + " en";
                    match t.get_value(&key) {
                        Some(y) if [&y.ti_ascii, &y.display, &y.accessible] == [&x[0], &x[1], &x[2]] => {}
                        y => return cx.fail(format!("the table of {} {:?} has {:?} under {} instead of {:?}", m, v, y, key, x), d),
                    }
                }
            }
            x => cx.fail(format!("the table of {} {:?} cannot be loaded: {:?}", m, v, x.map(|_| "error")), d),
        }
    });
    // the order
    let ms = ["TI-82", "TI-83", "TI-82ST", "TI-83+", "TI-84+", "TI-84+SE", "TI-82A", "TI-84+T", "TI-84+CSE", "TI-84+CE", "TI-82AEP", "latest"];
    let all: Vec<(&str, &str)> = ms.iter().flat_map(|m| vs.iter().map(move |v| (*m, v.as_str()))).collect();
    let all = &all;
    cx.par(all.len(), |i| {
        let a = all[i];
        let x = OsVersion::new(Model::from_string(a.0), a.1.into());
        for b in all {
            let y = OsVersion::new(Model::from_string(b.0), b.1.into());
            cx.case(format!("{:?}{:?}", a, b).as_bytes());
            match ord(&x, &y) {
                Ok(o) if o == os_cmp(a, *b) => {}
                o => return cx.fail(format!("comparing {:?} with {:?} gives {:?} instead of {:?}", a, b, o, os_cmp(a, *b)), Value::Null),
            }
        }
    });
    let names: Vec<&str> = MODELS.iter().map(|m| m.0).collect();
    for a in &names {
        for b in &names {
            let f = |m: &str| OsVersion::new(Model::from_string(m), "1.0".into());
            match ord(&f(a), &f(b)) {
                Ok(o) if o == os_cmp((a, "1.0"), (b, "1.0")) => {}
                o => cx.fail(format!("comparing {} with {} gives {:?}", a, b, o), Value::Null),
            }
        }
    }
}

// ------------------------------------------------------------------ C17
pub fn c17(cx: &Cx) {
    cx.sample("programs exported as text in every form; accessible ones read back; all pairs of tokens".into());
    let back = |p: &Program, content: &[u8], what: Value| {
        let w = flat(p);
        if w.mode != "accessible" || what.get("bytes").map_or(false, |b| b.as_str().map_or(false, |b| b.starts_with("7B"))) || !w.name.chars().all(|c| c.is_ascii_alphabetic()) || w.comment.contains('\n') || w.comment.contains('\r') || w.text.contains('\r') {
            return;
        }
        match load_txt(cx, content, EM::Smart) {
            Got::Ok(q) => {
                let g = flat(&q);
                for (n, a, b) in [("name", &g.name, &w.name), ("type", &g.file_type, &w.file_type), ("destination", &g.destination, &w.destination), ("model", &g.model, &w.model), ("text", &g.text, &w.text)] {
                    // the text itself, or the text without its final newline
                    if a != b && !(n == "text" && format!("{}\n", a) == *b) {
                        cx.fail(format!("the exported text read back has {} {:?} instead of {:?}", n, short(a), short(b)), what.clone());
                    }
                }
            }
            // a text that no longer fits or cannot be split into tokens is refused
            Got::Err(_) if crate::enc::rejected_by_some(cx, known_model(&w.model), DM::Accessible, &w.text) => {}
            g => cx.fail(format!("the exported text cannot be read back: {}", g.text()), what),
        }
    };
    let export = |p: &Program, what: Value| {
        let w = flat(p);
        cx.case(format!("{:?}", w).as_bytes());
        match save(cx, p, "txt") {
            Ok(b) if b == w.save("txt") => back(p, &b, what),
            Ok(b) => cx.fail(format!("the exported text is {:?} instead of {:?}", short(&String::from_utf8_lossy(&b)), short(&String::from_utf8_lossy(&w.save("txt")))), what),
            Err(e) => cx.fail(format!("export as text: {}", e), what),
        }
    };
    // all pairs of tokens on the latest table
    let keys: Vec<&Vec<u8>> = cx.o.tables["latest"].keys().filter(|k| **k != vec![0x3F]).collect();
    let keys = &keys;
    cx.par(keys.len(), |i| {
        let mut body = vec![];
        for k in keys {
            body.extend(keys[i]);
            body.extend(*k);
            body.push(0x3F);
        }
        let f = Spec::new("**TI83F*", 0, body).bytes(false);
        if let Got::Ok(p) = load(cx, "8xp", &f, DM::Accessible) {
            export(&p, json!({"body": format!("{} before every other token", hex(keys[i]))}));
        }
    });
    let sizes = sizes();
    cx.par(sizes.len(), |i| {
        // lines of six tokens
        let body: Vec<u8> = (0..sizes[i]).map(|k| [0x31, 0x41, 0x2B, 0x58, 0x72, 0x44, 0x3F][k % 7]).collect();
        if let Got::Ok(p) = load(cx, "8xp", &Spec::new("**TI83F*", 0x0A, body).bytes(false), DM::Accessible) {
            export(&p, json!({"body": format!("{} bytes", sizes[i])}));
        }
    });
    let n = if cx.thorough { 40_000 } else { 3_000 };
    cx.par(n, |i| {
        let mut r = Rng(cx.seed.wrapping_mul(191) ^ (i as u64) << 22);
        if i % 4 == 0 {
            let t = gen_txt(cx, &mut r);
            if let Got::Ok(p) = load_txt(cx, t.as_bytes(), *r.pick(&EMS)) {
                export(&p, json!({"text": t}));
            }
        } else {
            let (mut p, _, f) = start(cx, &mut r);
            let mut hist = vec![];
            for _ in 0..r.below(4) {
                let e = match r.below(3) {
                    0 => Edit::Rename("Abc".into()),
                    _ => any_edit(&mut r),
                };
                let _ = apply(&mut p, &e);
                hist.push(e);
            }
            export(&p, json!({"bytes": hex(&f[..f.len().min(2000)]), "edits": format!("{:?}", hist)}));
            // a json file may hold any text
            if let Some((q, j)) = json_program(cx, &mut r, &p) {
                let w = flat(&q);
                cx.case(&j);
                match save(cx, &q, "txt") {
                    Ok(b) if b == w.save("txt") => {}
                    Ok(b) => cx.fail(format!("the exported text is {:?} instead of {:?}", short(&String::from_utf8_lossy(&b)), short(&String::from_utf8_lossy(&w.save("txt")))), json!({"json": String::from_utf8_lossy(&j)})),
                    Err(e) => cx.fail(format!("export as text: {}", e), json!({"json": String::from_utf8_lossy(&j)})),
                }
            }
        }
    });
    crate::wire::as_text(cx, true);
    crate::wire::mass(cx, "C17");
}

// ------------------------------------------------------------------ C18
fn survives(cx: &Cx, ext: &str, content: &[u8], d: DM, e: EM) {
    cx.case(content);
    let p: PathBuf = cx.tdir().join(format!("in.{}", ext));
    std::fs::write(&p, content).unwrap();
    cx.busy(format!("loading a {} file of {} bytes: {}", ext, content.len(), hex(&content[..content.len().min(300)])));
    let g = load_path(&p, ext, d, e);
    cx.idle();
    match g {
        Got::Panic(x) => cx.fail(format!("loading a {} file crashes: {}", ext, x), detail(ext, content)),
        Got::Err(_) => {}
        Got::Ok(mut q) => {
            if ext == "json" {
                return;
            }
            let mut r = Rng(crate::hash(content));
            cx.busy("preview".into());
            if let Err(x) = guard(|| q.to_string().len() + q.body.display().len() + q.checksum.display().len()) {
                cx.fail(format!("previewing a program loaded from a {} file crashes: {}", ext, x), detail(ext, content));
            }
            cx.idle();
            for _ in 0..3 {
                let e = any_edit(&mut r);
                if let Err(x) = apply(&mut q, &e) {
                    cx.fail(format!("{:?} on a program loaded from a {} file crashes: {}", e, ext, x), detail(ext, content));
                }
            }
            for o in ["8xp", "82p", "83p", "txt", "json"] {
                if let Err(x) = save(cx, &q, o) {
                    if x.starts_with("panic") {
                        cx.fail(format!("saving a program loaded from a {} file as {} crashes: {}", ext, o, x), detail(ext, content));
                    }
                }
            }
        }
    }
}
pub fn c18(cx: &Cx) {
    cx.sample("truncations of valid files at every length, random bytes, byte changes, huge and deeply nested files, non-UTF-8 text, as every file type".into());
    let exts = ["8xp", "82p", "83p", "txt", "json"];
    // every truncation of valid files of each kind
    let mut base: Vec<(String, Vec<u8>)> = vec![];
    for (i, e) in ["8xp", "82p", "83p"].iter().enumerate() {
        let mut s = Spec::new(HEADERS[3 + i].0, HEADERS[3 + i].1, vec![0x41, 0x3F, 0xBB, 0x6E, 0x2A]);
        s.dest = 0x80;
        base.push((e.to_string(), s.bytes(i > 0)));
    }
    base.push(("txt".into(), "ABC\ncomment\nProgram\nRAM\naccessible\nlatest\nDisp \"é\"\r\n:->θ\n".into()));
    base.push(("txt".into(), "ABC\r\n\r\nProgram\r\nRAM\r\npretty\r\nTI-82\r\nDisp \"A\r\n".into()));
    if let Got::Ok(p) = load(cx, "8xp", &base[0].1, DM::Pretty) {
        if let Ok(j) = save(cx, &p, "json") {
            base.push(("json".into(), j));
        }
    }
    let base = &base;
    cx.par(base.len(), |i| {
        let (e, b) = &base[i];
        for n in 0..=b.len() {
            survives(cx, e, &b[..n], DMS[n % 3], EMS[n % 3]);
        }
        for o in exts {
            survives(cx, o, b, DM::Accessible, EM::Smart);
        }
    });
    // all lengths of constant files
    cx.par(200, |n| {
        for e in exts {
            for v in [0u8, 0x2A, 0x3F, 0xFF] {
                survives(cx, e, &vec![v; n], DM::Accessible, EM::Smart);
            }
        }
    });
    // lengths around the limits
    let sizes: Vec<usize> = [65450usize, 65500, 65512, 65513, 65514, 65515, 65516, 65517, 65518, 65519, 65520, 65533, 65534, 65535, 65536, 65537, 65600, 131072, 400_000].into_iter().chain(near(500_000)).collect();
    let sizes = &sizes;
    cx.par(sizes.len() * 4, |i| {
        let n = sizes[i / 4];
        match i % 4 {
            3 => survives(cx, "txt", format!("A\n\nProgram\nRAM\naccessible\nlatest\n{}", if n < 70_000 { "1".repeat(n) } else { "1\n".repeat(n / 2) }).as_bytes(), DM::Accessible, EMS[i % 3]),
            k => {
                let f = Spec::new("**TI83F*", 0, vec![0x41; n]).bytes(k > 0);
                survives(cx, ["8xp", "82p", "83p"][k], &f, DM::Accessible, EM::Smart);
                // the same number of bytes in total
                survives(cx, ["8xp", "82p", "83p"][k], &f[..n.min(f.len())], DM::Accessible, EM::Smart);
            }
        }
    });
    for j in ["[".repeat(100_000), "{\"header\":".repeat(50_000), "null".into(), "{}".into(), "{\"header\":{\"bytes\":[]}}".into(), "\u{feff}{}".into()] {
        survives(cx, "json", j.as_bytes(), DM::Accessible, EM::Smart);
    }
    let n = if cx.thorough { 300_000 } else { 12_000 };
    cx.par(n, |i| {
        let mut r = Rng(cx.seed.wrapping_mul(211) ^ (i as u64) << 22);
        let e = *r.pick(&exts);
        let mut b = match (r.below(5), e) {
            (0, _) => {
                let n = r.below(300);
                r.bytes(n)
            }
            (_, "txt") => gen_txt(cx, &mut r).into_bytes(),
            (_, "json") => base.last().unwrap().1.clone(),
            (_, e) => {
                let clean = r.chance(2);
                good_file(cx, &mut r, e != "8xp", clean)
            }
        };
        for _ in 0..r.below(4) {
            if b.is_empty() {
                break;
            }
            let k = r.below(b.len());
            match r.below(6) {
                0 => b.truncate(k),
                1 => b[k] = r.byte(),
                2 => {
                    b.remove(k);
                }
                3 => b.insert(k, r.byte()),
                4 => {
                    let m = (k + r.below(30)).min(b.len());
                    b.drain(k..m);
                }
                _ => b[k] = *r.pick(&[b'\n', b'\r', 0, 0xFF, b'"', b'9', b'-', b'[', 0xC3]),
            }
        }
        let d = *r.pick(&DMS);
        let m = *r.pick(&EMS);
        survives(cx, e, &b, d, m);
        if i % 16 == 0 {
            crate::wire::damaged(cx, e, &b, &mut r);
        }
    });
}
