//! Audits what the contracts assume about the data files and the standard library.  A failed audit is
//! no violation by itself: it makes the proof of this run void, and the evidence says so.
use crate::oracle::MODELS;
use crate::{guard, Cx, Rng};
use serde_json::{json, Value};
use std::path::Path;
use ti_tools::calculator::models::Model;
use ti_tools::calculator::tokens::{load_tokens, OsVersion};


// ax_sheet: what the token sheet looks like
fn sheet(out: &mut Vec<String>) {
    let p = "/repo/src/calculator/tokens/standard_tokens/8X.json";
    let v: Value = match std::fs::read_to_string(p).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => return out.push("ax_sheet: the sheet cannot be parsed".into()),
    };
    let langs = |v: &Value| -> bool {
        v.as_array().is_some_and(|a| {
            a.iter().all(|t| t.get("langs").and_then(|l| l.as_object()).is_some_and(|l| l.len() == 1 && l.contains_key("en")))
        })
    };
    let Some(o) = v.as_object() else { return out.push("ax_sheet: not an object".into()) };
    for (k, v) in o {
        let ok = k.chars().count() == 3
            && match v {
                Value::Array(_) => langs(v),
                Value::Object(n) => n.iter().all(|(j, w)| j.chars().count() == 3 && langs(w)),
                _ => false,
            };
        if !ok {
            out.push(format!("ax_sheet: entry {}", k));
        }
    }
}

// ax_table: every table the tool loads
fn tables(out: &mut Vec<String>) {
    let code = |k: &str| -> Option<Vec<u8>> {
        let c = k.strip_suffix(" en")?;
        let b: Vec<u8> = c.split('$').skip(1).filter_map(|x| u8::from_str_radix(x, 16).ok()).collect();
        let again: String = b.iter().map(|x| format!("${:02X}", x)).collect();
        (again == c && (b.len() == 1 || b.len() == 2)).then_some(b)
    };
    let mut names: Vec<Model> = vec![];
    for n in MODELS {
        names.push(Model::from_string(n.0));
    }
    for m in names {
        let name = m.to_string();
        let t = match guard(|| load_tokens(&OsVersion::new(m, "latest".into())).ok()) {
            Ok(Some(t)) => t.map,
            _ => {
                out.push(format!("ax_table: {} cannot be loaded", name));
                continue;
            }
        };
        if !t.contains_key("$3F en") {
            out.push(format!("ax_table: {} has no newline token", name));
        }
        for (k, x) in &t {
            let texts = [&x.ti_ascii, &x.display, &x.accessible].iter().all(|s| !s.is_empty() && s.len() < 9999 && !s.contains('\r'));
            let codes = match code(k) {
                Some(b) if b.len() == 1 => true,
                Some(b) => !t.contains_key(&format!("${:02X} en", b[0])),
                None => false,
            };
            if !texts || !codes {
                out.push(format!("ax_table: {} entry {}", name, k));
            }
        }
    }
}

// ------------------------------------------------ the specification functions of contracts/00_vx.rs
fn find(s: &[char], p: &[char]) -> Option<usize> {
    if s.starts_with(p) { Some(0) } else if s.is_empty() { None } else { find(&s[1..], p).map(|i| i + 1) }
}
fn split(s: &[char], p: &[char]) -> Vec<Vec<char>> {
    if p.is_empty() {
        let mut v = vec![vec![]];
        v.extend(s.iter().map(|c| vec![*c]));
        v.push(vec![]);
        return v;
    }
    match find(s, p) {
        Some(i) => {
            let mut v = vec![s[..i].to_vec()];
            v.extend(split(&s[i + p.len()..], p));
            v
        }
        None => vec![s.to_vec()],
    }
}
fn lines(s: &[char]) -> Vec<Vec<char>> {
    if s.is_empty() {
        return vec![];
    }
    match find(s, &['\n']) {
        Some(i) => {
            let mut l = s[..i].to_vec();
            if l.last() == Some(&'\r') {
                l.pop();
            }
            let mut v = vec![l];
            v.extend(lines(&s[i + 1..]));
            v
        }
        None => vec![s.to_vec()],
    }
}
fn replace(s: &[char], p: &[char], to: &[char]) -> Vec<char> {
    match find(s, p) {
        Some(i) if !p.is_empty() => {
            let mut v = s[..i].to_vec();
            v.extend(to);
            v.extend(replace(&s[i + p.len()..], p, to));
            v
        }
        _ => s.to_vec(),
    }
}
fn cmp(a: &[char], b: &[char]) -> std::cmp::Ordering {
    a.cmp(b)
}
fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}
fn texts(r: &mut Rng) -> String {
    let a = ['a', 'Z', 'n', '\n', '\r', '.', '/', '[', ']', 'θ', '𝜃', 'é', '\0', ' ', '9', '+', 'ß', '\u{2028}'];
    (0..r.below(9)).map(|_| *r.pick(&a)).collect()
}
// ------------------------------------------------ the specification functions of contracts/05_more.rs
fn ends(s: &[char], p: &[char]) -> bool {
    p.len() <= s.len() && s[s.len() - p.len()..] == *p
}
fn rfind(s: &[char], p: &[char]) -> Option<usize> {
    if ends(s, p) { Some(s.len() - p.len()) } else if s.is_empty() { None } else { rfind(&s[..s.len() - 1], p) }
}
fn splitn(s: &[char], n: usize, p: &[char]) -> Vec<Vec<char>> {
    if n == 0 {
        return vec![];
    }
    match find(s, p) {
        Some(i) if n > 1 => {
            let mut v = vec![s[..i].to_vec()];
            v.extend(splitn(&s[i + p.len()..], n - 1, p));
            v
        }
        _ => vec![s.to_vec()],
    }
}
fn low(s: &[char]) -> Vec<char> {
    s.iter().map(|c| if ('A'..='Z').contains(c) { (*c as u8 + 32) as char } else { *c }).collect()
}
fn dedup(s: &[u8]) -> Vec<u8> {
    if s.len() <= 1 {
        return s.to_vec();
    }
    let mut v = dedup(&s[..s.len() - 1]);
    if s[s.len() - 1] != s[s.len() - 2] {
        v.push(s[s.len() - 1]);
    }
    v
}
fn more(s: &str, p: &str, t: &str, bad: &mut dyn FnMut(&str)) {
    let (sc, pc) = (chars(s), chars(p));
    let at = |k: usize| s.char_indices().nth(k).map_or(s.len(), |x| x.0);
    if s.ends_with(p) != ends(&sc, &pc) {
        bad("ends_with");
    }
    if s.rfind(p) != rfind(&sc, &pc).map(at) {
        bad("rfind");
    }
    if !pc.is_empty() && (0..4).any(|n| s.splitn(n, p).map(chars).collect::<Vec<_>>() != splitn(&sc, n, &pc)) {
        bad("splitn");
    }
    if s.strip_prefix(p).map(chars) != sc.starts_with(&pc).then(|| sc[pc.len()..].to_vec()) {
        bad("strip_prefix");
    }
    if s.strip_suffix(p).map(chars) != ends(&sc, &pc).then(|| sc[..sc.len() - pc.len()].to_vec()) {
        bad("strip_suffix");
    }
    if s.split_once(p).map(|x| (chars(x.0), chars(x.1))) != find(&sc, &pc).map(|i| (sc[..i].to_vec(), sc[i + pc.len()..].to_vec())) {
        bad("split_once");
    }
    if !s.starts_with(s.trim_end()) || !s.ends_with(s.trim_start()) {
        bad("trim_end, trim_start");
    }
    if chars(&s.to_ascii_lowercase()) != low(&sc) || (s.is_ascii() && s.to_lowercase() != s.to_ascii_lowercase()) {
        bad("lower case");
    }
    if s.eq_ignore_ascii_case(t) != (low(&sc) == low(&chars(t))) {
        bad("eq_ignore_ascii_case");
    }
    if s.char_indices().collect::<Vec<_>>() != (0..sc.len()).map(|i| (at(i), sc[i])).collect::<Vec<_>>() {
        bad("char_indices");
    }
    if String::from_utf8_lossy(s.as_bytes()) != s || std::str::from_utf8(s.as_bytes()) != Ok(s) {
        bad("from_utf8");
    }
    let b = s.as_bytes();
    let mut d = b.to_vec();
    d.dedup();
    if d != dedup(b) {
        bad("dedup");
    }
    for n in 1..4usize {
        let c: Vec<&[u8]> = (0..(b.len() + n - 1) / n).map(|i| &b[i * n..((i + 1) * n).min(b.len())]).collect();
        let w: Vec<&[u8]> = (0..if n <= b.len() { b.len() - n + 1 } else { 0 }).map(|i| &b[i..i + n]).collect();
        let k: Vec<u8> = (0..(b.len() + n - 1) / n).map(|i| b[i * n]).collect();
        if b.chunks(n).collect::<Vec<_>>() != c || b.windows(n).collect::<Vec<_>>() != w || b.iter().copied().step_by(n).collect::<Vec<_>>() != k {
            bad("chunks, windows, step_by");
        }
    }
}
fn characters(out: &mut Vec<String>) {
    for n in 0..160u32 {
        let Some(c) = char::from_u32(n) else { continue };
        let (alpha, digit, up, lo) = (c.is_ascii_alphabetic(), c.is_ascii_digit(), ('A'..='Z').contains(&c), ('a'..='z').contains(&c));
        let asc = n < 128;
        let ok = c.is_ascii() == asc
            && (!asc || (c.is_alphabetic() == alpha && c.is_alphanumeric() == (alpha || digit) && c.is_uppercase() == up && c.is_lowercase() == lo))
            && c.is_control() == (n < 32 || (127..160).contains(&n))
            && c.is_ascii_control() == (n < 32 || n == 127)
            && c.is_ascii_whitespace() == [32, 9, 10, 13, 12].contains(&n)
            && c.is_ascii_hexdigit() == (digit || ('a'..='f').contains(&c) || ('A'..='F').contains(&c));
        let b = n as u8;
        let same = !asc || (b.is_ascii_digit() == digit && b.is_ascii_alphabetic() == alpha && b.is_ascii_uppercase() == up && b.is_ascii_lowercase() == lo
            && b.is_ascii_whitespace() == c.is_ascii_whitespace());
        if !ok || !same {
            out.push(format!("character classes of {:?}", c));
        }
    }
    for a in [0u16, 1, 255, 256, 0x1234, 0xFFFF] {
        let le = [(a % 256) as u8, (a / 256) as u8];
        if a.to_be_bytes() != [le[1], le[0]] || u16::from_be_bytes([le[1], le[0]]) != a || a.swap_bytes() != (a % 256) * 256 + a / 256 {
            out.push(format!("byte order of {}", a));
        }
    }
}
fn library(seed: u64, out: &mut Vec<String>) -> u64 {
    let mut r = Rng(seed ^ 0x5EED);
    let n = 4000;
    for _ in 0..n {
        let (s, p, t) = (texts(&mut r), texts(&mut r), texts(&mut r));
        let p: String = p.chars().take(2).collect();
        let (sc, pc, tc) = (chars(&s), chars(&p), chars(&t));
        let mut bad = |what: &str| out.push(format!("{} on {:?} {:?} {:?}", what, s, p, t));
        if s.find(p.as_str()).map(|b| s[..b].chars().count()) != find(&sc, &pc) {
            bad("find");
        }
        if s.contains(p.as_str()) != find(&sc, &pc).is_some() {
            bad("contains");
        }
        if s.starts_with(p.as_str()) != sc.starts_with(&pc) {
            bad("starts_with");
        }
        if s.split(p.as_str()).map(chars).collect::<Vec<_>>() != split(&sc, &pc) {
            bad("split");
        }
        if s.lines().map(chars).collect::<Vec<_>>() != lines(&sc) {
            bad("lines");
        }
        if !p.is_empty() && chars(&s.replace(p.as_str(), &t)) != replace(&sc, &pc, &tc) {
            bad("replace");
        }
        let set = ['θ', 'a'];
        let want: Vec<char> = sc.iter().flat_map(|c| if set.contains(c) { tc.clone() } else { vec![*c] }).collect();
        if chars(&s.replace(set, &t)) != want {
            bad("replace of a set");
        }
        if s.as_str().cmp(t.as_str()) != cmp(&sc, &tc) {
            bad("cmp");
        }
        let up: Vec<char> = sc.iter().map(|c| if c.is_ascii_lowercase() { (*c as u8 - 32) as char } else { *c }).collect();
        if chars(&s.to_ascii_uppercase()) != up {
            bad("to_ascii_uppercase");
        }
        if sc.iter().all(|c| c.is_ascii_alphabetic()) && chars(&s.to_uppercase()) != up {
            bad("to_uppercase");
        }
        if s.bytes().collect::<Vec<u8>>() != s.as_bytes() {
            bad("bytes");
        }
        more(&s, &p, &t, &mut bad);
        // ax_join_child, ax_ext_child
        if Path::new(&s).file_name() == Some(std::ffi::OsStr::new(&s)) {
            let d = Path::new("/some/dir");
            let j = d.join(&s);
            for e in ["txt", "8xp"] {
                let x = j.with_extension(e);
                if j.parent() != Some(d) || j.file_name().is_none() || (x.extension().is_some() && (x.parent() != Some(d) || x.file_name().is_none())) {
                    bad("path axioms");
                }
            }
        }
        if let (Ok(a), Ok(b)) = (std::fs::canonicalize("/"), std::fs::canonicalize("/../.")) {
            if a != b {
                bad("canonicalize");
            }
        }
        let mut v: Vec<u8> = s.bytes().collect();
        let k = r.below(v.len() + 1);
        let j = k + r.below(v.len() - k + 1);
        let w: Vec<u8> = [&v[..k], t.as_bytes(), &v[j..]].concat();
        v.splice(k..j, t.bytes());
        if v != w {
            bad("splice");
        }
    }
    characters(out);
    for b in 0..=255u8 {
        if u8::from_str_radix(&format!("{:02X}", b), 16) != Ok(b) {
            out.push(format!("ax_radix on {}", b));
        }
    }
    n
}

pub fn run(cx: &Cx) -> Value {
    let mut out = vec![];
    sheet(&mut out);
    tables(&mut out);
    let n = library(cx.seed, &mut out);
    out.truncate(20);
    json!({"failures": out, "models": MODELS.len(), "library_cases": n})
}
