//! Status messages and the token search.
use crate::calc::*;
use crate::cli::*;
use crate::oracle::*;
use crate::{Cx, Rng};
use serde_json::{json, Value};
use std::io::Write;
use std::process::{Command, Stdio};

/// Prints the messages with the tool's macro; the answers, None for a panic
fn print_all(cx: &Cx, msgs: &[String]) -> Option<Vec<Option<String>>> {
    let mut c = Command::new(&cx.styles).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let mut v = vec![];
    for m in msgs {
        v.extend((m.len() as u32).to_le_bytes());
        v.extend(m.as_bytes());
    }
    let mut i = c.stdin.take().unwrap();
    let w = std::thread::spawn(move || {
        let _ = i.write_all(&v);
    });
    let o = c.wait_with_output().ok()?;
    let _ = w.join();
    let s = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut res = vec![];
    let mut rest = s.as_str();
    while let Some(k) = rest.find("\u{1}\u{2}") {
        let text = &rest[..k];
        let after = &rest[k + 2..];
        let e = after.find("\u{3}\n")?;
        res.push(if &after[..e] == "ok" { Some(text.to_string()) } else { None });
        rest = &after[e + 2..];
    }
    Some(res)
}
fn strip(s: &str) -> String {
    // removes the colour sequences
    let mut o = String::new();
    let mut rest = s;
    while let Some(k) = rest.find("\u{1b}[") {
        o += &rest[..k];
        let t = &rest[k + 2..];
        let n = t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len());
        if t[n..].starts_with('m') {
            rest = &t[n + 1..];
        } else {
            o += "\u{1b}[";
            rest = t;
        }
    }
    o + rest
}
const DIRS: [&str; 14] = ["[color:red]", "[color:reset]", "[color:bright-cyan]", "[bg:blue]", "[bg:none]", "[style:bold]", "[style:underline]", "[style:]", "[color:]", "[color:x:y]", "[]", "[:]", "[nothing]", "[other:thing]"];
/// the first piece of text outside brackets that is not printed, in order
fn missing(m: &str, printed: &str) -> Option<String> {
    let (mut m, mut printed) = (m, printed);
    loop {
        let end = m.find('[').unwrap_or(m.len());
        // an opening bracket that is never closed is text too
        let end = if m[end..].contains(']') { end } else { m.len() };
        match printed.find(&m[..end]) {
            Some(k) => printed = &printed[k + end..],
            None => return Some(m[..end].to_string()),
        }
        match m[end..].find(']') {
            Some(k) => m = &m[end + k + 1..],
            None => return None,
        }
    }
}
pub fn c20(cx: &Cx) {
    cx.sample("all strings of up to 4 pieces over brackets, directives, colons and multi-byte characters; long and random messages; commands that print such names, comments and paths".into());
    let plain = ["", "a", "é", "日", "😀", "\u{1b}", "\n", "\0", ":", "]", " x ", "\u{301}", "\r", "{}", "{0}", "%s", "\\", "\"", "\u{feff}", "]:"];
    let mut msgs: Vec<String> = vec![];
    let mut pieces: Vec<&str> = vec!["[", "]", "[é", "é]", "[color:é]", "[[", "]]", "[color:red", "color:red]", "[日:本]", "[a[b]c]", "[bg]", "[color]", "[style]", "[bg:]", "[color:red:x]", ":[", "[color:RED]", "[Color:red]"];
    pieces.extend(DIRS);
    pieces.extend(plain);
    let inside: Vec<String> = crate::words().texts.iter().flat_map(|t| [t.clone(), format!("[{}]", t), format!("[{}", t)]).chain(crate::near(0x10FFFF).iter().filter_map(|n| char::from_u32(*n as u32)).map(String::from)).filter(|t| !t.contains(['\u{1}', '\u{2}'])).take(30).collect();
    pieces.extend(inside.iter().map(|x| x.as_str()));
    for a in &pieces {
        for b in &pieces {
            msgs.push(format!("{}{}", a, b));
            for c in &pieces {
                msgs.push(format!("{}{}{}", a, b, c));
            }
        }
    }
    let mut r = Rng(cx.seed.wrapping_mul(511));
    let n = if cx.thorough { 400_000 } else { 40_000 };
    for _ in 0..n {
        let k = 1 + r.below(9);
        msgs.push((0..k).map(|_| *r.pick(&pieces)).collect());
    }
    for l in [100usize, 1000, 5000].into_iter().chain(crate::near(5000)) {
        for p in ["a", "é", "[", "]", "[]", "日[", "[color:red]x"] {
            msgs.push(p.repeat(l));
        }
    }
    // known directives around plain text: the text comes out in order
    let known = &DIRS[..7];
    let mut mixed: Vec<(String, String)> = vec![];
    for _ in 0..n / 4 {
        let (mut m, mut w) = (String::new(), String::new());
        for _ in 0..1 + r.below(5) {
            m += r.pick(known);
            let t = *r.pick(&["a", "é", "日 本", "x]y", "Successfully", "😀", "\n", ":", "a:b"]);
            m += t;
            w += t;
        }
        mixed.push((m, w));
    }
    let chunks: Vec<&[String]> = msgs.chunks(4000).collect();
    let chunks = &chunks;
    let built = cx.styles.exists();
    if built {
        cx.par(chunks.len(), |i| {
            let c = chunks[i];
            let got = match print_all(cx, c) {
                Some(g) if g.len() == c.len() => g,
                Some(g) => return cx.fail("printing messages ends the program".into(), json!({"message": c.get(g.len())})),
                None => return cx.harness_error("the printing program does not run".into()),
            };
            for (m, g) in c.iter().zip(got) {
                cx.case(m.as_bytes());
                match g {
                    None => cx.fail(format!("printing {:?} panics", short(m)), json!({"message": m})),
                    Some(g) => {
                        if !m.contains('[') && g != format!("{}\u{1b}[0m\n", m) {
                            cx.fail(format!("{:?} is printed as {:?}", short(m), short(&g)), json!({"message": m}));
                        }
                        if let Some(t) = missing(m, &g) {
                            cx.fail(format!("{:?} is printed as {:?} without {:?}", short(m), short(&g), short(&t)), json!({"message": m}));
                        }
                    }
                }
            }
        });
        let chunks: Vec<&[(String, String)]> = mixed.chunks(4000).collect();
        let chunks = &chunks;
        cx.par(chunks.len(), |i| {
            let c: Vec<String> = chunks[i].iter().map(|x| x.0.clone()).collect();
            if let Some(got) = print_all(cx, &c) {
                for ((m, w), g) in chunks[i].iter().zip(got) {
                    cx.case(m.as_bytes());
                    match g {
                        Some(g) if strip(&g) == format!("{}\n", w) => {}
                        g => cx.fail(format!("{:?} is printed as {:?}", short(m), g.map(|x| short(&x))), json!({"message": m})),
                    }
                }
            }
        });
    } else {
        cx.sample("the macro does not compile on its own: only the commands were run".into());
    }
    // through the commands
    let texts: Vec<String> = pieces.iter().flat_map(|a| pieces.iter().map(move |b| format!("{}{}", a, b))).filter(|s| s.len() <= 42 && !s.contains('\0') && !s.is_empty() && !s.starts_with('-')).collect();
    let texts = &texts;
    let file = Spec::new("**TI83F*", 0x0A, vec![0x41, 0x3F, 0x42]).bytes(false);
    let file = &file;
    cx.par(texts.len(), |i| {
        if !cx.thorough && i % 4 != cx.seed as usize % 4 {
            return;
        }
        let t = &texts[i];
        let d = fresh(cx);
        put(&d.join("in.8xp"), file);
        cx.case(format!("comment {}", t).as_bytes());
        let r = run(cx, &d, &["comment", "in.8xp", "-c", t, "-f", "o.8xp"], b"");
        let what = json!({"arguments": ["comment", "in.8xp", "-c", t, "-f", "o.8xp"], "result": r.text(), "stdout": short(&r.out), "stderr": short(&r.err)});
        if !r.ok() {
            cx.fail(format!("setting the comment {:?} ends with {}", t, r.text()), what);
        } else if !t.contains('[') && !r.out.contains(t.as_str()) {
            cx.fail(format!("the message about the comment {:?} does not show it", t), what);
        }
        // as an output path and as a program name
        let n = t.replace(['/', '\n', '\r'], "_");
        let o = format!("{}.txt", n);
        let r = run(cx, &d, &["convert", "in.8xp", "-o", &o], b"");
        let what = json!({"arguments": ["convert", "in.8xp", "-o", o], "result": r.text(), "stdout": short(&r.out), "stderr": short(&r.err)});
        if !r.ok() {
            cx.fail(format!("converting to {:?} ends with {}", o, r.text()), what);
        } else if !o.contains('[') && !r.out.contains(o.as_str()) {
            cx.fail(format!("the message about {:?} does not show it", o), what);
        }
        let mut s = Spec::new("**TI83F*", 0x0A, vec![0x41]);
        s.name = [0; 8];
        for (k, c) in t.chars().take(8).enumerate() {
            s.name[k] = c as u32 as u8;
        }
        put(&d.join("n.8xp"), &s.bytes(false));
        let r = run(cx, &d, &["convert", "n.8xp", "-o", "n.txt"], b"");
        if !r.ok() {
            cx.fail(format!("converting a program named {:?} ends with {}", t, r.text()), json!({"name": t, "stderr": short(&r.err)}));
        }
    });
}

// ------------------------------------------------------------------ C21
fn expected(cx: &Cx, code: &str) -> Option<String> {
    let d = cx.o.defs.get(code)?;
    Some(d.iter().fold("\n".to_string(), |s, (a, b)| s + &format!("syntax: {}\n{}\n\n", a, b)))
}
/// searches without naming the type, and with the long option
fn defaults(cx: &Cx, q: &str) {
    if q.contains('\0') || q.starts_with('-') {
        return;
    }
    let dir = cx.tdir();
    let a = run(cx, &dir, &["search", q, "-t", "accessible"], b"");
    for args in [vec!["search", q], vec!["search", q, "--type", "accessible"]] {
        let b = run(cx, &dir, &args, b"");
        cx.case(format!("{:?}", args).as_bytes());
        if (a.code, &a.out) != (b.code, &b.out) {
            cx.fail(format!("{:?} does not answer as it does for accessible tokens", args), json!({"arguments": args, "result": b.text(), "stdout": short(&b.out), "instead of": short(&a.out)}));
        }
    }
    let a = run(cx, &dir, &["search", q, "-t", "pretty"], b"");
    let b = run(cx, &dir, &["search", q, "--type", "pretty"], b"");
    if (a.code, &a.out) != (b.code, &b.out) {
        cx.fail(format!("searching {:?} with --type pretty does not answer as with -t pretty", q), Value::Null);
    }
}
fn query(cx: &Cx, q: &str, ty: &str) {
    if q.contains('\0') || ["-h", "--help", "--", "-t", "--type"].contains(&q) {
        return;
    }
    let code = match ty {
        "byte" => Some(q.to_string()),
        _ => {
            let d = if ty == "pretty" { DM::Pretty } else { DM::Accessible };
            cx.o.lookup("latest", d).find(q, true).map(|(_, k)| format!("0x{}", crate::hex(k)))
        }
    };
    let want = code.as_ref().and_then(|c| expected(cx, c));
    cx.case(format!("{} {}", ty, q).as_bytes());
    let dir = cx.tdir();
    let r = run(cx, &dir, &["search", q, "-t", ty], b"");
    let what = json!({"arguments": ["search", q, "-t", ty], "result": r.text(), "stdout": short(&r.out), "stderr": short(&r.err), "byte code": code});
    match want {
        Some(w) => {
            if !r.ok() {
                return cx.fail(format!("searching {:?} as {} ends with {}", q, ty, r.text()), what);
            }
            let shown = match r.out.find("\nsyntax: ") {
                Some(k) => &r.out[k..],
                None => "",
            };
            // a warning may come first
            if shown != w && !(r.out.ends_with(&w) && !r.out[..r.out.len() - w.len()].contains("syntax: ")) {
                cx.fail(format!("searching {:?} as {} shows {:?} instead of {:?}", q, ty, short(shown), short(&w)), what);
            }
        }
        None => {
            if r.ok() || r.code.is_none() {
                return cx.fail(format!("searching {:?} as {} finds nothing but ends with {}", q, ty, r.text()), what);
            }
            if r.out.contains("syntax: ") {
                return cx.fail(format!("searching {:?} as {} shows the entry of something else", q, ty), what);
            }
            if r.out.trim().is_empty() && r.err.trim().is_empty() {
                cx.fail(format!("searching {:?} as {} says nothing", q, ty), what);
            }
        }
    }
}
pub fn c21(cx: &Cx) {
    cx.sample("every token of the latest table in accessible and pretty form, every byte code, tokens followed by other text, unknown texts and malformed codes".into());
    let mut qs: Vec<(String, &str)> = vec![];
    for x in cx.o.tables["latest"].values() {
        qs.push((x[2].clone(), "accessible"));
        qs.push((x[1].clone(), "pretty"));
    }
    for k in cx.o.sheet.keys() {
        qs.push((format!("0x{}", crate::hex(k)), "byte"));
    }
    for k in cx.o.defs.keys() {
        qs.push((k.clone(), "byte"));
    }
    for b in 0..=255u32 {
        qs.push((format!("0x{:02X}", b), "byte"));
    }
    // codes that go on, end early or are written differently
    for (i, k) in cx.o.defs.keys().enumerate() {
        if cx.thorough || i % 5 == cx.seed as usize % 5 {
            let tails = ["3F", "56", "0", " ", "00", "zz", "\n", "0x41", "é"];
            qs.push((format!("{}{}", k, tails[i / 5 % tails.len()]), "byte"));
            qs.push((k[..k.len() - 1].to_string(), "byte"));
            qs.push((k.to_lowercase(), "byte"));
            qs.push((format!("0x{}", &k[1..]), "byte"));
            qs.push((format!(" {}", k), "byte"));
        }
    }
    let all: Vec<&[String; 3]> = cx.o.tables["latest"].values().collect();
    let mut r = Rng(cx.seed.wrapping_mul(521));
    let n = if cx.thorough { 20_000 } else { 1_500 };
    for i in 0..n {
        let t = r.pick(&all);
        let u = r.pick(&all);
        let (ty, k) = if i % 2 == 0 { ("accessible", 2) } else { ("pretty", 1) };
        let q = match r.below(6) {
            0 => format!("{}{}", t[k], u[k]),
            1 => format!("{} x", t[k]),
            2 => t[k].to_lowercase(),
            3 => t[k].chars().take(t[k].chars().count() - 1).collect(),
            4 => format!(" {}", t[k]),
            _ => t[3 - k].clone(),
        };
        qs.push((q, ty));
        if i % 6 == 0 {
            qs.push((format!("0x{:04X}", r.below(65536)), "byte"));
        }
    }
    for t in &crate::words().texts {
        for q in [t.clone(), t.to_lowercase(), t.to_uppercase(), format!("{} ", t), format!("0x{}", t)] {
            for ty in ["accessible", "pretty", "byte"] {
                qs.push((q.clone(), ty));
            }
        }
    }
    for n in crate::near(0xFFFFFF) {
        qs.push((format!("0x{:02X}", n), "byte"));
        qs.push((format!("0x{:04X}", n), "byte"));
        qs.push(("A".repeat(n.min(3000)), "accessible"));
        if n < 2000 && n > 2 {
            qs.push((format!("0x{}", "4".repeat(n - 2)), "byte"));
            qs.push((format!("A{}", " ".repeat(n - 1)), "accessible"));
        }
    }
    for q in ["", "日本", "\u{7f}", "0x", "0x1", "0xGG", "0x000000", "BB6D", "$BB$6D", "0X41", "0x4", "x41", "0x41 ", " 0x41", "0x 41", "0x41en"] {
        for t in ["accessible", "pretty", "byte"] {
            qs.push((q.into(), t));
        }
    }
    let qs = &qs;
    cx.par(qs.len(), |i| query(cx, &qs[i].0, qs[i].1));
    cx.par(200, |i| defaults(cx, &qs[(i * 7 + cx.seed as usize) % qs.len()].0));
    // an unknown search type
    let dir = cx.dir.clone();
    let mut kinds: Vec<&str> = vec!["", "Byte", "ti", "other"];
    kinds.extend(crate::words().texts.iter().map(|t| t.as_str()).filter(|t| !t.contains('\0') && !["accessible", "pretty", "byte"].contains(t)));
    for t in kinds {
        let r = run(cx, &dir, &["search", "Disp ", "-t", t], b"");
        if r.ok() || r.out.contains("syntax: ") {
            cx.fail(format!("the search type {:?} is accepted", t), Value::Null);
        }
    }
}
