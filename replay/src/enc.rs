//! Encoding program text.
use crate::calc::*;
use crate::oracle::*;
use crate::{hex, Cx, Rng};
use crate::near;
use serde_json::{json, Value};

fn ix(d: DM) -> usize {
    match d {
        DM::Ti => 0,
        DM::Pretty => 1,
        DM::Accessible => 2,
    }
}
fn txt(m: &str, d: DM, body: &str) -> String {
    format!("AB\n\nProgram\nRAM\n{}\n{}\n{}", d.name(), m, body)
}
/// the lines the body of a text file has, as the encoder is given them
fn lines_of(body: &str) -> Vec<String> {
    let b: Vec<&str> = body.lines().collect();
    theta(&b.join("\n")).lines().map(|x| x.to_string()).collect()
}
/// some lines on which the choice of tokens matters
fn contexts(cx: &Cx, m: &str, d: DM) -> Vec<String> {
    let t = |k: &[u8]| cx.o.tables[m].get(k).map(|x| x[ix(d)].clone()).unwrap_or_default();
    let q = t(&[0x2A]);
    vec![
        "".into(),
        q.clone(),
        format!("{}AB", q),
        t(&[0x5F]),
        t(&[0xEB]),
        format!("{}{}", q, t(&[0x5F])),
        format!("{}{}", t(&[0x5F]), q),
        format!("{}A{}", t(&[0xEB]), q),
        format!("{}{}", t(&[0xE7]), q),
        format!("{}1", q),
        format!("{}{}", t(&[0x5F]), t(&[0x5F])),
    ]
}
/// random text of mostly encodable characters
fn rand_body(cx: &Cx, r: &mut Rng, m: &str, d: DM) -> String {
    let toks: Vec<&[String; 3]> = cx.o.tables[m].values().collect();
    let lead = contexts(cx, m, d);
    let mut t = String::new();
    let n = if r.chance(40) { r.below(2000) } else { r.below(40) };
    for _ in 0..n {
        if let Some(w) = r.text() {
            t += w;
        }
        match r.below(24) {
            0 | 1 => t.push('\n'),
            2 | 3 => t += r.pick(&lead),
            4 => t += "->",
            5 => {
                // a part of a token's text
                let s = &r.pick(&toks)[ix(d)];
                let k = r.below(s.chars().count() + 1);
                t.extend(s.chars().take(k));
            }
            6 if r.chance(3) => t += "\r\n",
            7 if r.chance(3) => t.push(*r.pick(&['\u{0398}', '\u{03F4}', '\u{1DBF}', 'θ'])),
            8 if r.chance(20) => t.push(*r.pick(&['日', '\u{7f}', '\u{1F600}', '\t', '\r', 'é', '~', '`', '\u{2028}', '\u{0}'])),
            9 => t.push((b'A' + r.below(26) as u8) as char),
            10 => t.push((b'a' + r.below(26) as u8) as char),
            _ => t += &r.pick(&toks)[ix(d)],
        }
    }
    t
}
fn config(r: &mut Rng) -> (&'static str, DM) {
    (if r.chance(2) { "latest" } else { r.pick(&MODELS).0 }, *r.pick(&DMS))
}
fn what(text: &str, e: EM) -> Value {
    json!({"text": text.chars().take(3000).collect::<String>(), "encode_mode": format!("{:?}", e)})
}
/// whatever the choice of tokens, the text is rejected
pub fn rejected_by_some(cx: &Cx, m: &str, d: DM, body: &str) -> bool {
    [(EM::Max, true), (EM::Min, true), (EM::Smart, true), (EM::Smart, false)]
        .iter()
        .any(|(e, i)| cx.o.encode(m, d, *e, body, *i).map(|b| b.len() + 19 > 65535).unwrap_or(true))
}

// ------------------------------------------------------------------ C02
fn round(cx: &Cx, m: &str, d: DM, e: EM, body: &str) {
    let t = txt(m, d, body);
    cx.case(format!("{:?}{}", e, t).as_bytes());
    let lines = lines_of(body);
    match load_txt(cx, t.as_bytes(), e) {
        Got::Ok(p) => {
            let nl = cx.o.tables[m].get(&[0x3F][..]).map(|x| x[ix(d)].clone()).unwrap_or("\n".into());
            let want = lines.join(&nl);
            let got = cx.o.decode(m, d, &p.body.bytes);
            if got.as_deref() != Some(&want) {
                let g = got.map(|g| short(&first_diff(&g, &want))).unwrap_or("nothing".into());
                cx.fail(format!("{} {:?} {:?}: the body bytes {} decode to {}", m, d, e, short(&hex(&p.body.bytes)), g), what(&t, e));
            }
        }
        Got::Err(x) => {
            if !rejected_by_some(cx, m, d, &lines.join("\n")) {
                cx.fail(format!("{} {:?} {:?}: rejected although tokens match everywhere: {}", m, d, e, x), what(&t, e));
            }
        }
        Got::Panic(x) => cx.fail(format!("{} {:?} {:?}: panic: {}", m, d, e, x), what(&t, e)),
    }
}
fn first_diff(a: &str, b: &str) -> String {
    let n = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
    let k = n.saturating_sub(10);
    let f = |s: &str| s.chars().skip(k).take(40).collect::<String>();
    format!("…{:?} instead of …{:?}", f(a), f(b))
}
pub fn c02(cx: &Cx) {
    cx.sample("every token of every table in every form and mode, all pairs of tokens, random texts with unencodable characters, empty lines and theta look-alikes".into());
    // every token on its own line
    cx.par(MODELS.len() * 9, |i| {
        let (m, d, e) = (MODELS[i / 9].0, DMS[i % 3], EMS[i / 3 % 3]);
        let b: Vec<&str> = cx.o.tables[m].iter().filter(|(k, _)| **k != [0x3F]).map(|(_, x)| x[ix(d)].as_str()).filter(|x| !x.contains(['\n', '\r'])).collect();
        // texts no token of which remains are encoded one by one
        round(cx, m, d, e, &b.join("\n"));
        if i < 18 || cx.thorough {
            for x in &b {
                round(cx, m, d, e, x);
            }
        }
    });
    // single characters and line structures
    let cs: Vec<char> = (0u32..0x500).chain(0x1D00..0x2400).chain([0x1F600, 0xFEFF]).filter_map(char::from_u32).collect();
    let cs = &cs;
    cx.par(cs.len(), |i| {
        let e = EMS[i / 3 % 3];
        let m = MODELS[i % 7 * 4 % 25].0;
        for (k, b) in [format!("{}", cs[i]), format!("1{}2", cs[i]), format!("\"A{}\n2", cs[i])].iter().enumerate() {
            for n in 0..3 {
                round(cx, if n == k { "latest" } else { m }, DMS[(i + n) % 3], e, b);
            }
        }
    });
    for b in ["", "\n", "\n\n", "\n\n\n", "A", "A\n", "A\n\n", "\nA", "\n\nA\n\n", "\r\n", "A\r\nB\r\n", "A\rB", "A\r", "\r", "A\n\n\nB", "1\n\r\n2", "θ\u{0398}\u{03F4}\u{1DBF}", "A\r\r\nB", "\"\n\"\n\"", "A\n\r\r"] {
        for m in ["latest", "TI-82", "TI-83", "TI-84+"] {
            for d in DMS {
                for e in EMS {
                    round(cx, m, d, e, b);
                }
            }
        }
    }
    // all pairs
    let keys: Vec<&[String; 3]> = cx.o.tables["latest"].iter().filter(|(k, x)| **k != [0x3F] && !x[2].contains('\n')).map(|x| x.1).collect();
    let keys = &keys;
    let configs: Vec<(DM, EM)> = if cx.thorough { DMS.iter().flat_map(|d| EMS.map(|e| (*d, e))).collect() } else { vec![(DMS[cx.seed as usize % 3], EM::Max), (DM::Accessible, EM::Smart), (DM::Accessible, EM::Min)] };
    for (d, e) in configs {
        cx.par(keys.len(), |i| {
            if !cx.thorough && (i + cx.seed as usize) % 6 != 0 {
                return;
            }
            let b: Vec<String> = keys.iter().map(|k| format!("{}{}", keys[i][ix(d)], k[ix(d)])).filter(|x| !x.contains(['\n', '\r'])).collect();
            round(cx, "latest", d, e, &b.join("\n"));
        });
    }
    let n = if cx.thorough { 150_000 } else { 8_000 };
    cx.par(n, |i| {
        let mut r = Rng(cx.seed.wrapping_mul(301) ^ (i as u64) << 22);
        let (m, d) = config(&mut r);
        let b = rand_body(cx, &mut r, m, d);
        round(cx, m, d, *r.pick(&EMS), &b);
    });
    crate::wire::from_text(cx, "C02");
}

// ------------------------------------------------------------------ C03
fn choice(cx: &Cx, m: &str, d: DM, e: EM, body: &str, times: usize) {
    let t = txt(m, d, body);
    let joined = body.lines().collect::<Vec<&str>>().join("\n");
    let ideal = cx.o.encode(m, d, e, &joined, true);
    let actual = cx.o.encode(m, d, e, &joined, false);
    if ideal.as_ref().map_or(0, |b| b.len()) > 65516 || actual.as_ref().map_or(0, |b| b.len()) > 65516 {
        return;
    }
    for _ in 0..times {
        cx.case(format!("{:?}{}", e, t).as_bytes());
        let got = match load_txt(cx, t.as_bytes(), e) {
            Got::Ok(p) => Some(p.body.bytes.clone()),
            Got::Err(_) => None,
            Got::Panic(x) => return cx.fail(format!("{} {:?} {:?}: panic: {}", m, d, e, x), what(&t, e)),
        };
        if got == ideal {
            continue;
        }
        let line = |x: &Option<Vec<u8>>| x.as_ref().map(|b| hex(b)).unwrap_or("rejection".into());
        // the smallest line that shows it
        let mut shown = what(&t, e);
        for l in joined.lines() {
            let (i, a) = (cx.o.encode(m, d, e, l, true), cx.o.encode(m, d, e, l, false));
            if i != a && got == actual {
                shown = json!({"line": l, "encodes": line(&a), "instead of": line(&i)});
                break;
            }
        }
        if got == actual {
            return cx.known("D14", shown);
        }
        let mut why = String::new();
        if let (Some(g), Some(w)) = (&got, &actual) {
            let n = g.iter().zip(w).take_while(|(x, y)| x == y).count();
            let k = n.saturating_sub(6);
            let f = |s: &[u8]| hex(&s[k.min(s.len())..(k + 20).min(s.len())]);
            why = format!(" (at {}: …{} instead of …{})", n, f(g), f(w));
        }
        return cx.fail(format!("{} {:?} {:?}: {} instead of {}{}", m, d, e, short(&line(&got)), short(&line(&actual)), why), what(&t, e));
    }
}
pub fn c03(cx: &Cx) {
    cx.sample("every token of every table after every context (quote, prgm, list name, Send, arrow) in every form and mode, each several times; pairs of tokens; quote, prgm, list name, Send, arrow, letters, names, digits and line ends in every order; random texts".into());
    let reps = if cx.thorough { 6 } else { 2 };
    cx.par(MODELS.len() * 9, |i| {
        let (m, d, e) = (MODELS[(i / 9 + cx.seed as usize) % 25].0, DMS[i % 3], EMS[i / 3 % 3]);
        let b: Vec<&str> = cx.o.tables[m].values().map(|x| x[ix(d)].as_str()).filter(|x| !x.contains(['\n', '\r'])).collect();
        for c in contexts(cx, m, d) {
            // in parts, so that a rejected line hides less
            for (k, part) in b.chunks(60).enumerate() {
                if !cx.thorough && i >= 45 && (k + i) % 4 != 0 {
                    continue;
                }
                let t: Vec<String> = part.iter().map(|x| format!("{}{}", c, x)).collect();
                choice(cx, m, d, e, &t.join("\n"), 1);
            }
        }
        // one rejected line hides the others
        let (good, bad): (Vec<&str>, Vec<&str>) = b.iter().partition(|x| cx.o.encode(m, d, e, x, false).is_some());
        choice(cx, m, d, e, &good.join("\n"), reps);
        for x in bad.iter().skip(i % 7).step_by(if cx.thorough { 1 } else { 7 }) {
            choice(cx, m, d, e, x, 1);
        }
    });
    // an assigned text each time
    cx.par(24, |i| {
        let (d, e) = (DMS[i % 3], EMS[i / 3 % 3]);
        let b: Vec<&str> = cx.o.tables["latest"].values().map(|x| x[ix(d)].as_str()).filter(|x| !x.contains(['\n', '\r'])).collect();
        let good: Vec<&str> = b.iter().copied().filter(|x| cx.o.encode("latest", d, e, x, false).is_some()).collect();
        choice(cx, "latest", d, e, &good.join("\n"), reps * 4);
    });
    let keys: Vec<&[String; 3]> = cx.o.tables["latest"].iter().filter(|(k, x)| **k != [0x3F] && !x[2].contains('\n')).map(|x| x.1).collect();
    let keys = &keys;
    let configs: Vec<(DM, EM)> = if cx.thorough { DMS.iter().flat_map(|d| EMS.map(|e| (*d, e))).collect() } else { vec![(DM::Accessible, EM::Smart), (DM::Accessible, EM::Max), (DM::Accessible, EM::Min)] };
    for (d, e) in configs {
        cx.par(keys.len(), |i| {
            if !cx.thorough && (i + cx.seed as usize) % 8 != 0 {
                return;
            }
            for c in ["", "\""] {
                let b: Vec<String> = keys.iter().map(|k| format!("{}{}{}", c, keys[i][ix(d)], k[ix(d)])).filter(|x| !x.contains(['\n', '\r'])).collect();
                choice(cx, "latest", d, e, &b.join("\n"), 1);
            }
        });
    }
    // the parts a choice can depend on, in every order
    let mut configs = vec![("latest", DM::Accessible, EM::Smart), ("latest", DM::Pretty, EM::Smart)];
    if cx.thorough {
        configs.extend([("TI-83+", DM::Accessible, EM::Smart), ("latest", DM::Ti, EM::Smart), ("latest", DM::Accessible, EM::Min), ("latest", DM::Accessible, EM::Max)]);
    }
    for (k, (m, d, e)) in configs.into_iter().enumerate() {
        let t = |c: &[u8]| cx.o.tables[m].get(c).map(|x| x[ix(d)].clone()).unwrap_or_default();
        let parts: Vec<String> = vec![t(&[0x2A]), t(&[0x5F]), t(&[0xEB]), t(&[0xE7]), t(&[0x04]), " ".into(), "A".into(), t(&[0xC2]), t(&[0x72]), "1".into(), "\n".into()];
        let parts = &parts;
        let n = parts.len();
        // as many in a row as time allows, and some longer ones
        let full: usize = (n + 1).pow(if k == 0 || cx.thorough { 4 } else { 3 });
        let more = if cx.thorough { 60_000 } else { 6_000 };
        cx.par((full + more).div_ceil(200), |c| {
            let mut all = vec![];
            for i in c * 200..((c + 1) * 200).min(full + more) {
                let mut s = String::new();
                if i < full {
                    let mut j = i;
                    for _ in 0..4 {
                        s += parts.get(j % (n + 1)).map(|x| x.as_str()).unwrap_or("");
                        j /= n + 1;
                    }
                } else {
                    let mut r = Rng(cx.seed.wrapping_mul(331) ^ ((i * 64 + k) as u64) << 20);
                    for _ in 0..5 + r.below(6) {
                        s += r.pick(parts);
                    }
                }
                s += &parts[8];
                if cx.o.encode(m, d, e, &s, false).is_some() {
                    all.push(s);
                } else if i % 97 == 0 {
                    choice(cx, m, d, e, &s, 1);
                }
            }
            choice(cx, m, d, e, &all.join("\n"), 1);
        });
    }
    let n = if cx.thorough { 150_000 } else { 8_000 };
    cx.par(n, |i| {
        let mut r = Rng(cx.seed.wrapping_mul(311) ^ (i as u64) << 22);
        let (m, d) = config(&mut r);
        let b = rand_body(cx, &mut r, m, d);
        choice(cx, m, d, *r.pick(&EMS), &b, 1);
    });
    crate::wire::from_text(cx, "C03");
    crate::wire::mass(cx, "C03");
}

// ------------------------------------------------------------------ C05
fn layout(cx: &Cx, content: &[u8], e: EM) {
    cx.case(content);
    let d = json!({"text": String::from_utf8_lossy(&content[..content.len().min(2000)]), "length": content.len(), "encode_mode": format!("{:?}", e)});
    match load_txt(cx, content, e) {
        Got::Ok(p) => {
            let body = p.body.bytes.clone();
            match cx.o.layout_txt(content, e, Some(&body)) {
                None => cx.fail("a text that must be rejected gives a program".into(), d),
                Some(w) => {
                    let g = flat(&p);
                    let mut diff = g.diff(&w);
                    // which bytes the text encodes to is another property
                    diff.retain(|x| !x.starts_with("text:"));
                    if !diff.is_empty() {
                        return cx.fail(format!("the program of a text: {}", diff.join("; ")), d);
                    }
                    let n = crate::hash(content);
                    if n % 4 == 0 {
                        match save(cx, &p, "8xp") {
                            Ok(b) if b == w.save("8xp") => {}
                            Ok(b) => cx.fail(format!("the saved file has {} bytes instead of {} or other content", b.len(), w.save("8xp").len()), d),
                            Err(x) => cx.fail(format!("saving: {}", x), d),
                        }
                    }
                }
            }
        }
        Got::Err(x) => {
            // acceptance of the body is another property
            let head_ok = cx.o.layout_txt(content, e, Some(&[])).is_some();
            if head_ok {
                let s = std::str::from_utf8(content).unwrap();
                let l: Vec<&str> = s.lines().collect();
                let dm = *DMS.iter().find(|d| d.name() == l[4]).unwrap();
                if !rejected_by_some(cx, known_model(l[5]), dm, &l[6.min(l.len())..].join("\n")) {
                    cx.fail(format!("an acceptable text is rejected: {}", x), d);
                }
            }
        }
        Got::Panic(x) => cx.fail(format!("panic: {}", x), d),
    }
}
pub fn c05(cx: &Cx) {
    cx.sample("all combinations of header lines, malformed and missing lines, all name lengths, bodies around the length limits, checksums around 65536".into());
    let names = ["A", "", "ABCDEFGH", "abcdefgh", "Zz", "ABCDEFGHI", "A1", "1", "A B", "é", "ABCDEFGé", "A_", "θ", " A", "A ", "@A", "[", "`", "{"];
    let types = ["Program", "Locked Program", "Group", "Flash Application", "program", "Program ", "", "Picture", "LockedProgram"];
    let dests = ["RAM", "Archive", "ram", "", "Flash", "Archive "];
    let modes = ["accessible", "pretty", "ti", "", "Accessible", "ascii"];
    // each line with every value
    let mut all: Vec<String> = vec![];
    let good = ["AB", "c", "Program", "RAM", "accessible", "latest"];
    fn add(all: &mut Vec<String>, l: &[&str]) {
        for body in ["", "\nDisp 1", "\n", "\n\n1"] {
            all.push(l.join("\n") + body);
        }
    }
    for n in names {
        add(&mut all, &[n, "", good[2], good[3], good[4], good[5]]);
    }
    for t in types {
        for d in dests {
            for m in modes {
                add(&mut all, &[good[0], "x", t, d, m, good[5]]);
            }
        }
    }
    for m in MODELS.iter().map(|m| m.0).chain(["TI-99", "", "latest ", "ti-84+"]) {
        for t in &types[..4] {
            for d in &dests[..2] {
                add(&mut all, &["Prog", "", t, d, "accessible", m]);
            }
        }
    }
    for k in 0..7 {
        all.push(good[..k.min(6)].join("\n"));
        all.push(good[..k.min(6)].join("\n") + "\n");
        all.push(good[..k.min(6)].join("\r\n") + "\r\n");
        let mut x = good.to_vec();
        x.insert(k.min(6), "");
        all.push(x.join("\n") + "\n1");
        if k < 6 {
            let mut x = good.to_vec();
            x.remove(k);
            all.push(x.join("\n") + "\n1\n2");
        }
    }
    for c in ["x".repeat(42), "x".repeat(43), "x".repeat(500), "é".into()] {
        add(&mut all, &["AB", &c, "Program", "RAM", "ti", "TI-83"]);
    }
    let all = &all;
    cx.par(all.len(), |i| layout(cx, all[i].as_bytes(), EMS[i % 3]));
    // lengths: bodies around each limit, light and heavy bytes
    let sizes: Vec<usize> = (0..40).chain(230..262).chain([510, 511, 512, 513, 4095, 4096, 32748, 32749, 32766, 32767, 32768, 65255, 65256, 65278, 65279, 65280, 65514, 65515, 65516, 65517, 65518, 65533, 65534, 65535, 65536, 65537, 70000, 131071, 131072]).chain(near(140_000)).collect();
    let sizes = &sizes;
    cx.par(sizes.len() * 2, |i| {
        let n = sizes[i / 2];
        let t = if i % 2 == 0 { "1".repeat(n) } else { "π".repeat(n) };
        let d = if i % 2 == 0 { DM::Accessible } else { DM::Pretty };
        layout(cx, txt("latest", d, &t).as_bytes(), EM::Max);
        if n > 0 && n < 66000 && i % 2 == 0 {
            // the same with newlines only
            layout(cx, txt("TI-84+", d, &"\n".repeat(n)).as_bytes(), EM::Smart);
        }
    });
    // sums around every multiple of 65536 that fits in some lines
    cx.par(1200, |i| {
        let n = [160usize, 1, 550, 930, 1200][i % 5] + i / 5 % 60;
        let mut r = Rng(i as u64);
        let mut t = "~".repeat(n); // heavy byte
        for _ in 0..r.below(60) {
            t.push('A');
        }
        layout(cx, txt("latest", DM::Accessible, &t).as_bytes(), EM::Max);
    });
    let n = if cx.thorough { 80_000 } else { 5_000 };
    cx.par(n, |i| {
        let mut r = Rng(cx.seed.wrapping_mul(321) ^ (i as u64) << 22);
        let mut t = gen_txt(cx, &mut r).into_bytes();
        if r.chance(3) {
            // damage in the first lines
            let k = r.below(t.len().min(60));
            match r.below(3) {
                0 => t[k] = *r.pick(b"\n A\r1z"),
                1 => {
                    t.remove(k);
                }
                _ => t.insert(k, *r.pick(b"\n A\r1z")),
            }
        }
        layout(cx, &t, *r.pick(&EMS));
    });
    crate::wire::from_text(cx, "C05");
    crate::wire::mass(cx, "C05");
}
