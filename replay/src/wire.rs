//! The commands, from the command line to the file they leave behind.
use crate::calc::*;
use crate::cli::*;
use crate::oracle::*;
use crate::{hex, Cx, Rng};
use serde_json::{json, Value};

/// an option in its short or long form
fn opt(r: &mut Rng, short: char, long: &str) -> String {
    if r.chance(2) {
        format!("-{}", short)
    } else {
        format!("--{}", long)
    }
}
/// the groups in any order
fn shuffle(r: &mut Rng, mut g: Vec<Vec<String>>) -> Vec<String> {
    let mut v = vec![];
    while !g.is_empty() {
        let k = r.below(g.len());
        v.extend(g.remove(k));
    }
    v
}
fn calculator_file(cx: &Cx, r: &mut Rng) -> (&'static str, Vec<u8>, Flat) {
    loop {
        let k = r.below(4).min(2);
        let ext = ["83p", "82p", "8xp"][k];
        let clean = r.chance(2);
        let f = good_file(cx, r, k < 2, clean);
        if let Some(w) = cx.o.read(&f, ext, DM::Accessible) {
            return (ext, f, w);
        }
    }
}
/// can be given on the command line, and is not itself an option of the editing commands
fn plain(s: &str) -> bool {
    !s.contains('\0') && !["-n", "-c", "-f", "-d", "--name", "--comment", "--new-file", "--delete-old"].contains(&s)
}
/// `edit` as the user gives it on the command line, on a random file
fn edit(cx: &Cx, r: &mut Rng, e: &Edit) {
    let (ext, file, mut w) = calculator_file(cx, r);
    let mut g: Vec<Vec<String>> = vec![];
    let command = match e {
        Edit::Rename(n) => {
            g.push(vec![opt(r, 'n', "name"), n.clone()]);
            "rename"
        }
        Edit::Comment(c) => {
            g.push(vec![opt(r, 'c', "comment"), c.clone()]);
            "comment"
        }
        Edit::Lock => "lock",
        Edit::Unlock => "unlock",
        Edit::Archive => "archive",
        Edit::Unarchive => "unarchive",
    };
    let input = format!("in.{}", ext);
    let in_place = r.chance(4);
    let out_ext = if in_place { ext } else { *r.pick(&["8xp", "8xp", "82p", "83p", "txt"]) };
    let out = if in_place { input.clone() } else { format!("out.{}", out_ext) };
    let delete = !in_place && r.chance(3);
    if !in_place {
        g.push(vec![opt(r, 'f', "new-file"), out.clone()]);
    }
    if delete {
        g.push(vec![opt(r, 'd', "delete-old")]);
    }
    let mut args = vec![command.to_string(), input.clone()];
    args.extend(shuffle(r, g));
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let d = fresh(cx);
    put(&d.join(&input), &file);
    cx.case(format!("{:?}{}", a, crate::hash(&file)).as_bytes());
    let run = run(cx, &d, &a, b"y\n");
    let fail = |m: String| cx.fail(m, json!({"arguments": a, "input file": hex(&file[..file.len().min(2000)]), "result": run.text(), "stdout": short(&run.out), "stderr": short(&run.err)}));
    let accepted = apply_flat(&mut w, e);
    let there = std::fs::read(d.join(&out)).ok();
    if !accepted {
        if run.ok() || (if in_place { there.as_ref() != Some(&file) } else { there.is_some() }) {
            fail(format!("{:?} must be refused but ends with {} or writes a file", a, run.text()));
        }
        return;
    }
    if !run.ok() {
        return fail(format!("{:?} ends with {}", a, run.text()));
    }
    match there {
        None => fail(format!("{:?} writes no file", a)),
        Some(b) if b == w.save(out_ext) => {}
        Some(b) => {
            let ww = w.save(out_ext);
            let at = b.iter().zip(&ww).position(|(x, y)| x != y);
            fail(format!("{:?} writes {} bytes instead of {}, first difference at {:?}", a, b.len(), ww.len(), at));
        }
    }
}
fn some(cx: &Cx, salt: u64, quick: usize, thorough: usize, f: impl Fn(&mut Rng) + Sync) {
    cx.par(if cx.thorough { thorough } else { quick }, |i| {
        let mut r = Rng(cx.seed.wrapping_mul(salt) ^ (i as u64) << 21);
        f(&mut r);
    });
}
pub fn rename(cx: &Cx) {
    some(cx, 611, 400, 6000, |r| {
        let n = rand_name(r);
        if plain(&n) {
            edit(cx, r, &Edit::Rename(n));
        }
    });
}
pub fn comment(cx: &Cx) {
    some(cx, 613, 400, 6000, |r| {
        let mut n = rand_comment(r);
        if r.chance(4) {
            n.insert_str(0, *r.pick(&["-", "--", " ", "=", "-x ", "--no", "-c ", "--comment=", "\"", "'", "\t"]));
        }
        if plain(&n) {
            edit(cx, r, &Edit::Comment(n));
        }
    });
}
pub fn flags(cx: &Cx) {
    some(cx, 617, 400, 6000, |r| {
        let e = r.pick(&[Edit::Lock, Edit::Unlock, Edit::Archive, Edit::Unarchive]).clone();
        edit(cx, r, &e);
    });
}
/// convert `input` with the given options; the file written
fn convert(cx: &Cx, r: &mut Rng, name: &str, content: &[u8], out: &str, mut g: Vec<Vec<String>>, noise: bool) -> Result<Vec<u8>, (String, Value)> {
    let d = fresh(cx);
    put(&d.join(name), content);
    g.push(vec![opt(r, 'o', "output"), out.to_string()]);
    if noise {
        if r.chance(3) {
            g.push(vec![opt(r, 'p', "preview")]);
        }
        if r.chance(3) {
            g.push(vec![opt(r, 'c', "content")]);
        }
    }
    let mut args = vec!["convert".to_string(), name.to_string()];
    args.extend(shuffle(r, g));
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    cx.case(format!("{:?}{}", a, crate::hash(content)).as_bytes());
    let run = run(cx, &d, &a, b"");
    let what = json!({"arguments": a, "input file": if name.ends_with('p') { hex(&content[..content.len().min(2000)]) } else { String::from_utf8_lossy(&content[..content.len().min(3000)]).into_owned() }, "result": run.text(), "stdout": short(&run.out), "stderr": short(&run.err)});
    match std::fs::read(d.join(out)) {
        Ok(b) if run.ok() => Ok(b),
        Ok(_) => Err((format!("{:?} writes a file but ends with {}", a, run.text()), what)),
        Err(_) if run.ok() => Err((format!("{:?} succeeds without writing {}", a, out), what)),
        Err(_) => Err((format!("{:?} ends with {}", a, run.text()), what)),
    }
}
/// C01, C17: a calculator file as text, in the display form asked for
pub fn as_text(cx: &Cx, whole: bool) {
    some(cx, 619, 300, 5000, |r| {
        let (ext, f, _) = calculator_file(cx, r);
        let m = *r.pick(&[None, Some(DM::Accessible), Some(DM::Pretty), Some(DM::Ti)]);
        let w = match cx.o.read(&f, ext, m.unwrap_or(DM::Accessible)) {
            Some(w) => w,
            None => return,
        };
        let g = match m {
            Some(m) => vec![vec![opt(r, 'd', "display-mode"), m.name().to_string()]],
            None => vec![],
        };
        match convert(cx, r, &format!("in.{}", ext), &f, "out.txt", g, true) {
            Err((m, d)) => cx.fail(m, d),
            Ok(b) => {
                let ok = if whole { b == w.save("txt") } else { b.ends_with(format!("\n{}", w.text).as_bytes()) };
                if !ok {
                    cx.fail(format!("the text written for display form {:?} is {:?} instead of {:?}", m, short(&String::from_utf8_lossy(&b)), short(&String::from_utf8_lossy(&w.save("txt")))), crate::calc::detail(ext, &f));
                }
            }
        }
    });
}
/// C02, C03, C05: a text as calculator file, in the encode mode asked for
pub fn from_text(cx: &Cx, prop: &str) {
    some(cx, 631, 300, 5000, |r| {
        let t = gen_txt(cx, r);
        let m = *r.pick(&[None, Some(EM::Smart), Some(EM::Min), Some(EM::Max)]);
        let e = m.unwrap_or(EM::Smart);
        let g = match m {
            Some(m) => vec![vec![opt(r, 'e', "encode-mode"), format!("{:?}", m).to_lowercase()]],
            None => vec![],
        };
        let want = match cx.o.layout_txt(t.as_bytes(), e, None) {
            Some(w) => w,
            None => return,
        };
        match convert(cx, r, "in.txt", t.as_bytes(), "out.8xp", g, true) {
            Err((m, d)) => cx.fail(m, d),
            Ok(b) => {
                let w = want.save("8xp");
                let ok = match prop {
                    "C03" => b == w,
                    "C02" => b.len() > 76 && cx.o.decode(known_model(&want.model), *DMS.iter().find(|d| d.name() == want.mode).unwrap(), &b[74..b.len() - 2]) == cx.o.decode(known_model(&want.model), *DMS.iter().find(|d| d.name() == want.mode).unwrap(), &want.body) || b == w,
                    _ => b.len() >= 76 && cx.o.layout_txt(t.as_bytes(), e, Some(&b[74..b.len() - 2])).map(|x| x.save("8xp")) == Some(b.clone()),
                };
                if !ok {
                    let at = b.iter().zip(&w).position(|(x, y)| x != y);
                    cx.fail(format!("a text converted in mode {:?} gives {} bytes instead of {}, first difference at {:?}", m, b.len(), w.len(), at), json!({"text": t.chars().take(3000).collect::<String>(), "mode": format!("{:?}", m)}));
                }
            }
        }
    });
}
/// C07, C13: calculator files to calculator files
pub fn same_format(cx: &Cx, short_only: bool) {
    some(cx, 641, 300, 5000, |r| {
        let (ext, f, w) = calculator_file(cx, r);
        let o = if short_only { *r.pick(&["82p", "83p", "8xp"]) } else { "8xp" };
        if !short_only && ext != "8xp" {
            return;
        }
        match convert(cx, r, &format!("in.{}", ext), &f, &format!("out.{}", o), vec![], true) {
            Err((m, d)) => cx.fail(m, d),
            Ok(b) if b == w.save(o) => {}
            Ok(b) => cx.fail(format!("a {} file converted to {} has {} bytes instead of {} or other content", ext, o, b.len(), w.save(o).len()), crate::calc::detail(ext, &f)),
        }
    });
}
/// C14: over json on the command line, any display form, gives the file a direct conversion gives
pub fn via_json(cx: &Cx) {
    some(cx, 643, 250, 4000, |r| {
        let (name, content) = if r.chance(3) {
            ("in.txt".to_string(), gen_txt(cx, r).into_bytes())
        } else {
            let (e, f, _) = calculator_file(cx, r);
            (format!("in.{}", e), f)
        };
        let m = r.pick(&DMS).name().to_string();
        let g = vec![vec![opt(r, 'd', "display-mode"), m]];
        let j = match convert(cx, r, &name, &content, "out.json", g.clone(), true) {
            Ok(j) => j,
            Err(_) if name == "in.txt" => return,
            Err((m, d)) => return cx.fail(m, d),
        };
        for o in ["out.8xp", "out.83p", "out.txt"] {
            if !r.chance(2) {
                continue;
            }
            let direct = convert(cx, r, &name, &content, o, g.clone(), false);
            // options are for the other formats and change nothing here
            let mut h = vec![];
            if r.chance(2) {
                h.push(vec![opt(r, 'd', "display-mode"), r.pick(&DMS).name().to_string()]);
            }
            if r.chance(2) {
                h.push(vec![opt(r, 'e', "encode-mode"), r.pick(&["min", "max", "smart"]).to_string()]);
            }
            let over = convert(cx, r, "prog.json", &j, o, h, true);
            match (direct, over) {
                (Ok(a), Ok(b)) if a == b => {}
                (Ok(_), Ok(_)) => cx.fail(format!("converting to {} over json gives a different file", o), json!({"file": name, "content": hex(&content[..content.len().min(2000)])})),
                (_, Err((m, d))) | (Err((m, d)), _) => cx.fail(m, d),
            }
        }
    });
}
/// C18: damaged files through the commands that read, preview, edit and save them
pub fn damaged(cx: &Cx, ext: &str, content: &[u8], r: &mut Rng) {
    let d = fresh(cx);
    let name = format!("in.{}", ext);
    put(&d.join(&name), content);
    let a: Vec<&str> = match r.below(6) {
        0 => vec!["details", &name],
        1 => vec!["convert", &name, "-p", "-c"],
        2 => vec!["convert", &name, "-p", "-c", "-o", "out.txt"],
        3 => vec!["convert", &name, "-o", "out.83p"],
        4 => vec!["rename", &name, "-n", "ABC", "-f", "out.json"],
        _ => vec!["lock", &name],
    };
    cx.case(format!("{:?}{}", a, crate::hash(content)).as_bytes());
    let run = run(cx, &d, &a, b"y\n");
    if run.code.is_none() || run.code == Some(101) || run.err.contains("panicked at") {
        cx.fail(format!("{:?} on a damaged file ends with {}: {}", a, run.text(), short(&run.err)), crate::calc::detail(ext, content));
    }
}
/// C07, C13: what `details` reports is what the file holds
pub fn details(cx: &Cx, short_only: bool) {
    some(cx, 647, 200, 3000, |r| {
        let (ext, f, w) = calculator_file(cx, r);
        if (ext == "8xp") == short_only {
            return;
        }
        let d = fresh(cx);
        let name = format!("in.{}", ext);
        put(&d.join(&name), &f);
        let a = ["details", name.as_str()];
        cx.case(format!("{:?}{}", a, crate::hash(&f)).as_bytes());
        let run = run(cx, &d, &a, b"");
        let fail = |m: String| cx.fail(m, json!({"file": crate::calc::detail(ext, &f), "result": run.text(), "stdout": short(&run.out), "stderr": short(&run.err)}));
        if !run.ok() {
            return fail(format!("details ends with {}", run.text()));
        }
        let head = format!("{}\n{}\n", w.name, w.comment);
        if !run.out.starts_with(&head) {
            return fail(format!("details does not report the name {:?} and the comment {:?}", w.name, w.comment));
        }
        let lines: Vec<&str> = run.out[head.len()..].lines().map(|l| l.trim()).collect();
        for l in [
            format!("Body Size: {} bytes", w.body.len()),
            format!("model: {}", w.model),
            format!("language: {}", w.language),
            format!("Destination: {}", w.destination),
            format!("File Type: {}", w.file_type),
        ] {
            if !lines.contains(&l.as_str()) {
                return fail(format!("details does not report {:?}", l));
            }
        }
    });
}
/// C07: what `convert --content` shows of a calculator file
pub fn contents(cx: &Cx) {
    some(cx, 653, 150, 2500, |r| {
        let (ext, f, w) = calculator_file(cx, r);
        if ext != "8xp" {
            return;
        }
        let d = fresh(cx);
        put(&d.join("in.8xp"), &f);
        let (c, p) = (opt(r, 'c', "content"), opt(r, 'p', "preview"));
        let mut a = vec!["convert", "in.8xp", c.as_str()];
        let preview = r.chance(2);
        if preview {
            a.insert(r.below(2) + 2, p.as_str());
        }
        cx.case(format!("{:?}{}", a, crate::hash(&f)).as_bytes());
        let run = run(cx, &d, &a, b"");
        let fail = |m: String| cx.fail(m, json!({"arguments": a.join(" "), "file": crate::calc::detail(ext, &f), "result": run.text(), "stdout": short(&run.out), "stderr": short(&run.err)}));
        if !run.ok() {
            return fail(format!("{:?} ends with {}", a, run.text()));
        }
        let shown: String = run.out.replace(", ", " ");
        let words: Vec<&str> = shown.split_whitespace().take(f.len()).collect();
        let want: Vec<String> = f.iter().map(|b| format!("{:02X}", b)).collect();
        if words != want {
            let i = words.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(words.len());
            return fail(format!("{:?} does not show the bytes of the file: byte {} is shown as {:?}", a, i, words.get(i)));
        }
        if preview && !run.out.contains(&format!("{}\n{}\n", w.name, w.comment)) {
            fail(format!("{:?} does not show the name {:?} and the comment {:?}", a, w.name, w.comment));
        }
    });
}
/// several files of all kinds at once: every one gives the file it gives alone
pub fn mass(cx: &Cx, prop: &str) {
    some(cx, 659, 120, 2000, |r| {
        let m = *r.pick(&[None, Some(DM::Accessible), Some(DM::Pretty), Some(DM::Ti)]);
        let e = *r.pick(&[None, Some(EM::Smart), Some(EM::Min), Some(EM::Max)]);
        let (dm, em) = (m.unwrap_or(DM::Accessible), e.unwrap_or(EM::Smart));
        // what is written, and what it has to be
        let mut want: Vec<(String, Box<dyn Fn(&[u8]) -> bool + '_>)> = vec![];
        let mut files: Vec<(String, Vec<u8>)> = vec![];
        let names = ["ALPHA", "B", "CPROGRAM", "DD"];
        for name in &names[..2 + r.below(3)] {
            let kind = match prop {
                "C03" | "C05" => 1,
                "C14" => 2,
                _ => 0,
            };
            // mostly the kind of file the property is about, among others
            let about = !r.chance(4);
            let kind = if about { kind } else { r.below(3) };
            let (file, content) = match kind {
                1 => {
                    let t = gen_txt(cx, r);
                    let t = match t.split_once('\n') {
                        Some((_, t)) => format!("{}\n{}", name, t),
                        None => continue,
                    };
                    match cx.o.layout_txt(t.as_bytes(), em, None) {
                        Some(w) => {
                            let (w, t, layout) = (w.save("8xp"), t.clone(), prop == "C05");
                            want.push((
                                format!("{}.8xp", name),
                                Box::new(move |b| match about {
                                    false => true,
                                    true if layout => b.len() >= 76 && cx.o.layout_txt(t.as_bytes(), em, Some(&b[74..b.len() - 2])).map_or(false, |x| x.save("8xp") == b),
                                    true => b == w,
                                }),
                            ))
                        }
                        None => continue,
                    }
                    (format!("f{}.txt", r.below(1000)), t.into_bytes())
                }
                _ => {
                    let (ext, _, mut w) = calculator_file(cx, r);
                    if !apply_flat(&mut w, &Edit::Rename(name.to_string())) {
                        continue;
                    }
                    let f = w.save(ext);
                    let w = match cx.o.read(&f, ext, dm) {
                        Some(w) => w,
                        None => continue,
                    };
                    let own = |s: Vec<u8>| -> Box<dyn Fn(&[u8]) -> bool> { Box::new(move |b| !about || b == s) };
                    if kind == 2 {
                        let g = vec![vec!["-d".to_string(), dm.name().to_string()]];
                        let x = format!("x.{}", ext);
                        for o in ["txt", "8xp"] {
                            match convert(cx, r, &x, &f, &format!("y.{}", o), g.clone(), false) {
                                Ok(b) => want.push((format!("{}.{}", name, o), own(b))),
                                Err((m, d)) => return cx.fail(m, d),
                            }
                        }
                        match convert(cx, r, &x, &f, "x.json", g, false) {
                            Ok(j) => (format!("g{}.json", r.below(1000)), j),
                            Err((m, d)) => return cx.fail(m, d),
                        }
                    } else {
                        if prop == "C01" {
                            let t = format!("\n{}", w.text);
                            want.push((format!("{}.txt", name), Box::new(move |b| !about || b.ends_with(t.as_bytes()))));
                        } else {
                            want.push((format!("{}.txt", name), own(w.save("txt"))));
                        }
                        (format!("h{}.{}", r.below(1000), ext), f)
                    }
                }
            };
            if files.iter().any(|f| f.0 == file) {
                return;
            }
            files.push((file, content));
        }
        let d = fresh(cx);
        mkdir(&d.join("in"));
        mkdir(&d.join("out"));
        for (f, c) in &files {
            put(&d.join("in").join(f), c);
        }
        let files: Vec<Value> = files.iter().map(|(f, c)| json!({"file": f, "content": if f.ends_with('p') { hex(&c[..c.len().min(1000)]) } else { String::from_utf8_lossy(&c[..c.len().min(1000)]).into_owned() }})).collect();
        if r.chance(2) {
            put(&d.join("in/notes.md"), b"not a program");
        }
        let mut g = vec![vec![opt(r, 'm', "mass")], vec![opt(r, 'o', "output"), "out".to_string()]];
        if let Some(m) = m {
            g.push(vec![opt(r, 'd', "display-mode"), m.name().to_string()]);
        }
        if let Some(e) = e {
            g.push(vec![opt(r, 'e', "encode-mode"), format!("{:?}", e).to_lowercase()]);
        }
        if r.chance(4) {
            g.push(vec![opt(r, 'p', "preview")]);
        }
        let mut args = vec!["convert".to_string(), "in".to_string()];
        args.extend(shuffle(r, g));
        let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
        let before = snap(&d);
        cx.case(format!("{:?}{:?}", a, files).as_bytes());
        let run = run(cx, &d, &a, b"");
        let fail = |m: String| cx.fail(m, json!({"arguments": a, "input files": files, "result": run.text(), "stdout": short(&run.out), "stderr": short(&run.err)}));
        if !run.ok() {
            return fail(format!("mass conversion of {} good files ends with {}", files.len(), run.text()));
        }
        let mut rest = snap(&d);
        for (n, w) in &want {
            let p = d.join("out").join(n);
            match std::fs::read(&p) {
                Ok(b) if w(&b) => {}
                Ok(b) => return fail(format!("mass conversion writes a wrong {}: {}", n, short(&String::from_utf8_lossy(&b)))),
                Err(_) => return fail(format!("mass conversion does not write {}", n)),
            }
            rest.remove(&std::path::PathBuf::from(format!("out/{}", n)));
        }
        if rest != before {
            fail("mass conversion writes more than one file for each program".into());
        }
    });
}
