//! Driving the built command line tool.
use crate::calc::*;
use crate::oracle::*;
use crate::{hex, near, words, Cx, Rng};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
    pub hung: bool,
}
impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn text(&self) -> String {
        if self.hung {
            return "no answer within 20 s".into();
        }
        match self.code {
            Some(c) => format!("exit status {}", c),
            None => format!("signal {:?}", self.signal),
        }
    }
    pub fn success_message(&self) -> bool {
        self.out.contains("Successfully") || self.err.contains("Successfully")
    }
}
static AS_ROOT: AtomicBool = AtomicBool::new(false);
fn as_root() -> bool {
    AS_ROOT.load(Ordering::Relaxed)
}
fn reader(mut s: impl Read + Send + 'static) -> std::thread::JoinHandle<Vec<u8>> {
    std::thread::spawn(move || {
        let mut v = vec![];
        let _ = s.read_to_end(&mut v);
        v
    })
}
/// Runs the tool as an unprivileged user; `blocks`: limit on the size of files it writes, in KiB.
pub fn run_limited(cx: &Cx, cwd: &Path, args: &[&str], stdin: &[u8], blocks: Option<u32>) -> Run {
    let make = |user: bool| {
        let mut c = match blocks {
            None => {
                let mut c = Command::new(&cx.bin);
                c.args(args);
                c
            }
            Some(b) => {
                let mut c = Command::new("bash");
                c.arg("-c").arg(format!("trap '' XFSZ; ulimit -f {}; exec \"$@\"", b)).arg("run").arg(&cx.bin).args(args);
                c
            }
        };
        c.current_dir(cwd).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0");
        if user {
            c.uid(65534).gid(65534);
        }
        c
    };
    let mut child = None;
    if !AS_ROOT.load(Ordering::Relaxed) {
        match make(true).spawn() {
            Ok(c) => child = Some(c),
            Err(_) => AS_ROOT.store(true, Ordering::Relaxed),
        }
    }
    let mut child = child.unwrap_or_else(|| make(false).spawn().expect("the tool cannot be started"));
    let (o, e) = (reader(child.stdout.take().unwrap()), reader(child.stderr.take().unwrap()));
    {
        let mut i = child.stdin.take().unwrap();
        let _ = i.write_all(stdin);
    }
    let t = Instant::now();
    let mut nap = 200;
    let mut hung = false;
    let st = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if t.elapsed() > Duration::from_secs(20) {
            hung = true;
            let _ = child.kill();
            break child.wait().unwrap();
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 3 / 2).min(5000);
    };
    Run {
        code: if hung { None } else { st.code() },
        signal: st.signal(),
        out: String::from_utf8_lossy(&o.join().unwrap()).into(),
        err: String::from_utf8_lossy(&e.join().unwrap()).into(),
        hung,
    }
}
pub fn run(cx: &Cx, cwd: &Path, args: &[&str], stdin: &[u8]) -> Run {
    run_limited(cx, cwd, args, stdin, None)
}

#[derive(Clone, PartialEq, Debug)]
pub enum Entry {
    Dir,
    Link(PathBuf),
    File(Vec<u8>),
}
pub type Snap = BTreeMap<PathBuf, Entry>;
fn walk(root: &Path, d: &Path, s: &mut Snap) {
    for e in std::fs::read_dir(d).unwrap().flatten() {
        let p = e.path();
        let t = std::fs::symlink_metadata(&p).unwrap().file_type();
        let key = p.strip_prefix(root).unwrap().to_path_buf();
        if t.is_symlink() {
            s.insert(key, Entry::Link(std::fs::read_link(&p).unwrap()));
        } else if t.is_dir() {
            s.insert(key, Entry::Dir);
            walk(root, &p, s);
        } else {
            s.insert(key, Entry::File(std::fs::read(&p).unwrap_or_default()));
        }
    }
}
pub fn snap(root: &Path) -> Snap {
    let mut s = Snap::new();
    walk(root, root, &mut s);
    s
}
pub fn changes(a: &Snap, b: &Snap) -> Vec<String> {
    let show = |e: Option<&Entry>| match e {
        None => "missing".to_string(),
        Some(Entry::Dir) => "a directory".into(),
        Some(Entry::Link(t)) => format!("a link to {}", t.display()),
        Some(Entry::File(b)) => format!("{} bytes {}", b.len(), short(&String::from_utf8_lossy(&b[..b.len().min(24)]))),
    };
    let mut v = vec![];
    for k in a.keys().chain(b.keys().filter(|k| !a.contains_key(*k))) {
        if a.get(k) != b.get(k) {
            v.push(format!("{}: {} → {}", k.display(), show(a.get(k)), show(b.get(k))));
        }
    }
    v
}
pub fn put(p: &Path, b: &[u8]) {
    std::fs::write(p, b).unwrap();
    let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o666));
}
pub fn mkdir(p: &Path) {
    std::fs::create_dir_all(p).unwrap();
    let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o777));
}
/// an empty directory of the running thread, some levels below the scratch directory
pub fn fresh(cx: &Cx) -> PathBuf {
    let t = cx.tdir().join("f");
    let _ = std::fs::remove_dir_all(&t);
    let mut d = t;
    mkdir(&d);
    for _ in 0..4 {
        d = d.join("d");
        mkdir(&d);
    }
    d
}
extern "C" {
    fn inotify_init1(flags: i32) -> i32;
    fn inotify_add_watch(fd: i32, path: *const std::ffi::c_char, mask: u32) -> i32;
    fn read(fd: i32, buf: *mut std::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
}
/// the names a command creates, removes, moves or writes to in a directory; empty where they cannot be watched
fn touched(dir: &Path, f: impl FnOnce()) -> Vec<String> {
    let mut names: Vec<String> = vec![];
    unsafe {
        let fd = inotify_init1(0o4000);
        let c = std::ffi::CString::new(dir.to_str().unwrap()).unwrap();
        if fd >= 0 {
            inotify_add_watch(fd, c.as_ptr(), 0x2 | 0x40 | 0x80 | 0x100 | 0x200);
        }
        f();
        if fd >= 0 {
            let mut b = vec![0u8; 1 << 16];
            loop {
                let n = read(fd, b.as_mut_ptr().cast(), b.len());
                if n <= 0 {
                    break;
                }
                let mut i = 0;
                while i + 16 <= n as usize {
                    let l = u32::from_ne_bytes(b[i + 12..i + 16].try_into().unwrap()) as usize;
                    let s = String::from_utf8_lossy(&b[i + 16..i + 16 + l]).trim_end_matches('\0').to_string();
                    if !s.is_empty() && !names.contains(&s) {
                        names.push(s);
                    }
                    i += 16 + l;
                }
            }
            close(fd);
        }
    }
    names
}
fn sample_body() -> Vec<u8> {
    let mut b = vec![0xDE, 0x2A, 0x48, 0x49, 0x2A, 0x3F, 0x31, 0x04, 0x41];
    for _ in 0..200 {
        b.extend([0x3F, 0x41, 0x70, 0x42, 0xBB, 0x6E, 0x2B]);
    }
    b
}
fn calc_file(name: &str, short: bool) -> Vec<u8> {
    let mut s = Spec::new("**TI83F*", 0x0A, sample_body());
    s.name = [0; 8];
    s.name[..name.len().min(8)].copy_from_slice(&name.as_bytes()[..name.len().min(8)]);
    s.bytes(short)
}
fn text_file(name: &str) -> Vec<u8> {
    format!("{}\nabc\nProgram\nRAM\naccessible\nTI-84+\nDisp \"HI\"\n1->A{}", name, "\nA+1->B".repeat(300)).into_bytes()
}
/// a json file of the program, made by the tool
fn json_file(cx: &Cx, name: &str) -> Option<Vec<u8>> {
    let p = match load(cx, "8xp", &calc_file("PROG", false), DM::Accessible) {
        Got::Ok(p) => p,
        _ => return None,
    };
    let j = save(cx, &p, "json").ok()?;
    let mut v: Value = serde_json::from_slice(&j).ok()?;
    *v.get_mut("metadata")?.get_mut("name")? = json!(name);
    serde_json::to_vec(&v).ok()
}
fn describe(args: &[&str], stdin: &[u8]) -> Value {
    json!({"arguments": args, "standard input": String::from_utf8_lossy(stdin)})
}
pub const EDITS: [&str; 6] = ["rename", "comment", "lock", "unlock", "archive", "unarchive"];
fn edit_args(c: &str) -> Vec<String> {
    let mut v = vec![c.to_string()];
    match c {
        "rename" => v.extend(["-n".into(), "NEWNAME".into()]),
        "comment" => v.extend(["-c".into(), "another".into()]),
        _ => {}
    }
    v
}
/// the edit command on `input`; the input is a positional argument right after the command
fn edit_cmd(c: &str, input: &str, new: Option<&str>, delete: bool) -> Vec<String> {
    let mut v = edit_args(c);
    v.insert(1, input.into());
    if let Some(n) = new {
        v.extend(["-f".into(), n.into()]);
    }
    if delete {
        v.push("-d".into());
    }
    v
}
const ANSWERS: [&str; 48] = [
    "y\n", "Y\n", "y", "n\n", "N\n", "\n", "", "yes\n", "no\n", "YES\n", "yy\n", "ny\n", "\ny\n", "1\n", "n\ny\n", "j\ny\n", "y.\n", "-y\n", "'y'\n", "\"Y\"\n", "(y)\n", "[y/N]\n",
    "y/n\n", "y n\n", "n y\n", "y y\n", "yN\n", "Yes\n", "no, y\n", "y!\n", "y?\n", "y\\\n", "\u{ff59}\n", "y\u{301}\n", "\u{fd}\n", "\u{178}\n", "y\0\n", "\0y\n", "\u{feff}y\n", "ay\n", "ja\n", "o\n", "j\n", "s\n", "true\n", "ok\n",
    "0\n", "y,\n",
];
/// file names made of what the program mentions
fn named() -> Vec<String> {
    let mut v: Vec<String> = words().texts.iter().filter(|t| t.len() <= 60 && !t.is_empty() && !t.contains(['/', '\0']) && !t.starts_with(['.', '-'])).cloned().collect();
    v.extend(words().texts.iter().filter(|t| t.len() <= 60 && t.len() > 1 && t.starts_with('.') && !t.contains(['/', '\0']) && !t.contains("..")).map(|t| format!("a{}", t)));
    v.extend(near(120).into_iter().filter(|n| *n > 8).map(|n| "n".repeat(n)));
    v.truncate(40);
    v
}
/// what the program mentions, as an answer
fn replies() -> Vec<String> {
    words().texts.iter().filter(|t| t.len() < 60).take(12).map(|t| format!("{}\n", t)).collect()
}
fn is_yes(a: &str) -> bool {
    let l = a.split('\n').next().unwrap();
    l == "y" || l == "Y"
}

// ------------------------------------------------------------------ C11
pub fn c11(cx: &Cx) {
    cx.sample("convert from every format to every extension, in-place edits, edits to a new file and mass conversion, onto files, links and directories, with every kind of answer; the whole directory is compared".into());
    let json = json_file(cx, "PROG");
    let inputs: Vec<(&str, Vec<u8>)> = vec![("in.8xp", calc_file("PROG", false)), ("in.83p", calc_file("PROG", true)), ("in.82p", calc_file("PROG", true)), ("in.txt", text_file("PROG")), ("in.json", json.clone().unwrap_or_default())];
    let inputs = &inputs;
    let mut outs = vec!["out.8xp", "out.82p", "out.83p", "out.txt", "out.json", "out.xyz", "out", "out.8XP", ".8xp", "out.8xp.bak", "sub/out.txt"];
    let more: Vec<String> = named().iter().flat_map(|n| [format!("{}.8xp", n), format!("{}.txt", n), n.clone()]).filter(|n| !["in.8xp", "in.83p", "in.82p", "in.txt", "in.json", "sub", "target", "other.8xp"].contains(&n.as_str())).take(24).collect();
    outs.extend(more.iter().map(|x| x.as_str()));
    let outs = &outs;
    let said = replies();
    let mut said: Vec<&str> = said.iter().map(|x| x.as_str()).collect();
    said.extend(ANSWERS);
    said.rotate_right(ANSWERS.len());
    let said = &said;
    let good = |o: &str| ["8xp", "82p", "83p", "txt", "json"].iter().any(|e| o.ends_with(&format!(".{}", e))) && o != ".8xp";
    // (arguments, input, output)
    let mut cmds: Vec<(Vec<String>, usize, String)> = vec![];
    for (k, (i, c)) in inputs.iter().enumerate() {
        if c.is_empty() {
            continue;
        }
        for o in outs.iter().copied() {
            cmds.push((vec!["convert".into(), i.to_string(), "-o".into(), o.into()], k, o.into()));
        }
        cmds.push((vec!["convert".into(), i.to_string(), "-o".into(), i.to_string()], k, i.to_string()));
    }
    for c in EDITS {
        for k in 0..3 {
            cmds.push((edit_cmd(c, inputs[k].0, None, false), k, inputs[k].0.into()));
        }
        for o in outs.iter().copied() {
            cmds.push((edit_cmd(c, "in.8xp", Some(o), false), 0, o.into()));
            cmds.push((edit_cmd(c, "in.8xp", Some(o), true), 0, o.into()));
        }
    }
    let cmds = &cmds;
    let kinds = ["absent", "file", "empty file", "link", "directory", "program", "read-only file"];
    let per = kinds.len();
    cx.par(cmds.len() * per, |i| {
        let (args, k, out) = &cmds[i / per];
        let kind = kinds[i % per];
        let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
        let in_place = out == inputs[*k].0;
        if in_place && kind != "file" {
            return;
        }
        // names that appear in the directory while the command works: files of the user may already have them
        let mut others: Vec<String> = vec![];
        let prepare = |exists: bool, others: &[String]| {
            let d = fresh(cx);
            mkdir(&d.join("sub"));
            for o in others {
                put(&d.join(o), b"another file");
            }
            put(&d.join(inputs[*k].0), &inputs[*k].1);
            put(&d.join("other.8xp"), b"other file");
            put(&d.join("target"), b"precious target");
            if exists && !in_place {
                let o = d.join(out);
                match kind {
                    "file" => put(&o, b"precious content"),
                    "empty file" => put(&o, b""),
                    "read-only file" => {
                        put(&o, b"precious content");
                        std::fs::set_permissions(&o, std::os::unix::fs::PermissionsExt::from_mode(0o444)).unwrap();
                    }
                    // what an earlier run may have left there
                    "program" if out.ends_with("json") => put(&o, inputs[4].1.as_slice()),
                    "program" if out.ends_with("txt") => put(&o, &text_file("OLDER")),
                    "program" => put(&o, &calc_file("OLDER", out.ends_with("2p") || out.ends_with("3p"))),
                    "link" => std::os::unix::fs::symlink(d.join("target"), &o).unwrap(),
                    "directory" => {
                        mkdir(&o);
                    }
                    _ => {}
                }
            }
            d
        };
        // what the command writes when nothing is in the way
        let mut expected: Option<Vec<u8>> = None;
        if good(out) {
            let d = prepare(false, &others);
            if in_place {
                // the same edit to a new file
                let n = format!("fresh.{}", out.rsplit('.').next().unwrap());
                let mut v = args.clone();
                if v[0] == "convert" {
                    v[3] = n.clone();
                } else {
                    v.extend(["-f".into(), n.clone()]);
                }
                let v: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
                run(cx, &d, &v, b"");
                expected = std::fs::read(d.join(n)).ok();
            } else {
                run(cx, &d, &a, b"");
                expected = std::fs::read(d.join(out)).ok();
            }
            if expected.is_none() {
                cx.fail(format!("{:?} writes nothing when no file is in the way", a), describe(&a, b""));
                return;
            }
        }
        let d = prepare(true, &others);
        others = touched(&d, || {
            run(cx, &d, &a, b"y\n");
        });
        let o = PathBuf::from(out);
        let beside = o.parent().map_or(false, |p| p.as_os_str().len() > 0);
        if beside {
            let d = prepare(true, &[]);
            let p = o.parent().unwrap().to_str().unwrap().to_string();
            let n = touched(&d.join(&p), || {
                run(cx, &d, &a, b"y\n");
            });
            others.extend(n.iter().map(|x| format!("{}/{}", p, x)));
        }
        others.retain(|x| x != out && x != inputs[*k].0 && !["sub", "target", "other.8xp"].contains(&x.as_str()));
        let others = others;
        for (n, ans) in said.iter().enumerate() {
            // all answers for some commands, the main ones for the others
            if !cx.thorough && n > 3 && (i / per + n) % (if n < 16 { 4 } else { 16 }) != 0 {
                continue;
            }
            if !cx.left() {
                return;
            }
            let d = prepare(true, &others);
            let before = snap(&d);
            cx.case(format!("{:?}{}{}", a, kind, ans).as_bytes());
            let r = run(cx, &d, &a, ans.as_bytes());
            let after = snap(&d);
            let deletes = a.contains(&"-d");
            let fail = |m: String| cx.fail(m, json!({"arguments": a, "standard input": ans, "output path holds": kind, "changes": changes(&before, &after), "result": r.text(), "stdout": short(&r.out), "stderr": short(&r.err)}));
            if kind == "directory" && is_yes(ans) {
                // a directory cannot be replaced: everything else must be as before
                if after.iter().filter(|(p, _)| !p.starts_with(out)).ne(before.iter().filter(|(p, _)| !p.starts_with(out))) {
                    fail("saving over a directory changes something else".into());
                }
                continue;
            }
            let saved = good(out) && (kind == "absent" || is_yes(ans)) ;
            if !saved {
                if before != after {
                    fail(if good(out) { "the user did not say yes, but something changed on disk".into() } else { "the save cannot work, but something changed on disk".to_string() });
                }
                continue;
            }
            let mut want = before.clone();
            want.insert(PathBuf::from(out), Entry::File(expected.clone().unwrap()));
            if deletes && !in_place {
                want.remove(Path::new(inputs[*k].0));
            }
            if after != want {
                let c = changes(&want, &after);
                fail(format!("after a successful save the directory is not as expected: {}", c.join("; ")));
            }
        }
    });
    // mass conversion
    let mass: Vec<(&str, Vec<u8>)> = inputs.iter().filter(|x| !x.1.is_empty()).cloned().collect();
    let mass = &mass;
    let answers: Vec<String> = {
        let l = ["y", "n", "", "Y", "yes"];
        let mut v: Vec<String> = vec!["".into()];
        for a in l {
            for b in l {
                v.push(format!("{}\n{}\n", a, b));
                v.push(format!("{}\n{}\ny\n", a, b));
            }
        }
        v
    };
    let answers = &answers;
    cx.par(mass.len() * 4, |i| {
        let (f, c) = &mass[i / 4];
        let ext = f.rsplit('.').next().unwrap();
        let make = |which: usize| {
            let d = fresh(cx);
            mkdir(&d.join("in"));
            mkdir(&d.join("out"));
            put(&d.join("in").join(f), c);
            put(&d.join("out/OTHER.txt"), b"other");
            if which & 1 != 0 {
                put(&d.join("out/PROG.txt"), b"precious text");
            }
            if which & 2 != 0 {
                put(&d.join("out/PROG.8xp"), b"precious program");
            }
            d
        };
        let a = ["convert", "in", "-o", "out", "-m"];
        let d = make(0);
        let mut names = touched(&d.join("out"), || {
            run(cx, &d, &a, b"");
        });
        names.retain(|x| !x.starts_with("PROG.") && x != "OTHER.txt");
        let reference = snap(&d);
        for ans in answers {
            let d = make(i % 4);
            for x in &names {
                put(&d.join("out").join(x), b"another file");
            }
            let before = snap(&d);
            cx.case(format!("{}{}{}", f, i, ans).as_bytes());
            let r = run(cx, &d, &a, ans.as_bytes());
            let after = snap(&d);
            let mut lines = ans.lines();
            let mut want = before.clone();
            // the files written one after the other; the first refusal ends this program
            let order: &[&str] = match ext {
                "json" => &["out/PROG.txt", "out/PROG.8xp"],
                "txt" => &["out/PROG.8xp"],
                _ => &["out/PROG.txt"],
            };
            for o in order {
                let o = Path::new(o);
                if before.contains_key(o) && !matches!(lines.next(), Some("y") | Some("Y")) {
                    break;
                }
                if let Some(x) = reference.get(o) {
                    want.insert(o.into(), x.clone());
                }
            }
            if want != after {
                cx.fail(format!("mass conversion of {}: {}", f, changes(&want, &after).join("; ")), json!({"arguments": a, "standard input": ans, "changes": changes(&before, &after), "result": r.text()}));
            }
        }
    });
    many(cx);
}
/// mass conversion of several programs at once: every file in the way is asked for on its own
fn many(cx: &Cx) {
    let names = ["PA", "PB", "PC"];
    let l = ["y", "n", "", "Y", "yes", "-y"];
    let mut answers: Vec<Vec<&str>> = vec![vec![]];
    for a in l {
        answers.push(vec![a]);
        for b in l {
            answers.push(vec![a, b]);
            for c in ["y", "n"] {
                answers.push(vec![a, b, c]);
                for d in ["y", "n"] {
                    answers.push(vec![a, b, c, d]);
                    answers.push(vec![a, b, c, d, "y"]);
                }
            }
        }
    }
    let answers = &answers;
    let exts = ["8xp", "83p", "txt"];
    cx.par(exts.len() * 4 * answers.len(), |i| {
        let (e, k) = (exts[i % 3], i / 3 % 4);
        let ans = &answers[i / 12];
        if !cx.left() || (!cx.thorough && ans.len() > 2 && (i / 12 + i) % 2 == 1) {
            return;
        }
        let d = fresh(cx);
        mkdir(&d.join("in"));
        mkdir(&d.join("out"));
        let oe = if e == "txt" { "8xp" } else { "txt" };
        let content = |n: &str| if e == "txt" { text_file(n) } else { calc_file(n, e == "83p") };
        for n in names {
            put(&d.join("in").join(format!("{}.{}", n.to_lowercase(), e)), &content(n));
        }
        // 0: all files are in the way, 1: the second, 2: the first and last, 3: none
        let old = |j: usize| [true, j == 1, j != 1, false][k];
        for (j, n) in names.iter().enumerate() {
            if old(j) {
                put(&d.join(format!("out/{}.{}", n, oe)), b"precious");
            }
        }
        let a = ["convert", "in", "-o", "out", "-m"];
        let mut text = ans.join("\n");
        text.push('\n');
        let before = snap(&d);
        cx.case(format!("{}{}{:?}", e, k, ans).as_bytes());
        let r = run(cx, &d, &a, text.as_bytes());
        let after = snap(&d);
        // which programs are written, for every order in which they may be read
        let mut states: Vec<Vec<bool>> = vec![];
        for o in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
            let mut w = vec![false; 3];
            let mut lines = ans.iter();
            for j in o {
                let yes = |x: Option<&&str>| matches!(x, Some(&"y") | Some(&"Y"));
                if !old(j) || yes(lines.next()) {
                    w[j] = true;
                } else if !yes(lines.next()) {
                    break;
                }
            }
            states.push(w);
        }
        let mut got = vec![false; 3];
        let mut rest = after.clone();
        for (j, n) in names.iter().enumerate() {
            let p = PathBuf::from(format!("out/{}.{}", n, oe));
            got[j] = before.get(&p) != after.get(&p);
            match before.get(&p) {
                Some(x) => rest.insert(p, x.clone()),
                None => rest.remove(&p),
            };
        }
        let what = || json!({"arguments": a, "standard input": text, "programs": names, "changes": changes(&before, &after), "result": r.text(), "stdout": short(&r.out)});
        if rest != before {
            cx.fail("mass conversion changes something else".into(), what());
        } else if !states.contains(&got) {
            cx.fail("mass conversion of several programs replaces files that no answer allowed, or not those that were allowed".into(), what());
        }
    });
    // programs of the same name: the second asks before it replaces the first
    cx.par(20, |i| {
        let d = fresh(cx);
        mkdir(&d.join("in"));
        let e = exts[i % 3];
        let oe = if e == "txt" { "8xp" } else { "txt" };
        for (j, f) in ["x", "y", "z"].iter().enumerate() {
            let c = match e {
                "txt" => format!("SAME\n\nProgram\nRAM\naccessible\nlatest\nDisp {}", j).into_bytes(),
                _ => {
                    let mut s = Spec::new("**TI83F*", 0x0A, vec![0xDE, 0x30 + j as u8]);
                    s.name = *b"SAME\0\0\0\0";
                    s.bytes(e != "8xp")
                }
            };
            put(&d.join("in").join(format!("{}.{}", f, e)), &c);
        }
        let mut got: Vec<Option<Vec<u8>>> = vec![];
        for ans in ["n\ny\nn\ny\n", "y\ny\n"] {
            let o = d.join(format!("out{}", got.len()));
            mkdir(&o);
            let r = run(cx, &d, &["convert", "in", "-o", o.to_str().unwrap(), "-m"], ans.as_bytes());
            cx.case(format!("same name {}{}", e, ans).as_bytes());
            got.push(std::fs::read(o.join(format!("SAME.{}", oe))).ok());
            if got.last().unwrap().is_none() {
                return cx.fail(format!("mass conversion of programs of the same name writes nothing ({})", r.text()), Value::Null);
            }
        }
        if got[0] == got[1] {
            cx.fail("mass conversion of programs of the same name does not ask before it replaces the first".into(), json!({"format": e}));
        }
    });
}

// ------------------------------------------------------------------ C12
pub fn c12(cx: &Cx) {
    cx.sample("every edit command, other and same output path in many spellings (relative, absolute, links), with and without delete-old, every answer, failing saves".into());
    // (input as given, new file as given, the same file)
    let more: Vec<String> = named().iter().flat_map(|n| [format!("{}.8xp", n), format!("sub/{}.8xp", n), n.clone()]).filter(|n| !["directory.8xp", "link.8xp", "link2.8xp", "dangling.8xp", "sub", "sub2", "dirlink"].contains(&n.as_str())).take(60).collect();
    let mut pairs: Vec<(&str, Option<&str>)> = vec![
        ("in.8xp", None),
        ("in.8xp", Some("new.8xp")),
        ("in.8xp", Some("new.83p")),
        ("in.8xp", Some("old.8xp")),
        ("in.8xp", Some("in.8xp")),
        ("in.8xp", Some("./in.8xp")),
        ("in.8xp", Some("sub/../in.8xp")),
        ("./in.8xp", Some("in.8xp")),
        ("sub/../in.8xp", Some(".//in.8xp")),
        ("in.8xp", Some("ABS/in.8xp")),
        ("ABS/in.8xp", Some("in.8xp")),
        ("in.8xp", Some("dirlink/in.8xp")),
        ("dirlink/in.8xp", Some("in.8xp")),
        ("dirlink/in.8xp", Some("ABS/sub/../in.8xp")),
        ("in.8xp", Some("link.8xp")),
        ("link.8xp", Some("in.8xp")),
        ("link.8xp", Some("new.8xp")),
        ("link.8xp", Some("link.8xp")),
        ("link.8xp", Some("./link.8xp")),
        ("link2.8xp", Some("link.8xp")),
        ("in.8xp", Some("hard.8xp")),
        ("hard.8xp", Some("in.8xp")),
        ("in.8xp", Some("sub/in.8xp")),
        ("in.8xp", Some("nodir/new.8xp")),
        ("in.8xp", Some("new.xyz")),
        ("in.8xp", Some("new")),
        ("in.8xp", Some("new.txt")),
        ("in.8xp", Some("new.json")),
        ("in.8xp", Some("directory.8xp")),
        ("in.8xp", Some("dangling.8xp")),
        ("in.83p", Some("in.83p")),
        ("in.83p", Some("./in.83p")),
        ("in.83p", Some("new.83p")),
        ("in.82p", Some("new.8xp")),
        ("bad.8xp", Some("new.8xp")),
        ("sub/in.8xp", Some("sub2/in.8xp")),
        ("sub/in.8xp", Some("in.8xp")),
        ("in.8xp", Some("twin.8xp")),
        ("in.8xp", Some("IN.8xp")),
        ("ABS/sub/in.8xp", Some("sub2/../sub2/new.8xp")),
    ];
    pairs.extend(more.iter().map(|n| ("in.8xp", Some(n.as_str()))));
    let said = replies();
    let mut answers = vec!["y\n", "n\n", "", "Y\n", "yes\n"];
    answers.extend(said.iter().map(|x| x.as_str()));
    let answers = &answers;
    let mut almost: Vec<&str> = words().texts.iter().map(|t| t.as_str()).filter(|t| t.starts_with('-') && !t.contains('\0') && !["-n", "-c", "-f", "-d", "-h", "-V", "--name", "--comment", "--new-file", "--delete-old", "--help", "--version"].contains(t)).collect();
    almost.extend(ALMOST);
    let almost = &almost;
    let limits = [None, Some(0), Some(1)];
    let n = pairs.len();
    let pairs = &pairs;
    cx.par(n * 6 * 2, |i| {
        let (input, new) = pairs[i % n];
        let c = EDITS[i / n % 6];
        let delete = i / n / 6 == 1;
        if delete && new.is_none() {
            return;
        }
        for (k, ans) in answers.iter().enumerate() {
            for lim in limits {
                if lim.is_some() && k > 0 {
                    continue;
                }
                if !cx.left() {
                    return;
                }
                let d = fresh(cx);
                let file = calc_file("PROG", false);
                mkdir(&d.join("sub"));
                put(&d.join("in.8xp"), &file);
                if input.contains("sub/in") {
                    mkdir(&d.join("sub2"));
                    put(&d.join("sub/in.8xp"), &file);
                }
                if new == Some("twin.8xp") {
                    put(&d.join("twin.8xp"), &file);
                }
                put(&d.join("in.83p"), &calc_file("PROG", true));
                put(&d.join("in.82p"), &calc_file("PROG", true));
                put(&d.join("old.8xp"), b"something old");
                put(&d.join("bad.8xp"), b"not a program");
                mkdir(&d.join("directory.8xp"));
                let link = |t: &Path, l: &str| std::os::unix::fs::symlink(t, d.join(l)).unwrap();
                link(Path::new("in.8xp"), "link.8xp");
                link(Path::new("link.8xp"), "link2.8xp");
                link(Path::new("nowhere/x"), "dangling.8xp");
                link(&d, "dirlink");
                if input == "hard.8xp" || new == Some("hard.8xp") {
                    std::fs::hard_link(d.join("in.8xp"), d.join("hard.8xp")).unwrap();
                }
                let abs = |s: &str| s.replace("ABS", d.to_str().unwrap());
                let (inp, nw) = (abs(input), new.map(abs));
                let mut args = edit_cmd(c, &inp, nw.as_deref(), delete);
                if !delete && (i + k) % 2 == 1 {
                    // looks like the option, but is not
                    args.push(almost[(i + k) / 2 % almost.len()].into());
                }
                let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
                let ip = d.join(&inp);
                let before_bytes = std::fs::read(&ip).unwrap();
                let before = snap(&d);
                let same_before = nw.as_ref().map_or(true, |n| matches!((ip.canonicalize(), d.join(n).canonicalize()), (Ok(x), Ok(y)) if x == y));
                cx.case(format!("{:?}{}{:?}", (input, new, c, delete), ans, lim).as_bytes());
                let r = run_limited(cx, &d, &a, ans.as_bytes(), lim);
                let after = snap(&d);
                let fail = |m: String| cx.fail(m, json!({"arguments": a, "standard input": ans, "file size limit": lim, "changes": changes(&before, &after), "result": r.text(), "stdout": short(&r.out), "stderr": short(&r.err)}));
                let np = nw.as_ref().map(|n| d.join(n));
                let input_there = std::fs::symlink_metadata(&ip).is_ok();
                let saved = r.ok() && r.success_message();
                if !saved {
                    if lim.is_some() && same_before {
                        // overwriting a file in place whose write then fails
                        continue;
                    }
                    if !input_there || std::fs::read(&ip).ok() != Some(before_bytes.clone()) {
                        fail(format!("the command did not succeed ({}) but the input file is no longer there unchanged", r.text()));
                    }
                    continue;
                }
                let target = np.clone().unwrap_or(ip.clone());
                let content = std::fs::read(&target);
                if content.as_ref().map_or(true, |b| b.is_empty()) {
                    fail("the command succeeded but the edited program is not at its path".into());
                    continue;
                }
                if !delete && !input_there {
                    fail("the input file is gone without the delete-old option".into());
                }
                if !delete && !same_before && input_there && std::fs::read(&ip).ok() != Some(before_bytes.clone()) && input != "link.8xp" && input != "link2.8xp" {
                    fail("the input file changed although another output path was given".into());
                }
                let same_after = matches!((ip.canonicalize(), target.canonicalize()), (Ok(x), Ok(y)) if x == y);
                if delete && input_there && !same_after {
                    fail("the old file is still there after a successful save with delete-old".into());
                }
                // the program is somewhere, edited
                if target.extension().map_or(false, |e| e == "8xp" || e == "83p") {
                    let ext = target.extension().unwrap().to_str().unwrap();
                    if cx.o.read(&content.unwrap(), ext, DM::Accessible).is_none() {
                        fail("the saved file is not a program".into());
                    }
                }
            }
        }
    });
    deep(cx);
}
/// where the full path of a file is too long to be told, the input must still be kept
fn deep(cx: &Cx) {
    let part = "p".repeat(250);
    let top = fresh(cx);
    let mut a = top.clone();
    for _ in 0..8 {
        a = a.join(&part);
    }
    mkdir(&a);
    if std::os::unix::fs::symlink(&a, top.join("l")).is_err() {
        return;
    }
    let mut d = top.join("l");
    for _ in 0..9 {
        d = d.join(&part);
    }
    mkdir(&d);
    mkdir(&d.join("sub"));
    let file = calc_file("PROG", false);
    for (k, new) in ["in.8xp", "./in.8xp", "sub/../in.8xp", "sub/./../in.8xp", "..//HERE/in.8xp"].iter().enumerate() {
        for (c, ans) in [("rename", "y\n"), ("lock", "y\n"), ("archive", "n\n")] {
            let new = new.replace("HERE", &part);
            put(&d.join("in.8xp"), &file);
            let args = edit_cmd(c, if k == 0 { "./in.8xp" } else { "in.8xp" }, Some(&new), true);
            let args: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
            cx.case(format!("deep {:?}{}", args, ans).as_bytes());
            let r = run(cx, &d, &args, ans.as_bytes());
            let kept = std::fs::read(d.join("in.8xp")).unwrap_or_default();
            if kept.is_empty() || (ans == "n\n" || !r.ok()) && kept != file {
                cx.fail("in a directory with a very long path, the new file is the input file, which is no longer there".into(), json!({"arguments": args, "standard input": ans, "result": r.text(), "stdout": short(&r.out), "stderr": short(&r.err)}));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&top);
}

const ALMOST: [&str; 16] = ["--delete", "--delete-old-file", "--delete-older-than=7", "--delete-old=no", "--delete-ol", "--del", "--d", "-D", "-dd", "-delete-old", "delete-old", "--DELETE-OLD", "--delete_old", "--no-delete-old", "d", "-do"];

// ------------------------------------------------------------------ C19
pub fn c19(cx: &Cx) {
    cx.sample("mass conversion of programs whose internal names hold separators, dots and parent references, from 8xp, 82p, 83p and json files, into existing, new and nested output directories".into());
    let mut parts = vec!["..", ".", "A", "/", "B", "\\", " ", "é", "~", "txt", ".8xp", "\0", "", "sub"];
    parts.extend(words().texts.iter().map(|t| t.as_str()).filter(|t| t.len() <= 8 && !t.is_empty() && !t.starts_with('/') && t.matches("..").count() < 2).take(12));
    let parts = &parts;
    let mut names: Vec<String> = ["../X", "../../A", "..", ".", "A/B", "A/..", "./A", "A/", "..\\A", "A.B", "", " ", "sub/X", "sub/../X", "sub/..", "A/../..", "../out", "../in", "../in/X", "../out2/X", "..//X", ".../X", "./../X", "X/./../..",
        "in", "PROG", "A", "sub", ".txt", "A.txt", "..txt", "A..", "../A.8xp", "X\0", "\0../X", ".\0./X", "../\0X", "sub/\0X", "é", "日", "con", "-", "--", "*"].iter().map(|s| s.to_string()).collect();
    for a in parts.iter() {
        for b in parts.iter() {
            for c in parts.iter() {
                let s = format!("{}{}{}", a, b, c);
                if !s.starts_with('/') && s.matches("..").count() <= 3 {
                    names.push(s);
                }
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    names.retain(|n| seen.insert(n.clone()));
    let mut longer: Vec<String> = ["../../../x", "sub/deeper/x", "ABS/victim/x", "ABS/victim/../x", "ABS/in/x", "ABS/out/sub/x", "ABS/out2/x", "../victim/x.txt", "sub/../../victim/x", "./sub/./x", "looooooooooooooooooooong", "../out/../x"].iter().map(|s| s.to_string()).collect();
    for t in words().texts.iter().filter(|t| t.len() <= 60 && !t.starts_with('/') && !t.contains("..")).take(30) {
        longer.extend([t.clone(), format!("ABS/victim/{}", t), format!("A{}/../../victim/x", t), format!("sub/{}", t)]);
    }
    for n in near(200) {
        longer.push(format!("../{}", "n".repeat(n.max(3) - 3)));
    }
    let total = names.len();
    let (names, longer) = (&names, &longer);
    let base_json = json_file(cx, "PROG");
    let base_json = &base_json;
    let outs = ["out", "./out", "ABS/out", "in/../out", "new", "out/", "dirlink"];
    let one = |i: usize, name: &str, ext: &str, out: &str| {
        if !cx.left() {
            return;
        }
        let d = fresh(cx);
        for x in ["in", "out", "out/A", "out/sub", "out/sub/deeper", "out2", "victim"] {
            mkdir(&d.join(x));
        }
        for v in ["X.txt", "X.8xp", "A.txt", "victim/x.txt", "victim/x.8xp", "in.txt", "out.txt", "../A.txt", "out2/X.txt"] {
            put(&d.join(v), b"precious");
        }
        std::os::unix::fs::symlink(d.join("out"), d.join("dirlink")).unwrap();
        let name = name.replace("ABS", d.to_str().unwrap());
        let f = match ext {
            "json" => {
                let j = base_json.as_ref().unwrap();
                let mut v: Value = serde_json::from_slice(j).unwrap();
                v["metadata"]["name"] = json!(name);
                serde_json::to_vec(&v).unwrap()
            }
            e => {
                // calculator names are single bytes
                let b: Vec<u8> = name.chars().map(|c| c as u32 as u8).take(8).collect();
                let mut s = Spec::new("**TI83F*", 0x0A, sample_body());
                s.name = [0; 8];
                s.name[..b.len()].copy_from_slice(&b);
                s.bytes(e != "8xp")
            }
        };
        put(&d.join("in").join(format!("p.{}", ext)), &f);
        if i % 3 == 1 {
            // it is not the only program
            put(&d.join("in/a.8xp"), &calc_file("GOODA", false));
            put(&d.join("in/z.txt"), &text_file("GOODZ"));
        }
        let outp = out.replace("ABS", d.to_str().unwrap());
        let args = ["convert", "in", "-o", &outp, "-m"];
        let root = d.parent().unwrap().parent().unwrap().parent().unwrap().parent().unwrap();
        let before = snap(root);
        cx.case(format!("{}{}{}", name, ext, out).as_bytes());
        let r = run(cx, &d, &args, "y\n".repeat(8).as_bytes());
        let after = snap(root);
        let rel = d.strip_prefix(root).unwrap();
        let dir = rel.join(if out == "new" { "new" } else { "out" });
        for k in before.keys().chain(after.keys()) {
            if before.get(k) == after.get(k) || (*k == dir && out == "new") {
                continue;
            }
            let inside = k.parent() == Some(&dir) && matches!(after.get(k), Some(Entry::File(_)));
            if !inside {
                return cx.fail(format!("a program named {:?} in a {} file makes mass conversion touch {}", name, ext, k.display()), json!({"arguments": args, "name": name, "file": hex(&f[..f.len().min(90)]), "changes": changes(&before, &after), "result": r.text()}));
            }
        }
        // a plain name is written
        if name == "PROG" || name == "A" {
            let o = dir.join(format!("{}.txt", name));
            if !matches!(after.get(&o), Some(Entry::File(b)) if !b.is_empty()) {
                cx.fail(format!("mass conversion of {} does not write {}", name, o.display()), json!({"arguments": args, "result": r.text(), "stdout": short(&r.out)}));
            }
        }
        if i == 0 {
            cx.sample(format!("{:?} in {}: {}", name, out, r.text()));
        }
    };
    cx.par(total, |i| {
        let exts: &[&str] = if base_json.is_some() { &["8xp", "json", "83p"] } else { &["8xp", "83p"] };
        for (k, e) in exts.iter().enumerate() {
            if i > 60 && !cx.thorough && (i + k + cx.seed as usize) % 3 != 0 {
                continue;
            }
            one(i, &names[i], e, outs[(i + k) % outs.len()]);
        }
    });
    if base_json.is_some() {
        cx.par(longer.len() * outs.len(), |i| one(i + 1, &longer[i / outs.len()], "json", outs[i % outs.len()]));
    }
    if cx.thorough {
        cx.par(20_000, |i| {
            let mut r = Rng(cx.seed.wrapping_mul(411) ^ (i as u64) << 22);
            let mut s: String = (0..1 + r.below(6)).map(|_| *r.pick(parts)).collect();
            while s.starts_with('/') {
                s.remove(0);
            }
            if s.matches("..").count() > 3 {
                return;
            }
            let e = *r.pick(&["8xp", "json", "83p", "82p"]);
            if e == "json" && base_json.is_none() {
                return;
            }
            let s = if e == "json" { s } else { s.chars().take(8).collect() };
            one(i + 1, &s, e, *r.pick(&outs));
        });
    }
}

// ------------------------------------------------------------------ C22
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Fail,
    Done,
    Declined,
    /// the command may refuse either way, but must not claim success
    Refused,
}
pub fn c22(cx: &Cx) {
    use Want::*;
    cx.sample("every command with good and bad inputs, option values, output paths, failing writes and every answer".into());
    let mut cs: Vec<(Vec<String>, &str, Want, Option<&str>, Option<u32>)> = vec![];
    let v = |s: &str| -> Vec<String> { s.split(' ').filter(|x| !x.is_empty()).map(|x| x.replace("<SP>", " ").replace("<NONE>", "")).collect() };
    let goods = ["in.8xp", "in.82p", "in.83p", "in.txt", "in.json"];
    let bads = ["missing.8xp", "missing.txt", "missing.json", "missing", "empty.8xp", "empty.83p", "empty.txt", "empty.json", "cut.8xp", "cut.83p", "undecodable.8xp", "undecodable.83p", "product.8xp", "type.8xp", "dest.8xp", "unencodable.txt",
        "noheader.txt", "badtype.txt", "badname.txt", "latin1.txt", "broken.json", "other.json", "in.xyz", "noext", "sub", "sub.8xp"];
    for i in goods {
        for o in ["o.8xp", "o.82p", "o.83p", "o.txt", "o.json", "sub/o.txt", "./o.8xp"] {
            cs.push((v(&format!("convert {} -o {}", i, o)), "", Done, Some(o), None));
            cs.push((v(&format!("convert {} -o {} -p -c", i, o)), "", Done, Some(o), None));
            cs.push((v(&format!("convert {} -d pretty -o {}", i, o)), "", Done, Some(o), None));
            // a failing write
            cs.push((v(&format!("convert {} -o {}", i, o)), "", Fail, None, Some(0)));
            cs.push((v(&format!("convert {} -o nodir/{}", i, o)), "", Fail, None, None));
        }
        cs.push((v(&format!("convert {} -o o.8xp", i)), "", Fail, None, Some(1)));
        for o in ["old.8xp", "old.txt", "old.json", "link.8xp"] {
            cs.push((v(&format!("convert {} -o {}", i, o)), "y\n", Done, Some(o), None));
            cs.push((v(&format!("convert {} -o {}", i, o)), "n\n", Declined, None, None));
            cs.push((v(&format!("convert {} -o {}", i, o)), "", Declined, None, None));
            cs.push((v(&format!("convert {} -o {}", i, o)), "y\n", Fail, None, Some(0)));
        }
        for o in ["dir.8xp", "dir.txt"] {
            cs.push((v(&format!("convert {} -o {}", i, o)), "y\n", Fail, None, None));
            cs.push((v(&format!("convert {} -o {}", i, o)), "n\n", Declined, None, None));
        }
        for o in ["o.xyz", "o", "o.8XP", ".8xp", "dangling.8xp", "old.xyz", "in.8xp/o.txt", "o.8xp/"] {
            if o == "o.8xp/" {
                continue;
            }
            cs.push((v(&format!("convert {} -o {}", i, o)), "y\n", Fail, None, None));
        }
        cs.push((v(&format!("convert {}", i)), "", Fail, None, None));
        for w in ["-p", "-c", "-p -c"] {
            cs.push((v(&format!("convert {} {}", i, w)), "", Done, None, None));
        }
        for w in ["-d bad", "-d Pretty", "-d <NONE>", "-e bad", "-e Smart", "-e <NONE>", "-d ACCESSIBLE", "--display-mode ti<SP>", "--encode-mode <SP>min", "--encode-mode x"] {
            cs.push((v(&format!("convert {} -o o.8xp {}", i, w)), "", Fail, None, None));
            for q in ["-p", "-c", "-c -p"] {
                cs.push((v(&format!("convert {} {} {}", i, q, w)), "", Fail, None, None));
                cs.push((v(&format!("convert {} {} {} -o o.txt", i, w, q)), "", Fail, None, None));
            }
        }
        for (w, m) in [("-d ti", "o.txt"), ("-d accessible", "o.8xp"), ("-e min", "o.8xp"), ("-e max", "o.8xp"), ("-e smart", "o.txt")] {
            cs.push((v(&format!("convert {} -o {} {}", i, m, w)), "", Done, Some(m), None));
        }
        // not a directory
        cs.push((v(&format!("convert {} -o out -m", i)), "", Fail, None, None));
    }
    for i in bads {
        for o in ["o.8xp", "o.txt", "o.json", "old.8xp"] {
            cs.push((v(&format!("convert {} -o {}", i, o)), "y\n", Fail, None, None));
        }
        for q in ["-p", "-c", "-p -c", "--preview", "--content", "-c -o o.83p", "-p -o o.json", "--content --preview --output o.txt"] {
            cs.push((v(&format!("convert {} {}", i, q)), "", Fail, None, None));
        }
        for c in EDITS {
            cs.push((edit_cmd(c, i, None, false), "y\n", Fail, None, None));
            cs.push((edit_cmd(c, i, Some("o.8xp"), false), "y\n", Fail, None, None));
            cs.push((edit_cmd(c, i, Some("o.8xp"), true), "y\n", Fail, None, None));
        }
        cs.push((v(&format!("details {}", i)), "", Fail, None, None));
    }
    for c in EDITS {
        for i in &goods[..3] {
            cs.push((edit_cmd(c, i, None, false), "y\n", Done, Some(i), None));
            cs.push((edit_cmd(c, i, None, false), "n\n", Declined, None, None));
            cs.push((edit_cmd(c, i, None, false), "", Declined, None, None));
            for o in ["o.8xp", "o.83p", "o.txt", "o.json", "sub/o.8xp"] {
                cs.push((edit_cmd(c, i, Some(o), false), "", Done, Some(o), None));
                cs.push((edit_cmd(c, i, Some(o), true), "", Done, Some(o), None));
                cs.push((edit_cmd(c, i, Some(o), false), "", Fail, None, Some(0)));
                cs.push((edit_cmd(c, i, Some(o), true), "", Fail, None, Some(0)));
            }
            for o in ["old.8xp", "old.json", "link.8xp"] {
                cs.push((edit_cmd(c, i, Some(o), true), "y\n", Done, Some(o), None));
                cs.push((edit_cmd(c, i, Some(o), false), "n\n", Declined, None, None));
                cs.push((edit_cmd(c, i, Some(o), true), "n\n", Declined, None, None));
            }
            for o in ["o.xyz", "o", "nodir/o.8xp", "dangling.8xp", "old.xyz"] {
                cs.push((edit_cmd(c, i, Some(o), false), "y\n", Fail, None, None));
                cs.push((edit_cmd(c, i, Some(o), true), "y\n", Fail, None, None));
            }
            cs.push((edit_cmd(c, i, Some("dir.8xp"), true), "y\n", Fail, None, None));
            // delete-old needs a new file
            cs.push((edit_cmd(c, i, None, true), "y\n", Fail, None, None));
        }
        // these read calculator files only
        cs.push((edit_cmd(c, "in.txt", Some("o.8xp"), false), "", Fail, None, None));
        cs.push((edit_cmd(c, "in.json", Some("o.8xp"), false), "", Fail, None, None));
        cs.push((vec![c.into()], "", Fail, None, None));
    }
    for t in words().texts.iter().filter(|t| !t.contains('\0')) {
        for (o, ok) in [("-d", ["ti", "pretty", "accessible"]), ("-e", ["smart", "min", "max"])] {
            if !ok.contains(&t.as_str()) && !t.starts_with('-') {
                for i in goods {
                    cs.push((vec!["convert".into(), i.into(), "-o".into(), "o.txt".into(), o.into(), t.clone()], "", Fail, None, None));
                    cs.push((vec!["convert".into(), i.into(), "-p".into(), o.into(), t.clone()], "", Fail, None, None));
                }
            }
        }
        if t.starts_with('-') {
            continue;
        }
        if t.len() > 42 {
            cs.push((vec!["comment".into(), "in.8xp".into(), "-c".into(), t.clone(), "-f".into(), "o.8xp".into()], "", Fail, None, None));
        }
        if !t.is_empty() && (t.chars().count() > 8 || !t.chars().all(|c| c.is_ascii_alphabetic())) {
            cs.push((vec!["rename".into(), "in.8xp".into(), "-n".into(), t.clone(), "-f".into(), "o.8xp".into()], "", Fail, None, None));
        }
    }
    let names: Vec<String> = named();
    for n in names.iter().filter(|n| !n.contains(' ') && !["in", "old", "link", "dangling", "sub", "dir"].contains(&n.as_str())) {
        for (k, i) in goods.iter().enumerate() {
            let o: &'static str = Box::leak(format!("{}.{}", n, ["txt", "8xp", "json"][k % 3]).into_boxed_str());
            cs.push((v(&format!("convert {} -o {}", i, o)), "", Done, Some(o), None));
            cs.push((v(&format!("convert {} -o {}", i, o)), "", Fail, None, Some(0)));
        }
        for c in EDITS {
            let o: &'static str = Box::leak(format!("{}.8xp", n).into_boxed_str());
            cs.push((edit_cmd(c, "in.8xp", Some(o), true), "", Done, Some(o), None));
        }
    }
    for n in near(500).into_iter().filter(|n| *n > 0) {
        cs.push((v(&format!("comment in.8xp -c {} -f o.8xp", "x".repeat(n))), "y\n", if n > 42 { Fail } else { Done }, if n > 42 { None } else { Some("o.8xp") }, None));
        if n > 8 {
            cs.push((v(&format!("rename in.8xp -n {} -f o.8xp", "x".repeat(n))), "y\n", Fail, None, None));
        }
    }
    for n in ["ABCDEFGHI", "A1", "é", "A<SP>B", "_", "1"] {
        cs.push((v(&format!("rename in.8xp -n {}", n)), "y\n", Fail, None, None));
        cs.push((v(&format!("rename in.8xp -n {} -f o.8xp", n)), "y\n", Fail, None, None));
        cs.push((v(&format!("rename in.8xp -n {} -f o.8xp -d", n)), "y\n", Fail, None, None));
    }
    for n in ["ABCDEFGH", "a", "Zz"] {
        cs.push((v(&format!("rename in.8xp -n {} -f o.8xp", n)), "", Done, Some("o.8xp"), None));
    }
    for (n, w) in [(43usize, Fail), (42, Done), (100, Fail), (1, Done)] {
        cs.push((v(&format!("comment in.8xp -c {} -f o.8xp", "x".repeat(n))), "y\n", w, if w == Done { Some("o.8xp") } else { None }, None));
    }
    cs.push((v(&format!("comment in.8xp -c {} -f o.8xp", "é".repeat(22))), "y\n", Fail, None, None));
    cs.push((v("rename in.8xp"), "y\n", Fail, None, None));
    cs.push((v("comment in.8xp"), "y\n", Fail, None, None));
    for i in &goods[..3] {
        cs.push((v(&format!("details {}", i)), "", Done, None, None));
    }
    for k in 0..9 {
        cs.push((v(&format!("details odd{}.8xp", k)), "", Done, None, None));
        cs.push((v(&format!("convert odd{}.8xp -p -c -o o.txt", k)), "", Done, Some("o.txt"), None));
        cs.push((v(&format!("archive odd{}.8xp -f o.83p", k)), "", Done, Some("o.83p"), None));
    }
    for i in ["in.txt", "in.json"] {
        cs.push((v(&format!("details {}", i)), "", Fail, None, None));
    }
    for c in ["convert", "details", "nonsense", "Convert"] {
        cs.push((v(c), "", Fail, None, None));
    }
    // mass conversion
    cs.push((v("convert mass -o out -m"), "", Done, Some("out/PROG.txt"), None));
    cs.push((v("convert mass -m -o out"), "", Done, Some("out/TEXT.8xp"), None));
    cs.push((v("convert mass -m -o newout"), "y\n", Done, Some("newout/JSON.8xp"), None));
    cs.push((v("convert mass -m -o newout"), "n\n", Refused, None, None));
    cs.push((v("convert mass -m -o newout"), "", Refused, None, None));
    cs.push((v("convert mass -m"), "", Fail, None, None));
    cs.push((v("convert missing -m -o out"), "", Fail, None, None));
    cs.push((v("convert massbad -m -o out"), "", Fail, None, None));
    cs.push((v("convert massbadtxt -m -o out"), "", Fail, None, None));
    cs.push((v("convert massbadjson -m -o out"), "", Fail, None, None));
    cs.push((v("convert mass -m -o out -d bad"), "", Fail, None, None));
    cs.push((v("convert mass -m -o out -e bad"), "", Fail, None, None));
    cs.push((v("convert mass -m -p"), "", Done, None, None));
    cs.push((v("convert mass1 -m -o outfull"), "n\nn\n", Declined, None, None));
    cs.push((v("convert mass -o out"), "", Fail, None, None));
    cs.push((v("convert massname -m -o out"), "", Refused, None, None));
    // the old file cannot be deleted
    for c in EDITS {
        for o in ["o.8xp", "sub/o.8xp", "old.8xp"] {
            cs.push((edit_cmd(c, "ro/in.8xp", Some(o), true), "y\n", Fail, Some("ro"), None));
            cs.push((edit_cmd(c, "ro/in.8xp", Some(o), false), "y\n", Done, Some(o), None));
        }
        cs.push((edit_cmd(c, "in.8xp", Some("ro/o.8xp"), true), "y\n", Fail, Some("ro"), None));
    }
    let json = json_file(cx, "JSON");
    run(cx, &fresh(cx), &["models"], b""); // settles which user the commands run as
    let total = cs.len();
    let cs = &cs;
    cx.par(total, |i| {
        let (args, ans, want, out, lim) = &cs[i];
        if *out == Some("ro") && as_root() {
            return;
        }
        if json.is_none() && args.iter().any(|a| a == "in.json" || a == "mass") {
            return;
        }
        let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
        let d = fresh(cx);
        let g = calc_file("PROG", false);
        for x in ["sub", "sub.8xp", "dir.8xp", "dir.txt", "out", "mass", "massbad", "massbadtxt", "massbadjson", "mass1", "outfull", "massname"] {
            mkdir(&d.join(x));
        }
        let w = |p: &str, b: &[u8]| put(&d.join(p), b);
        mkdir(&d.join("ro"));
        w("ro/in.8xp", &g);
        std::fs::set_permissions(d.join("ro"), std::fs::Permissions::from_mode(0o555)).unwrap();
        w("in.8xp", &g);
        w("in.82p", &calc_file("PROG", true));
        w("in.83p", &calc_file("PROG", true));
        w("in.txt", &text_file("TEXT"));
        w("in.json", json.as_deref().unwrap_or(b""));
        w("in.xyz", &g);
        w("noext", &g);
        for e in ["8xp", "83p", "txt", "json"] {
            w(&format!("empty.{}", e), b"");
        }
        w("cut.8xp", &g[..70]);
        w("cut.83p", &calc_file("PROG", true)[..60]);
        let mut s = Spec::new("**TI83F*", 0x0A, vec![0x41, 0xBB, 0xFF, 0x41]);
        w("undecodable.8xp", &s.bytes(false));
        w("undecodable.83p", &s.bytes(true));
        w("massbad/x.8xp", &s.bytes(false));
        s.body = vec![0x41];
        s.id = 0x77;
        w("product.8xp", &s.bytes(false));
        s.id = 0x0A;
        // names and comments in which every character takes two bytes, from some position on
        let (name, comment) = (s.name, s.comment);
        for k in 0..9 {
            s.name = std::array::from_fn(|n| if n < k { 0x41 } else { 0xC8 + n as u8 });
            s.comment = std::array::from_fn(|n| if n < k { 0x42 } else { 0x95 + n as u8 });
            w(&format!("odd{}.8xp", k), &s.bytes(false));
        }
        (s.name, s.comment) = (name, comment);
        s.ftype = 0x01;
        w("type.8xp", &s.bytes(false));
        s.ftype = 0x05;
        s.dest = 0x01;
        w("dest.8xp", &s.bytes(false));
        w("unencodable.txt", "AB\n\nProgram\nRAM\naccessible\nlatest\n1\n日\n2".as_bytes());
        w("massbadtxt/x.txt", "AB\n\nProgram\nRAM\naccessible\nlatest\n1\n日\n2".as_bytes());
        w("noheader.txt", b"AB\n\nProgram\nRAM\n");
        w("badtype.txt", b"AB\n\nProgramm\nRAM\naccessible\nlatest\n1");
        w("badname.txt", b"A1\n\nProgram\nRAM\naccessible\nlatest\n1");
        w("latin1.txt", b"AB\n\nProgram\nRAM\naccessible\nlatest\n\xE9");
        w("broken.json", b"{\"header\":");
        w("massbadjson/x.json", b"{\"header\":");
        w("other.json", b"{\"a\": [1, 2]}");
        w("old.8xp", b"old");
        w("old.txt", b"old");
        w("old.json", b"old");
        w("old.xyz", b"old");
        w("target", b"target");
        std::os::unix::fs::symlink("target", d.join("link.8xp")).unwrap();
        std::os::unix::fs::symlink("nowhere/x", d.join("dangling.8xp")).unwrap();
        w("mass/a.8xp", &g);
        w("mass/b.txt", &text_file("TEXT"));
        w("mass/c.json", json.as_deref().unwrap_or(b""));
        w("mass/d.other", b"ignored");
        w("mass1/a.8xp", &g);
        w("outfull/PROG.txt", b"old");
        w("massname/a.8xp", &calc_file("../X", false));
        cx.case(format!("{:?}{}{:?}", a, ans, lim).as_bytes());
        let before = snap(&d);
        let r = run_limited(cx, &d, &a, ans.as_bytes(), *lim);
        let after = snap(&d);
        let fail = |m: String| cx.fail(m, json!({"arguments": a, "standard input": ans, "file size limit": lim, "changes": changes(&before, &after), "result": r.text(), "stdout": short(&r.out), "stderr": short(&r.err)}));
        if r.code.is_none() {
            return fail(format!("{:?} ends with {}", a, r.text()));
        }
        match want {
            Done => {
                if !r.ok() {
                    return fail(format!("{:?} fails with {}", a, r.text()));
                }
                if let Some(o) = out.map(|o| o.trim_start_matches("./")) {
                    if before.get(Path::new(o)) == after.get(Path::new(o)) && !(a[0] != "rename" && a[0] != "comment" && after.get(Path::new(o)).is_some() && o.starts_with("in.")) || std::fs::read(d.join(o)).map_or(true, |b| b.is_empty()) {
                        return fail(format!("{:?} reports success but did not write {}", a, o));
                    }
                    if !r.success_message() {
                        return fail(format!("{:?} says nothing about its success", a));
                    }
                }
            }
            Fail => {
                if r.ok() {
                    return fail(format!("{:?} cannot do what was asked but exits with status zero", a));
                }
                if r.success_message() {
                    return fail(format!("{:?} fails but prints a success message", a));
                }
                if (r.out.trim().len() + r.err.trim().len()) == 0 {
                    return fail(format!("{:?} fails without reporting an error", a));
                }
            }
            Declined => {
                if !r.ok() {
                    return fail(format!("{:?} ends with {} after the user declined", a, r.text()));
                }
                if r.success_message() {
                    return fail(format!("{:?} prints a success message after the user declined", a));
                }
            }
            Refused => {
                if r.success_message() {
                    return fail(format!("{:?} prints a success message without having written anything", a));
                }
            }
        }
    });
}
