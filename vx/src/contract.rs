use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug, Default)]
pub struct Contract {
    pub props: Vec<String>,
    pub ret: Option<String>,
    pub requires: Vec<String>,
    pub ensures: Vec<String>,
    pub loops: BTreeMap<usize, LoopC>,
    pub closures: BTreeMap<usize, String>,
    pub begin: String,
    pub end: String,
    pub trusted: Option<String>,
    pub skip: bool,
    pub world: bool,
    pub noeffect: bool,
    pub inherent: Option<String>,
    pub attrs: String,
    pub skeleton: String,
    pub decreases: String,
    pub rlimit: Option<String>,
    pub inline: bool,
}
#[derive(Clone, Debug, Default)]
pub struct LoopC {
    pub inv: Vec<String>,
    pub inv_eb: Vec<String>,
    pub ens: Vec<String>,
    pub decreases: String,
    pub before: String,
    pub begin: String,
    pub end: String,
    pub after: String,
}

impl Contract {
    pub fn has_hints(&self) -> bool {
        !self.loops.is_empty() || !self.closures.is_empty()
    }
}

pub fn parse_file(p: &Path, out: &mut BTreeMap<String, Contract>, cfg: &mut super::Config) {
    let t = std::fs::read_to_string(p).unwrap();
    let mut cur: Option<String> = None;
    let mut sect = String::new();
    let mut c = Contract::default();
    let flush = |cur: &Option<String>, c: &mut Contract, out: &mut BTreeMap<String, Contract>| {
        if let Some(n) = cur {
            if out.contains_key(n) {
                super::fail(&format!("duplicate contract for {}", n));
            }
            for l in c.requires.iter().chain(c.ensures.iter()) {
                if let Some(k) = l.find("//#") {
                    for w in l[k + 2..].split(|ch: char| ch.is_whitespace() || ch == '#') {
                        if w.starts_with('C') && w.len() == 3 && !c.props.iter().any(|p| p == w) {
                            c.props.push(w.to_string());
                        }
                    }
                }
            }
            out.insert(n.clone(), std::mem::take(c));
        }
    };
    for (ln, line) in t.lines().enumerate() {
        let tr = line.trim();
        if tr.starts_with("#") && !tr.starts_with("#[") {
            continue;
        }
        if let Some(d) = tr.strip_prefix('@') {
            let mut w = d.splitn(2, ' ');
            let k = w.next().unwrap();
            let rest = w.next().unwrap_or("").trim().to_string();
            sect = String::new();
            match k {
                "fn" => {
                    flush(&cur, &mut c, out);
                    cur = Some(rest);
                }
                "props" => c.props = rest.split_whitespace().map(|s| s.to_string()).collect(),
                "ret" => c.ret = Some(rest),
                "trusted" => c.trusted = Some(if rest.is_empty() { "trusted".into() } else { rest }),
                "skip" => c.skip = true,
                "world" => c.world = true,
                "noeffect" => c.noeffect = true,
                "inline" => c.inline = true,
                "inherent" => c.inherent = Some(rest),
                "attr" => {
                    c.attrs.push_str(&rest);
                    c.attrs.push('\n')
                }
                "rlimit" => c.rlimit = Some(rest),
                "skeleton" => c.skeleton = rest,
                "decreases" => c.decreases = rest,
                "skipmod" => cfg.skip_modules.push(rest),
                "keeptrait" => cfg.keep_traits.push(rest),
                "implspec" => {
                    let (a, b) = rest.split_once(' ').unwrap_or((rest.as_str(), ""));
                    cfg.impl_spec.push((a.to_string(), b.to_string()));
                }
                "requires" | "ensures" | "begin" | "end" => {
                    sect = k.to_string();
                }
                "loop" | "closure" => {
                    sect = format!("{} {}", k, rest);
                }
                _ => super::fail(&format!("{}:{}: unknown directive @{}", p.display(), ln + 1, k)),
            }
            continue;
        }
        if tr.is_empty() {
            continue;
        }
        let w: Vec<&str> = sect.split_whitespace().collect();
        match w.as_slice() {
            ["requires"] => c.requires.push(line.to_string()),
            ["ensures"] => c.ensures.push(line.to_string()),
            ["begin"] => {
                c.begin.push_str(line);
                c.begin.push('\n')
            }
            ["end"] => {
                c.end.push_str(line);
                c.end.push('\n')
            }
            ["closure", k] => {
                let e = c.closures.entry(k.parse().unwrap()).or_default();
                e.push_str(line);
                e.push('\n');
            }
            ["loop", k, what @ ..] => {
                let e = c.loops.entry(k.parse().unwrap()).or_default();
                match what.first().copied().unwrap_or("inv") {
                    "inv" => e.inv.push(line.to_string()),
                    "except_break" => e.inv_eb.push(line.to_string()),
                    "ensures" => e.ens.push(line.to_string()),
                    "decreases" => e.decreases.push_str(line),
                    "before" => {
                        e.before.push_str(line);
                        e.before.push('\n')
                    }
                    "begin" => {
                        e.begin.push_str(line);
                        e.begin.push('\n')
                    }
                    "end" => {
                        e.end.push_str(line);
                        e.end.push('\n')
                    }
                    "after" => {
                        e.after.push_str(line);
                        e.after.push('\n')
                    }
                    x => super::fail(&format!("{}:{}: bad loop section {}", p.display(), ln + 1, x)),
                }
            }
            _ => super::fail(&format!("{}:{}: stray line: {}", p.display(), ln + 1, line)),
        }
    }
    flush(&cur, &mut c, out);
}
