//! What the tool is meant to do, written independently of it.
use serde_json::Value;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};

use ti_tools::calculator::program::Program;

/// name, signature, product id, generation, language
pub const MODELS: [(&str, &str, u8, u32, &str); 25] = [
    ("TI-82", "**TI82**", 0x00, 10, "en"),
    ("TI-83", "**TI83**", 0x00, 20, "en"),
    ("TI-82ST", "**TI83**", 0x00, 20, "en"),
    ("TI-82ST.fr", "**TI83**", 0x00, 20, "fr"),
    ("TI-76.fr", "**TI83**", 0x00, 20, "fr"),
    ("TI-83+", "**TI83F*", 0x04, 30, "en"),
    ("TI-83+SE", "**TI83F*", 0x04, 30, "en"),
    ("TI-83+.fr", "**TI83F*", 0x04, 30, "fr"),
    ("TI-82+", "**TI83F*", 0x04, 30, "fr"),
    ("TI-84+", "**TI83F*", 0x0A, 40, "en"),
    ("TI-84+SE", "**TI83F*", 0x0A, 40, "en"),
    ("TI-83+.fr:USB", "**TI83F*", 0x0A, 40, "fr"),
    ("TI-84P.fr", "**TI83F*", 0x0A, 40, "fr"),
    ("TI-84+PSE", "**TI83F*", 0x0A, 40, "en"),
    ("TI-82A", "**TI83F*", 0x0B, 45, "fr"),
    ("TI-84+T", "**TI83F*", 0x1B, 45, "en"),
    ("TI-84+CSE", "**TI83F*", 0x0F, 50, "en"),
    ("TI-84+CE", "**TI83F*", 0x13, 60, "en"),
    ("TI-84+CET", "**TI83F*", 0x13, 60, "en"),
    ("TI-83PCE", "**TI83F*", 0x13, 60, "fr"),
    ("TI-83PCEEP", "**TI83F*", 0x13, 60, "fr"),
    ("TI-84+CEPY", "**TI83F*", 0x13, 60, "en"),
    ("TI-84+CETPE", "**TI83F*", 0x13, 60, "en"),
    ("TI-82AEP", "**TI83F*", 0x00, 60, "fr"),
    ("latest", "**TI83F*", 0x00, 9999999, "en"),
];
/// signature and product id of a file header, and the model it stands for
pub const HEADERS: [(&str, u8, &str); 9] = [
    ("**TI83F*", 0x00, "latest"),
    ("**TI83**", 0x00, "TI-83"),
    ("**TI82**", 0x00, "TI-82"),
    ("**TI83F*", 0x04, "TI-83+"),
    ("**TI83F*", 0x0A, "TI-84+"),
    ("**TI83F*", 0x0B, "TI-82A"),
    ("**TI83F*", 0x0F, "TI-84+CSE"),
    ("**TI83F*", 0x13, "TI-84+CE"),
    ("**TI83F*", 0x1B, "TI-84+T"),
];
pub const IDS: [u8; 7] = [0x00, 0x04, 0x0A, 0x0B, 0x0F, 0x13, 0x1B];
pub fn model(name: &str) -> &'static (&'static str, &'static str, u8, u32, &'static str) {
    MODELS.iter().find(|m| m.0 == name).unwrap()
}
/// the model a header stands for; None: refused
pub fn header_model(sig: &[u8], id: u8) -> Option<&'static str> {
    if !IDS.contains(&id) {
        return None;
    }
    if id == 0 {
        return Some(match sig {
            b"**TI83F*" => "latest",
            b"**TI83**" => "TI-83",
            _ => "TI-82",
        });
    }
    HEADERS.iter().find(|h| h.1 == id).map(|h| h.2)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum DM {
    Pretty,
    Accessible,
    Ti,
}
pub const DMS: [DM; 3] = [DM::Accessible, DM::Pretty, DM::Ti];
impl DM {
    pub fn name(self) -> &'static str {
        match self {
            DM::Pretty => "pretty",
            DM::Accessible => "accessible",
            DM::Ti => "ti",
        }
    }
    pub fn real(self) -> ti_tools::calculator::DisplayMode {
        match self {
            DM::Pretty => ti_tools::calculator::DisplayMode::Pretty,
            DM::Accessible => ti_tools::calculator::DisplayMode::Accessible,
            DM::Ti => ti_tools::calculator::DisplayMode::TiAscii,
        }
    }
    fn ix(self) -> usize {
        match self {
            DM::Ti => 0,
            DM::Pretty => 1,
            DM::Accessible => 2,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum EM {
    Min,
    Max,
    Smart,
}
pub const EMS: [EM; 3] = [EM::Smart, EM::Min, EM::Max];
impl EM {
    pub fn real(self) -> ti_tools::calculator::EncodeMode {
        match self {
            EM::Min => ti_tools::calculator::EncodeMode::Min,
            EM::Max => ti_tools::calculator::EncodeMode::Max,
            EM::Smart => ti_tools::calculator::EncodeMode::Smart,
        }
    }
}

pub struct Tok {
    pub since: (String, String),
    pub until: Option<(String, String)>,
    /// ti, display, accessible
    pub texts: [String; 3],
}
pub type Table = BTreeMap<Vec<u8>, [String; 3]>;

pub struct Oracle {
    pub sheet: BTreeMap<Vec<u8>, Vec<Tok>>,
    pub defs: BTreeMap<String, Vec<(String, String)>>,
    /// the table of every model at its latest version
    pub tables: HashMap<String, Table>,
    pub lookups: HashMap<(String, usize), Lookup>,
}

fn parts(v: &str) -> Vec<u32> {
    v.split('.').map(|p| p.parse::<u32>().unwrap_or(0)).collect()
}
pub fn ver_cmp(a: &str, b: &str) -> Ordering {
    if a == b {
        return Ordering::Equal;
    }
    let class = |s: &str| if s.is_empty() { 0 } else if s == "latest" { 2 } else { 1 };
    match class(a).cmp(&class(b)) {
        Ordering::Equal => parts(a).cmp(&parts(b)),
        o => o,
    }
}
pub fn os_cmp(a: (&str, &str), b: (&str, &str)) -> Ordering {
    model(a.0).3.cmp(&model(b.0).3).then(ver_cmp(a.1, b.1))
}
pub fn known_model(n: &str) -> &str {
    if MODELS.iter().any(|m| m.0 == n) {
        n
    } else {
        "latest"
    }
}

pub struct Lookup {
    /// texts by first character, with the byte code
    by: HashMap<char, Vec<(String, Vec<u8>)>>,
}
fn key_text(k: &[u8]) -> String {
    k.iter().map(|b| format!("${:02X}", b)).collect::<String>() + " en"
}
impl Lookup {
    fn new(t: &Table, m: DM) -> Lookup {
        let mut by: HashMap<char, Vec<(String, Vec<u8>)>> = HashMap::new();
        for (k, x) in t {
            let s = &x[m.ix()];
            if let Some(c) = s.chars().next() {
                by.entry(c).or_default().push((s.clone(), k.clone()));
            }
        }
        Lookup { by }
    }
    /// the longest (shortest) token that starts the line; among equals the smallest key
    pub fn find(&self, line: &str, longest: bool) -> Option<(&str, &[u8])> {
        let c = line.chars().next()?;
        let mut best: Option<&(String, Vec<u8>)> = None;
        for e in self.by.get(&c)? {
            if !line.starts_with(e.0.as_str()) {
                continue;
            }
            let better = match best {
                None => true,
                Some(b) => {
                    let (x, y) = (e.0.len(), b.0.len());
                    if x != y {
                        (x > y) == longest
                    } else {
                        key_text(&e.1) < key_text(&b.1)
                    }
                }
            };
            if better {
                best = Some(e);
            }
        }
        best.map(|b| (b.0.as_str(), b.1.as_slice()))
    }
    pub fn fits(&self, line: &str) -> bool {
        self.find(line, true).is_some()
    }
}

impl Oracle {
    pub fn load(sheet: &str, defs: &str) -> Oracle {
        let v: Value = serde_json::from_slice(&std::fs::read(sheet).unwrap()).unwrap();
        let mut o = Oracle { sheet: BTreeMap::new(), defs: BTreeMap::new(), tables: HashMap::new(), lookups: HashMap::new() };
        for (k, l) in v.as_object().unwrap() {
            let key: Vec<u8> = (0..k.len() / 2).map(|i| u8::from_str_radix(&k[2 * i..2 * i + 2], 16).unwrap()).collect();
            let toks = l.as_array().unwrap().iter().map(|t| {
                let pair = |x: &Value| (x[0].as_str().unwrap().to_string(), x[1].as_str().unwrap().to_string());
                Tok {
                    since: pair(&t["since"]),
                    until: if t["until"].is_null() { None } else { Some(pair(&t["until"])) },
                    texts: [0, 1, 2].map(|i| t["texts"][i].as_str().unwrap().to_string()),
                }
            });
            o.sheet.insert(key, toks.collect());
        }
        let d: Value = serde_json::from_slice(&std::fs::read(defs).unwrap()).unwrap();
        for (k, l) in d.as_object().unwrap() {
            let e = l.as_array().unwrap().iter().map(|x| (x["syntax"].as_str().unwrap().to_string(), x["description"].as_str().unwrap().to_string()));
            o.defs.insert(k.clone(), e.collect());
        }
        for m in MODELS.iter() {
            let t = o.table(m.0, "latest");
            for d in DMS {
                o.lookups.insert((m.0.to_string(), d.ix()), Lookup::new(&t, d));
            }
            o.tables.insert(m.0.to_string(), t);
        }
        o
    }
    pub fn table(&self, m: &str, v: &str) -> Table {
        let mut t = Table::new();
        for (k, l) in &self.sheet {
            for x in l {
                let since = os_cmp((known_model(&x.since.0), &x.since.1), (m, v)) != Ordering::Greater;
                let until = match &x.until {
                    None => true,
                    Some(u) => os_cmp((known_model(&u.0), &u.1), (m, v)) != Ordering::Less,
                };
                if since && until {
                    t.insert(k.clone(), x.texts.clone());
                }
            }
        }
        t
    }
    pub fn decode(&self, m: &str, d: DM, b: &[u8]) -> Option<String> {
        let t = &self.tables[m];
        let mut s = String::new();
        let mut i = 0;
        while i < b.len() {
            if let Some(x) = t.get(&b[i..i + 1]) {
                s += &x[d.ix()];
                i += 1;
            } else if i + 1 < b.len() && t.contains_key(&b[i..i + 2]) {
                s += &t[&b[i..i + 2]][d.ix()];
                i += 2;
            } else {
                return None;
            }
        }
        Some(s)
    }
    pub fn lookup(&self, m: &str, d: DM) -> &Lookup {
        &self.lookups[&(m.to_string(), d.ix())]
    }
    /// Encodes one line; `ideal` tells opening from closing quotes.
    fn line(&self, l: &Lookup, e: EM, line: &str, ideal: bool, out: &mut Vec<u8>) -> bool {
        let mut rest = line;
        let mut short = e == EM::Min;
        let mut last: Vec<u8> = vec![];
        let mut open = false;
        while !rest.is_empty() {
            let (text, key) = match l.find(rest, !short) {
                Some(x) => x,
                None => return false,
            };
            if e == EM::Smart {
                if last == [0x5F] || last == [0xEB] {
                    short = false;
                } else if key == [0x2A] {
                    open = !open;
                    short = !ideal || open;
                } else if key == [0x04] {
                    short = false;
                    open = false;
                } else if !text.chars().all(|c| c.is_ascii_alphabetic()) {
                    short = false;
                }
            }
            out.extend_from_slice(key);
            last = key.to_vec();
            rest = &rest[text.len()..];
        }
        true
    }
    /// the body bytes of a text; None: rejected
    pub fn encode(&self, m: &str, d: DM, e: EM, text: &str, ideal: bool) -> Option<Vec<u8>> {
        let l = self.lookup(m, d);
        let text = theta(text);
        let mut out = vec![];
        let mut first = true;
        for line in text.lines() {
            if !first {
                out.push(0x3F);
            }
            first = false;
            if !self.line(l, e, line, ideal, &mut out) {
                return None;
            }
        }
        Some(out)
    }
    /// what a calculator file holds; None: it cannot be loaded
    pub fn read(&self, s: &[u8], ext: &str, d: DM) -> Option<Flat> {
        let short = ext != "8xp";
        let ml = if short { 17 } else { 19 };
        if s.len() < 57 + ml || s.len() - 57 - ml + 19 > 65535 {
            return None;
        }
        let model_name = header_model(&s[..8], s[10])?;
        let body = &s[55 + ml..s.len() - 2];
        let le = |i: usize| u16::from_le_bytes([s[i], s[i + 1]]);
        let latin = |b: &[u8]| b.iter().map(|x| *x as char).collect::<String>();
        let nz = |b: &[u8]| b.iter().filter(|x| **x != 0).map(|x| *x as char).collect::<String>();
        let ftype = type_name(s[59])?;
        let dest = if short { "RAM" } else { dest_name(s[69])? };
        let text = self.decode(model_name, d, body)?;
        let n = body.len() as u16;
        let meta = if short {
            let mut v = vec![0x0D, 0];
            v.extend((n + 2).to_le_bytes());
            v.push(s[59]);
            v.extend(&s[60..68]);
            v.extend([0, 0]);
            v.extend((n + 2).to_le_bytes());
            v.extend(n.to_le_bytes());
            v
        } else {
            s[55..74].to_vec()
        };
        let m = model(model_name);
        Some(Flat {
            header: s[..55].to_vec(),
            signature: latin(&s[..8]),
            signature_extra: s[8..10].to_vec(),
            product_id: s[10],
            comment: nz(&s[11..53]),
            header_length: le(53),
            flag: if short { 0x0D } else { s[55] },
            unknown: if short { 0 } else { s[56] },
            length: if short { n + 2 } else { le(57) },
            file_type: ftype.into(),
            name: nz(&s[60..68]),
            version: if short { 0 } else { s[68] },
            destination: dest.into(),
            length_copy: if short { n + 2 } else { le(70) },
            body_length: if short { n } else { le(72) },
            metadata: meta,
            body: body.to_vec(),
            text,
            checksum: s[s.len() - 2..].to_vec(),
            checksum_value: le(s.len() - 2),
            mode: d.name().into(),
            model: model_name.into(),
            model_signature: m.1.into(),
            model_id: m.2,
            language: m.4.into(),
        })
    }
    /// the program a text file stands for; None: it is rejected
    pub fn read_txt(&self, content: &[u8], e: EM) -> Option<Flat> {
        self.layout_txt(content, e, None)
    }
    /// the same for a given body
    pub fn layout_txt(&self, content: &[u8], e: EM, body: Option<&[u8]>) -> Option<Flat> {
        let content = std::str::from_utf8(content).ok()?;
        let l: Vec<&str> = content.lines().collect();
        if l.len() < 6 {
            return None;
        }
        let ftype = match l[2] {
            "Program" => 0x05,
            "Locked Program" => 0x06,
            "Group" => 0x17,
            "Flash Application" => 0x24,
            _ => return None,
        };
        let dest = match l[3] {
            "RAM" => 0,
            "Archive" => 0x80,
            _ => return None,
        };
        let d = *DMS.iter().find(|d| d.name() == l[4])?;
        let m = model(known_model(l[5]));
        let name = l[0];
        if name.len() > 8 || !name.bytes().all(|b| b.is_ascii_alphabetic()) {
            return None;
        }
        let text = l[6..].join("\n");
        let body = match body {
            Some(b) => b.to_vec(),
            None => self.encode(m.0, d, e, &text, false)?,
        };
        if body.len() + 19 > 65535 {
            return None;
        }
        let n = body.len() as u16;
        let comment = format!("Created by TI-Tools {}", tool_version());
        let mut header = m.1.as_bytes().to_vec();
        header.extend([0x1A, 0x0A, m.2]);
        header.extend(comment.as_bytes());
        header.resize(53, 0);
        header.extend((n + 19).to_le_bytes());
        let mut meta = vec![0x0D, 0];
        meta.extend((n + 2).to_le_bytes());
        meta.push(ftype);
        meta.extend(name.as_bytes());
        meta.resize(13, 0);
        meta.extend([0, dest]);
        meta.extend((n + 2).to_le_bytes());
        meta.extend(n.to_le_bytes());
        let sum = sum16(&meta, &body);
        Some(Flat {
            header,
            signature: m.1.into(),
            signature_extra: vec![0x1A, 0x0A],
            product_id: m.2,
            comment,
            header_length: n + 19,
            metadata: meta,
            flag: 0x0D,
            unknown: 0,
            length: n + 2,
            file_type: l[2].into(),
            name: name.into(),
            version: 0,
            destination: l[3].into(),
            length_copy: n + 2,
            body_length: n,
            body,
            text,
            checksum: sum.to_le_bytes().to_vec(),
            checksum_value: sum,
            mode: d.name().into(),
            model: m.0.into(),
            model_signature: m.1.into(),
            model_id: m.2,
            language: m.4.into(),
        })
    }
}
pub fn theta(s: &str) -> String {
    s.chars().map(|c| if matches!(c, '\u{0398}' | '\u{03F4}' | '\u{1DBF}') { 'θ' } else { c }).collect()
}
pub fn type_name(b: u8) -> Option<&'static str> {
    Some(match b {
        0x05 => "Program",
        0x06 => "Locked Program",
        0x17 => "Group",
        0x24 => "Flash Application",
        _ => return None,
    })
}
pub fn dest_name(b: u8) -> Option<&'static str> {
    Some(match b {
        0 => "RAM",
        0x80 => "Archive",
        _ => return None,
    })
}
pub fn sum16(a: &[u8], b: &[u8]) -> u16 {
    (a.iter().chain(b).map(|x| *x as u64).sum::<u64>() % 65536) as u16
}

/// every field of a program
#[derive(Clone, PartialEq, Debug)]
pub struct Flat {
    pub header: Vec<u8>,
    pub signature: String,
    pub signature_extra: Vec<u8>,
    pub product_id: u8,
    pub comment: String,
    pub header_length: u16,
    pub metadata: Vec<u8>,
    pub flag: u8,
    pub unknown: u8,
    pub length: u16,
    pub file_type: String,
    pub name: String,
    pub version: u8,
    pub destination: String,
    pub length_copy: u16,
    pub body_length: u16,
    pub body: Vec<u8>,
    pub text: String,
    pub checksum: Vec<u8>,
    pub checksum_value: u16,
    pub mode: String,
    pub model: String,
    pub model_signature: String,
    pub model_id: u8,
    pub language: String,
}
pub fn flat(p: &Program) -> Flat {
    Flat {
        header: p.header.bytes.clone(),
        signature: p.header.signature.clone(),
        signature_extra: p.header.signature_extra.clone(),
        product_id: p.header.product_id,
        comment: p.header.comment.clone(),
        header_length: p.header.metadata_and_body_length,
        metadata: p.metadata.bytes.clone(),
        flag: p.metadata.flag,
        unknown: p.metadata.unknown_byte,
        length: p.metadata.body_and_checksum_length,
        file_type: p.metadata.file_type.to_string(),
        name: p.metadata.name.clone(),
        version: p.metadata.version,
        destination: p.metadata.destination.to_string(),
        length_copy: p.metadata.body_and_checksum_length_copy,
        body_length: p.metadata.body_length,
        body: p.body.bytes.clone(),
        text: p.body.translation.clone(),
        checksum: p.checksum.bytes.clone(),
        checksum_value: p.checksum.value,
        mode: p.display_mode.to_string(),
        model: p.model.model.to_string(),
        model_signature: p.model.signature.clone(),
        model_id: p.model.product_id,
        language: p.model.language.clone(),
    }
}
impl Flat {
    /// the fields that differ
    pub fn diff(&self, o: &Flat) -> Vec<String> {
        let mut v = vec![];
        macro_rules! d { ($($f:ident),*) => { $( if self.$f != o.$f { v.push(format!("{}: {} instead of {}", stringify!($f), short(&format!("{:?}", self.$f)), short(&format!("{:?}", o.$f)))); } )* } }
        d!(header, signature, signature_extra, product_id, comment, header_length, metadata, flag, unknown, length, file_type, name, version,
           destination, length_copy, body_length, body, text, checksum, checksum_value, mode, model, model_signature, model_id, language);
        v
    }
    /// the content of the file the program is saved to
    pub fn save(&self, ext: &str) -> Vec<u8> {
        let n = self.body.len();
        match ext {
            "txt" => format!("{}\n{}\n{}\n{}\n{}\n{}\n{}", self.name, self.comment, self.file_type, self.destination, self.mode, self.model, self.text).into_bytes(),
            _ => {
                let meta = if ext == "8xp" {
                    self.metadata.clone()
                } else {
                    let mut v = vec![0x0B, 0];
                    v.extend(((n + 2) as u16).to_le_bytes());
                    v.extend(&self.metadata[4..13]);
                    v.extend(((n + 2) as u16).to_le_bytes());
                    v.extend((n as u16).to_le_bytes());
                    v
                };
                let mut v = self.header[..53].to_vec();
                v.extend(((meta.len() + n) as u16).to_le_bytes());
                v.extend(&meta);
                v.extend(&self.body);
                v.extend(sum16(&meta, &self.body).to_le_bytes());
                v
            }
        }
    }
}
pub fn short(s: &str) -> String {
    if s.chars().count() > 160 {
        s.chars().take(160).collect::<String>() + "…"
    } else {
        s.to_string()
    }
}
pub fn tool_version() -> &'static str {
    let t = include_str!("/repo/Cargo.toml");
    let l = t.lines().find(|l| l.starts_with("version")).unwrap();
    l.split('"').nth(1).unwrap()
}
