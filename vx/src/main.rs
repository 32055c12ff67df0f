//! vx: extracts the functions of a Rust crate, splices machine-checked contracts into them and
//! writes one file for Verus.  Only the edits listed in DESIGN.md are made; every edit is a local
//! text replacement of the original source, logged in the map file.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

mod contract;
mod fmtmac;
mod rules;
use contract::*;

#[derive(Clone, Debug)]
pub enum Piece {
    T(String),
    S(usize, usize),
}
#[derive(Clone, Debug)]
pub struct Edit {
    pub a: usize,
    pub b: usize,
    pub out: Vec<Piece>,
    pub why: &'static str,
}

pub fn range<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

pub struct Source {
    pub file: String,   // path relative to repo
    pub module: String, // module path, "" for the root
    pub text: String,
    pub ast: syn::File,
}

#[derive(Clone)]
pub struct FnInfo {
    pub path: String,
    pub name: String,
    pub owner: Option<String>,
    pub src: usize,
    pub has_self: bool,
    pub sig: syn::Signature,
    pub vis: Option<syn::Visibility>,
    pub attrs: Vec<syn::Attribute>,
    pub block: syn::Block,
    pub in_trait: bool,
    pub callees: BTreeSet<String>, // bare names called in the body
    pub method_callees: BTreeSet<String>,
    pub prim_effect: bool,
    pub effect: bool,
    pub skeleton: String,
    pub shape: String,
    pub names: Vec<String>,
}

pub struct Ctx {
    pub srcs: Vec<Source>,
    pub fns: Vec<FnInfo>,
    pub by_name: HashMap<String, Vec<usize>>,
    pub contracts: BTreeMap<String, Contract>,
    pub demoted: BTreeSet<String>,
    pub noclosure: BTreeSet<String>,
    pub probe: bool,
    pub env: HashMap<String, String>,
    pub inlined: std::cell::RefCell<BTreeMap<String, BTreeSet<String>>>,
    pub repo: PathBuf,
    pub config: Config,
}

#[derive(Default)]
pub struct Config {
    pub skip_modules: Vec<String>,
    pub keep_traits: Vec<String>,
    pub impl_spec: Vec<(String, String)>,
}

fn load_module(repo: &Path, file: &Path, module: &str, srcs: &mut Vec<Source>, cfg: &Config) {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => fail(&format!("cannot read {}: {}", file.display(), e)),
    };
    let ast = match syn::parse_file(&text) {
        Ok(a) => a,
        Err(e) => fail(&format!("cannot parse {}: {}", file.display(), e)),
    };
    let dir = if file.file_stem().unwrap() == "mod"
        || file.file_stem().unwrap() == "main"
        || file.file_stem().unwrap() == "lib"
    {
        file.parent().unwrap().to_path_buf()
    } else {
        file.with_extension("")
    };
    let mut children = vec![];
    for it in &ast.items {
        if let syn::Item::Mod(m) = it {
            if m.content.is_none() {
                children.push(m.ident.to_string());
            }
        }
    }
    srcs.push(Source {
        file: file.strip_prefix(repo).unwrap_or(file).display().to_string(),
        module: module.to_string(),
        text,
        ast,
    });
    for c in children {
        let m = if module.is_empty() { c.clone() } else { format!("{}::{}", module, c) };
        if cfg.skip_modules.contains(&m) {
            continue;
        }
        let f1 = dir.join(format!("{}.rs", c));
        let f2 = dir.join(&c).join("mod.rs");
        load_module(repo, if f1.exists() { &f1 } else { &f2 }, &m, srcs, cfg);
    }
}

pub fn fail(msg: &str) -> ! {
    eprintln!("vx: {}", msg);
    std::process::exit(3)
}

struct CallCollector {
    callees: BTreeSet<String>,
    methods: BTreeSet<String>,
    prim: bool,
    skel: String,
    macros: Vec<String>,
}
impl<'a> Visit<'a> for CallCollector {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if let Some((_, true)) = rules::effect_path(&segs) {
                self.prim = true;
            }
            let n = if segs.len() >= 2 {
                format!("{}::{}", segs[segs.len() - 2], segs[segs.len() - 1])
            } else {
                segs[0].clone()
            };
            self.callees.insert(n);
        }
        visit::visit_expr_call(self, c)
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        let n = c.method.to_string();
        if rules::EFFECT_METHODS.contains(&n.as_str()) && c.args.len() <= 1 {
            self.prim = true;
        }
        self.methods.insert(n);
        visit::visit_expr_method_call(self, c)
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if rules::PRINT_MACROS.contains(&n.as_str()) {
            self.prim = true;
        }
        self.macros.push(n.clone());
        self.callees.insert(format!("{}!", n));
        if let Some(args) = fmtmac::macro_exprs(m) {
            for a in &args {
                self.visit_expr(a);
            }
        }
    }
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        self.skel.push_str("for(");
        visit::visit_expr_for_loop(self, l);
        self.skel.push(')');
    }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
        self.skel.push_str("while(");
        visit::visit_expr_while(self, l);
        self.skel.push(')');
    }
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
        self.skel.push_str("loop(");
        visit::visit_expr_loop(self, l);
        self.skel.push(')');
    }
    fn visit_expr_closure(&mut self, l: &'a syn::ExprClosure) {
        self.skel.push_str("cl");
        visit::visit_expr_closure(self, l);
    }
}

/// The shape of a body: its tokens with identifiers, literals and operators of one kind unified.
fn shape_of(ts: proc_macro2::TokenStream, out: &mut String) {
    use proc_macro2::TokenTree::*;
    let mut prev = ' ';
    for t in ts {
        match t {
            Group(g) => {
                out.push(match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => '(',
                    proc_macro2::Delimiter::Brace => '{',
                    _ => '[',
                });
                shape_of(g.stream(), out);
                out.push(')');
                prev = ' ';
            }
            Ident(i) => {
                let s = i.to_string();
                match s.as_str() {
                    "if" | "else" | "while" | "for" | "loop" | "match" | "let" | "mut" | "return" | "break"
                    | "continue" | "in" | "as" | "move" | "ref" | "fn" | "unsafe" => {
                        out.push(' ');
                        out.push_str(&s);
                        out.push(' ');
                    }
                    "true" | "false" => out.push('l'),
                    _ => out.push('i'),
                }
                prev = ' ';
            }
            Literal(_) => {
                out.push('l');
                prev = ' ';
            }
            Punct(p) => {
                let c = p.as_char();
                match c {
                    '<' | '>' => out.push('<'),
                    '=' if matches!(prev, '<' | '>' | '.') => {}
                    '=' | '!' => out.push('='),
                    '+' | '-' | '*' | '/' | '%' | '^' => out.push('+'),
                    '&' | '|' => out.push('&'),
                    c => out.push(c),
                }
                prev = c;
            }
        }
    }
}

struct NameCollector(Vec<String>);
impl<'a> Visit<'a> for NameCollector {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.push(p.ident.to_string());
        visit::visit_pat_ident(self, p)
    }
}

fn mk_fn(
    src: usize,
    path: String,
    owner: Option<String>,
    sig: &syn::Signature,
    vis: Option<syn::Visibility>,
    attrs: &[syn::Attribute],
    block: &syn::Block,
    in_trait: bool,
) -> FnInfo {
    let mut shape = String::new();
    shape_of(quote::ToTokens::to_token_stream(block), &mut shape);
    let mut nc = NameCollector(vec![]);
    nc.visit_block(block);
    let mut cc = CallCollector {
        callees: BTreeSet::new(),
        methods: BTreeSet::new(),
        prim: false,
        skel: String::new(),
        macros: vec![],
    };
    cc.visit_block(block);
    FnInfo {
        path,
        name: sig.ident.to_string(),
        owner,
        src,
        has_self: sig.receiver().is_some(),
        sig: sig.clone(),
        vis,
        attrs: attrs.to_vec(),
        block: block.clone(),
        in_trait,
        callees: cc.callees,
        method_callees: cc.methods,
        prim_effect: cc.prim,
        effect: false,
        skeleton: cc.skel,
        shape,
        names: nc.0,
    }
}

pub fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => "?".into(),
    }
}

fn collect_fns(srcs: &[Source]) -> Vec<FnInfo> {
    let mut out = vec![];
    for (i, s) in srcs.iter().enumerate() {
        let pre = if s.module.is_empty() { String::new() } else { format!("{}::", s.module) };
        for it in &s.ast.items {
            match it {
                syn::Item::Fn(f) => {
                    out.push(mk_fn(i, format!("{}{}", pre, f.sig.ident), None, &f.sig, Some(f.vis.clone()), &f.attrs, &f.block, false));
                }
                syn::Item::Impl(im) => {
                    let ty = type_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            let p = match &tr {
                                Some(t) => format!("{}{}::{}::{}", pre, ty, t, f.sig.ident),
                                None => format!("{}{}::{}", pre, ty, f.sig.ident),
                            };
                            out.push(mk_fn(i, p, Some(ty.clone()), &f.sig, Some(f.vis.clone()), &f.attrs, &f.block, tr.is_some()));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    out
}

impl Ctx {
    /// the crate function a path call or method call names, if unique
    pub fn resolve_call(&self, segs: &[String], module: &str) -> Option<usize> {
        let last = segs.last()?;
        let cands = self.by_name.get(last)?;
        let owner = if segs.len() >= 2 { Some(segs[segs.len() - 2].clone()) } else { None };
        let mut hits: Vec<usize> = cands
            .iter()
            .copied()
            .filter(|&i| {
                let f = &self.fns[i];
                if f.in_trait { return false; }
                match (&owner, &f.owner) {
                    (Some(o), Some(fo)) => o == fo || o == "Self",
                    (None, None) => true,
                    // module-qualified call of a free function
                    (Some(o), None) => self.srcs[f.src].module.rsplit("::").next() == Some(o.as_str()),
                    _ => false,
                }
            })
            .collect();
        if hits.len() > 1 {
            let h2: Vec<usize> = hits.iter().copied().filter(|&i| self.srcs[self.fns[i].src].module == module).collect();
            if h2.len() == 1 {
                hits = h2;
            }
        }
        if hits.len() == 1 { Some(hits[0]) } else { None }
    }
    pub fn resolve_method(&self, name: &str) -> Vec<usize> {
        self.by_name
            .get(name)
            .map(|v| v.iter().copied().filter(|&i| self.fns[i].has_self && !self.fns[i].in_trait).collect())
            .unwrap_or_default()
    }
}

fn compute_effects(ctx: &mut Ctx) {
    loop {
        let mut changed = false;
        for i in 0..ctx.fns.len() {
            if ctx.fns[i].effect {
                continue;
            }
            let f = &ctx.fns[i];
            let c = ctx.contracts.get(&f.path);
            if c.map(|c| c.noeffect).unwrap_or(false) { continue; }
            let mut e = f.prim_effect || c.map(|c| c.world).unwrap_or(false);
            let module = ctx.srcs[f.src].module.clone();
            if !e {
                for n in &f.callees {
                    let segs: Vec<String> = n.split("::").map(|s| s.to_string()).collect();
                    if let Some(j) = ctx.resolve_call(&segs, &module) {
                        e |= ctx.fns[j].effect;
                    }
                }
                for n in &f.method_callees {
                    for j in ctx.resolve_method(n) {
                        e |= ctx.fns[j].effect;
                    }
                }
            }
            if e {
                ctx.fns[i].effect = true;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
}

/// Renders [a,b) of a source text with the edits applied.
pub fn render(text: &str, edits: &[Edit], used: &mut Vec<bool>, a: usize, b: usize) -> String {
    let mut out = String::new();
    let mut pos = a;
    // edits are sorted by (start, end descending, insertion first)
    let idx: Vec<usize> = (0..edits.len()).filter(|&i| edits[i].a >= a && edits[i].b <= b).collect();
    for i in idx {
        if used[i] || edits[i].a < pos {
            continue;
        }
        let e = &edits[i];
        out.push_str(&text[pos..e.a]);
        used[i] = true;
        for p in &e.out {
            match p {
                Piece::T(t) => out.push_str(t),
                Piece::S(x, y) => out.push_str(&render(text, edits, used, *x, *y)),
            }
        }
        pos = e.b;
    }
    out.push_str(&text[pos..b]);
    out
}

pub fn sort_edits(edits: &mut Vec<Edit>) {
    // stable: insertions keep their push order
    edits.sort_by(|x, y| {
        x.a.cmp(&y.a).then_with(|| {
            let xi = (x.a == x.b) as u8;
            let yi = (y.a == y.b) as u8;
            yi.cmp(&xi).then(y.b.cmp(&x.b))
        })
    });
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut repo = PathBuf::new();
    let mut cdir = PathBuf::new();
    let mut out = PathBuf::new();
    let mut map = PathBuf::new();
    let mut demoted = BTreeSet::new();
    let mut noclosure = BTreeSet::new();
    let mut probe = false;
    while let Some(a) = args.next() {
        let mut v = || args.next().unwrap_or_else(|| fail("missing argument value"));
        match a.as_str() {
            "--repo" => repo = v().into(),
            "--contracts" => cdir = v().into(),
            "--out" => out = v().into(),
            "--map" => map = v().into(),
            "--demote" => demoted.extend(v().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string())),
            "--probe" => probe = true,
            "--noclosure" => noclosure.extend(v().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string())),
            _ => fail(&format!("unknown argument {}", a)),
        }
    }
    let mut cfg = Config::default();
    let mut contracts = BTreeMap::new();
    let mut cfiles: Vec<PathBuf> = std::fs::read_dir(&cdir).unwrap().map(|e| e.unwrap().path()).collect();
    cfiles.sort();
    for f in &cfiles {
        if f.extension().map(|e| e == "vc").unwrap_or(false) {
            contract::parse_file(f, &mut contracts, &mut cfg);
        }
    }
    let mut srcs = vec![];
    load_module(&repo, &repo.join("src/main.rs"), "", &mut srcs, &cfg);
    rules::macro_functions(&mut srcs);
    let fns = collect_fns(&srcs);
    let mut by_name: HashMap<String, Vec<usize>> = HashMap::new();
    for (i, f) in fns.iter().enumerate() {
        by_name.entry(f.name.clone()).or_default().push(i);
    }
    let mut env = HashMap::new();
    if let Ok(t) = std::fs::read_to_string(repo.join("Cargo.toml")) {
        for l in t.lines() {
            if l.starts_with('[') && l.trim() != "[package]" {
                break;
            }
            if let Some((k, v)) = l.split_once('=') {
                let v = v.trim().trim_matches('"').to_string();
                env.insert(format!("CARGO_PKG_{}", k.trim().to_uppercase()), v);
            }
        }
    }
    let mut ctx = Ctx {
        srcs,
        fns,
        by_name,
        contracts,
        demoted,
        noclosure,
        probe,
        env,
        inlined: Default::default(),
        repo,
        config: cfg,
    };
    compute_effects(&mut ctx);
    let mut o = String::new();
    o.push_str("// generated by vx from the working tree; do not edit\n#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, unused_assignments, unreachable_code, unused_must_use)]\n#![verifier::allow(undeclared_external_trait)]\n");
    for f in &cfiles {
        if f.extension().map(|e| e == "rs").unwrap_or(false) {
            let stem = f.file_stem().unwrap().to_str().unwrap().to_string();
            let t = std::fs::read_to_string(f).unwrap();
            let m: String = stem.trim_start_matches(|c: char| c.is_ascii_digit() || c == '_').to_string();
            let _ = write!(o, "pub mod {} {{ //vxspec {}\n{}\n}}\n", m, f.display(), t);
        }
    }
    let ver = ctx.env.get("CARGO_PKG_VERSION").cloned().unwrap_or_default();
    let sym = rules::json_symmetric(&ctx, "Program");
    let _ = write!(o, "pub mod vx_env {{\nuse vstd::prelude::*;\nverus! {{\n/// CARGO_PKG_VERSION\npub open spec fn pkg_version() -> Seq<char> {{ {:?}@ }}\n/// every type reachable from Program is written and read by matching serde code\npub open spec fn json_symmetric() -> bool {{ {} }}\n}}\n}}\n", ver, sym);
    let mut fnmap = vec![];
    rules::emit_module(&ctx, "", &mut o, &mut fnmap);
    std::fs::write(&out, &o).unwrap();
    // map: one line per function: json
    let mut j = String::from("{\"functions\":[\n");
    let text = o;
    for (k, e) in fnmap.iter().enumerate() {
        let l0 = text[..e.start].matches('\n').count() + 1;
        let l1 = text[..e.end].matches('\n').count() + 1;
        let f = &ctx.fns[e.f];
        let c = ctx.contracts.get(&f.path);
        let inl: Vec<String> = ctx.inlined.borrow().get(&f.path).map(|s| s.iter().cloned().collect()).unwrap_or_default();
        let mut callees: Vec<String> = vec![];
        let module = ctx.srcs[f.src].module.clone();
        for n in &f.callees {
            let segs: Vec<String> = n.split("::").map(|s| s.to_string()).collect();
            if let Some(jx) = ctx.resolve_call(&segs, &module) {
                callees.push(ctx.fns[jx].path.clone());
            }
        }
        for n in &f.method_callees {
            for jx in ctx.resolve_method(n) {
                callees.push(ctx.fns[jx].path.clone());
            }
        }
        let src_line = f.sig.ident.span().start().line;
        let _ = write!(
            j,
            "{}{{\"path\":{:?},\"file\":{:?},\"line\":{},\"start\":{},\"end\":{},\"contract\":{},\"status\":{:?},\"props\":{:?},\"effect\":{},\"skeleton\":{:?},\"expect\":{:?},\"inlined\":{:?},\"callees\":{:?},\"trusted\":{:?},\"hints\":{},\"names\":{:?},\"calls\":{:?},\"shape\":{:?}}}",
            if k > 0 { ",\n" } else { "" },
            f.path,
            ctx.srcs[f.src].file,
            src_line,
            l0,
            l1,
            c.is_some(),
            e.status,
            c.map(|c| c.props.clone()).unwrap_or_default(),
            f.effect,
            f.skeleton,
            c.map(|c| c.skeleton.clone()).unwrap_or_default(),
            inl,
            callees,
            c.and_then(|c| c.trusted.clone()).unwrap_or_default(),
            c.map(|c| c.has_hints()).unwrap_or(false),
            f.names,
            f.callees.iter().chain(f.method_callees.iter()).collect::<Vec<_>>(),
            f.shape,
        );
    }
    let missing: Vec<&String> = ctx.contracts.keys().filter(|k| !ctx.fns.iter().any(|f| &f.path == *k)).collect();
    let _ = write!(j, "\n],\"missing\":{:?}}}\n", missing);
    std::fs::write(&map, j).unwrap();
}
