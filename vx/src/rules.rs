//! The extraction rules: which local edits turn the crate's source into text Verus accepts.
use super::contract::*;
use super::*;
use crate::fmtmac;

pub const EFFECT_METHODS: &[&str] = &["exists", "is_dir", "is_file", "read_line", "flush"];
pub const PRINT_MACROS: &[&str] = &["println", "print", "eprintln", "eprint", "prints"];

/// shim name and whether it takes the world
pub fn effect_path(segs: &[String]) -> Option<(String, bool)> {
    let n = segs.len();
    if n < 2 {
        return None;
    }
    let (a, b) = (segs[n - 2].as_str(), segs[n - 1].as_str());
    let std_ok = n == 2 || (n == 3 && (segs[0] == "std" || segs[0] == "core"));
    if !std_ok {
        return None;
    }
    match (a, b) {
        ("fs", x) => Some((format!("vx_fs_{}", x), true)),
        ("process", "exit") => Some(("vx_exit".into(), true)),
        ("env", "args") => Some(("vx_args".into(), false)),
        ("io", "stdin") => Some(("vx_stdin".into(), false)),
        ("io", "stdout") => Some(("vx_stdout".into(), false)),
        ("serde_json", x) => Some((format!("vx_json_{}", x), false)),
        _ => None,
    }
}

/// std methods whose std version the verifier has no contract for: the shim has the same meaning
const RENAME: &[&str] = &[
    "iter", "into_iter", "chars", "bytes", "lines", "split", "join", "concat", "repeat", "replace",
    "starts_with", "ends_with", "find", "extend", "to_owned", "trim", "split_whitespace", "expect",
    "contains", "strip_prefix", "strip_suffix", "char_indices", "iter_mut", "split_once", "extend_from_slice",
    "into_bytes", "as_bytes", "to_uppercase", "to_lowercase", "to_ascii_uppercase", "to_le_bytes", "to_be_bytes", "to_vec",
    "splice", "as_deref", "trim_end", "trim_start", "to_ascii_lowercase", "eq_ignore_ascii_case", "is_char_boundary",
    "reverse", "fill", "retain", "sort", "dedup", "chunks", "windows", "rfind", "splitn", "swap",
];

/// std functions (last two path segments) whose shim has another name
const PATHS: &[(&str, &str, &str)] = &[
    ("String", "from_utf8_lossy", "vx_from_utf8_lossy"),
    ("String", "from_utf8", "vx_string_from_utf8"),
    ("str", "from_utf8", "vx_str_from_utf8"),
    ("mem", "take", "vx_mem_take"),
    ("cmp", "min", "vx_cmp_min"),
    ("cmp", "max", "vx_cmp_max"),
    ("String", "from", "vx_string_from"),
];

/// names the shims define in place of std types
const STD_TYPES: &[&str] = &["HashMap", "BTreeMap", "Path", "PathBuf", "OsStr", "OsString"];

pub fn macro_functions(srcs: &mut Vec<Source>) {
    // prints!: its body becomes a function of the formatted message
    let mut add = vec![];
    for s in srcs.iter() {
        for it in &s.ast.items {
            if let syn::Item::Macro(m) = it {
                let name = match &m.ident {
                    Some(i) => i.to_string(),
                    None => continue,
                };
                if name != "prints" {
                    continue;
                }
                let (a, b) = range(m);
                let t = &s.text[a..b];
                let (Some(x), Some(y)) = (t.find("=> {{"), t.rfind("}}")) else { continue };
                let body = &t[x + 5..y];
                let mut out = String::from("use crate::styles::{Color, TextStyle};\npub fn prints_message(vx_message: String) {");
                // the body keeps its text and line structure; the three macro-only parts are replaced
                let body = body.replace("format!($($arg)*)", "vx_message");
                let body: String = body
                    .lines()
                    .map(|l| if l.trim_start().starts_with("use $crate") { String::new() } else { l.to_string() })
                    .collect::<Vec<_>>()
                    .join("\n");
                if body.contains('$') {
                    continue;
                }
                out.push_str(&body);
                out.push_str("}\n");
                let Ok(ast) = syn::parse_file(&out) else { continue };
                let module = if s.module.is_empty() { "prints_macro".to_string() } else { format!("{}_prints", s.module) };
                add.push(Source { file: s.file.clone(), module, text: out, ast });
            }
        }
    }
    srcs.extend(add);
}

fn pat_needs_deref(p: &syn::Pat) -> Option<(usize, usize)> {
    match p {
        syn::Pat::Reference(r) => Some(range(&*r.pat)),
        syn::Pat::Type(t) => pat_needs_deref(&t.pat),
        _ => None,
    }
}

fn specable(e: &syn::Expr) -> bool {
    use syn::Expr::*;
    match e {
        Path(_) | Lit(_) => true,
        Field(f) => specable(&f.base),
        Unary(u) => specable(&u.expr),
        Paren(p) => specable(&p.expr),
        Cast(c) => specable(&c.expr),
        Reference(r) => r.mutability.is_none() && specable(&r.expr),
        Binary(b) => {
            !matches!(b.op, syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_)) && specable(&b.left) && specable(&b.right)
        }
        MethodCall(m) => {
            let n = m.method.to_string();
            ["is_ascii_alphabetic", "is_some", "is_none", "is_ascii_digit"].contains(&n.as_str()) && specable(&m.receiver) && m.args.is_empty()
        }
        Index(i) => specable(&i.expr) && specable(&i.index) && !matches!(&*i.index, syn::Expr::Range(_)),
        _ => false,
    }
}

/// Enum::Variant(..): the names of the enum and the variant
fn variant_of(e: &syn::Expr) -> Option<(String, String)> {
    let syn::Expr::Call(c) = e else { return None };
    let syn::Expr::Path(p) = &*c.func else { return None };
    let s = &p.path.segments;
    let up = |i: usize| s[i].ident.to_string().starts_with(|c: char| c.is_uppercase());
    if s.len() >= 2 && up(s.len() - 1) && up(s.len() - 2) {
        let en = s.iter().take(s.len() - 1).map(|x| x.ident.to_string()).collect::<Vec<_>>().join("::");
        Some((en, s.last().unwrap().ident.to_string()))
    } else { None }
}

pub struct V<'c> {
    pub ctx: &'c Ctx,
    pub f: Option<usize>,
    pub module: String,
    pub src: usize,
    pub edits: Vec<Edit>,
    pub loop_no: usize,
    pub closure_no: usize,
    pub contract: Option<Contract>,
    /// parents of the expression being visited: Some(kind)
    deref_ok: Vec<(usize, usize)>, // ranges of index expressions whose value is used by reference
    pub nodec: bool,
    pub closure_depth: usize,
    /// a `mut self` receiver, which the verifier does not take, is copied to a local
    pub mut_self: bool,
}

impl<'c> V<'c> {
    pub fn new(ctx: &'c Ctx, f: Option<usize>, src: usize, module: &str, contract: Option<Contract>) -> Self {
        V {
            ctx,
            f,
            module: module.into(),
            src,
            edits: vec![],
            loop_no: 0,
            closure_no: 0,
            contract,
            deref_ok: vec![],
            nodec: false,
            closure_depth: 0,
            mut_self: false,
        }
    }
    fn text(&self, r: (usize, usize)) -> &str {
        &self.ctx.srcs[self.src].text[r.0..r.1]
    }
    fn ins(&mut self, at: usize, t: &str, why: &'static str) {
        self.edits.push(Edit { a: at, b: at, out: vec![Piece::T(t.into())], why });
    }
    fn rep(&mut self, r: (usize, usize), out: Vec<Piece>, why: &'static str) {
        self.edits.push(Edit { a: r.0, b: r.1, out, why });
    }
    fn world_ok(&self) -> bool {
        self.f.map(|f| self.ctx.fns[f].effect).unwrap_or(false)
    }
    fn add_world(&mut self, close: usize, nargs: usize, trailing: bool) {
        let t = if nargs == 0 || trailing { "Tracked(&mut *vx_w)" } else { ", Tracked(&mut *vx_w)" };
        self.ins(close, t, "world");
    }
    fn loop_spec(&self, k: usize, auto_inv: &[String], auto_dec: Option<String>) -> (String, bool) {
        let c = self.contract.as_ref().and_then(|c| c.loops.get(&k)).cloned().unwrap_or_default();
        let mut s = String::new();
        let mut eb: Vec<String> = vec![];
        eb.extend(c.inv_eb.iter().cloned());
        let mut inv: Vec<String> = vec![];
        let mut ens: Vec<String> = c.ens.clone();
        let has_break_clauses = !eb.is_empty() || !ens.is_empty();
        if has_break_clauses {
            for a in auto_inv {
                inv.push(format!("{},", a));
            }
        } else {
            for a in auto_inv {
                inv.push(format!("{},", a));
            }
        }
        inv.extend(c.inv.iter().cloned());
        if !eb.is_empty() {
            s.push_str("\n        invariant_except_break\n");
            for i in &eb {
                s.push_str(i);
                s.push('\n');
            }
        }
        if !inv.is_empty() {
            s.push_str("\n        invariant\n");
            for i in &inv {
                s.push_str("            ");
                s.push_str(i);
                s.push('\n');
            }
        }
        if !ens.is_empty() {
            s.push_str("\n        ensures\n");
            for i in ens.drain(..) {
                s.push_str(&i);
                s.push('\n');
            }
        }
        let dec = if !c.decreases.is_empty() { Some(c.decreases.clone()) } else { auto_dec };
        let nodec = dec.is_none();
        if let Some(d) = dec {
            s.push_str(&format!("        decreases {},\n", d.trim().trim_end_matches(',')));
        }
        (s, nodec)
    }
    fn loop_c(&self, k: usize) -> LoopC {
        self.contract.as_ref().and_then(|c| c.loops.get(&k)).cloned().unwrap_or_default()
    }
    fn body_inserts(&mut self, body: &syn::Block, begin: String, end: &str) {
        let open = body.brace_token.span.open().byte_range().end;
        let close = body.brace_token.span.close().byte_range().start;
        self.ins(open, &begin, "loop begin");
        if !end.is_empty() {
            // the value of a loop body is (), so an extra semicolon is harmless
            self.ins(close, &format!("; {}", end), "loop end");
        }
    }
    fn by_ref(&mut self, e: &syn::Expr) {
        let r = range(strip_paren(e));
        self.deref_ok.push(r);
    }
}

fn strip_paren(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => strip_paren(&p.expr),
        _ => e,
    }
}

fn segs_of(p: &syn::Path) -> Vec<String> {
    p.segments.iter().map(|s| s.ident.to_string()).collect()
}

/// a closure that prints, exits or calls something that does, and does not return early
fn effectful(ctx: &Ctx, module: &str, c: &syn::ExprClosure) -> bool {
    struct E<'x> { ctx: &'x Ctx, module: &'x str, eff: bool, ret: bool }
    impl<'a, 'x> Visit<'a> for E<'x> {
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            let n = m.path.segments.last().unwrap().ident.to_string();
            if PRINT_MACROS.contains(&n.as_str()) { self.eff = true; }
            for a in fmtmac::macro_exprs(m).unwrap_or_default() { self.visit_expr(&a); }
        }
        fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
            if let syn::Expr::Path(p) = &*c.func {
                let segs = segs_of(&p.path);
                if let Some((_, true)) = effect_path(&segs) { self.eff = true; }
                if let Some(i) = self.ctx.resolve_call(&segs, self.module) { self.eff |= self.ctx.fns[i].effect; }
            }
            visit::visit_expr_call(self, c)
        }
        fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
            let n = c.method.to_string();
            if EFFECT_METHODS.contains(&n.as_str()) && c.args.len() <= 1 { self.eff = true; }
            let m = self.ctx.resolve_method(&n);
            if !m.is_empty() && m.iter().all(|&i| self.ctx.fns[i].effect) { self.eff = true; }
            visit::visit_expr_method_call(self, c)
        }
        fn visit_expr_return(&mut self, _r: &'a syn::ExprReturn) { self.ret = true; }
        fn visit_expr_try(&mut self, _r: &'a syn::ExprTry) { self.ret = true; }
        fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
            let r = self.ret;
            visit::visit_expr_closure(self, c);
            self.ret = r;
        }
    }
    let mut e = E { ctx, module, eff: false, ret: false };
    e.visit_expr(&c.body);
    e.eff && !e.ret
}

impl<'c> V<'c> {
    /// the value of an expression as the verifier's specification language states it: texts of different types are
    /// equal when their characters are
    fn spec_text(&self, e: &syn::Expr) -> String {
        use syn::Expr::*;
        match e {
            Paren(p) => format!("({})", self.spec_text(&p.expr)),
            Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => format!("!({})", self.spec_text(&u.expr)),
            Binary(b) => match b.op {
                syn::BinOp::And(_) => format!("({}) && ({})", self.spec_text(&b.left), self.spec_text(&b.right)),
                syn::BinOp::Or(_) => format!("({}) || ({})", self.spec_text(&b.left), self.spec_text(&b.right)),
                syn::BinOp::Eq(_) | syn::BinOp::Ne(_) if !matches!(&*b.left, Lit(_)) && !matches!(&*b.right, Lit(_)) && !matches!(&*b.left, Binary(_)) && !matches!(&*b.right, Binary(_)) => {
                    let n = if matches!(b.op, syn::BinOp::Ne(_)) { "!" } else { "" };
                    format!("{}vx_same(&({}), &({}))", n, self.text(range(&*b.left)), self.text(range(&*b.right)))
                }
                _ => self.text(range(e)).to_string(),
            },
            _ => self.text(range(e)).to_string(),
        }
    }
    /// opt.unwrap_or_else(|| B) and the like with an effectful B: written as the match it stands for
    fn option_method(&mut self, c: &syn::ExprMethodCall) -> bool {
        let n = c.method.to_string();
        let (Some(syn::Expr::Closure(cl)), 1) = (c.args.first(), c.args.len()) else { return false };
        if !effectful(self.ctx, &self.module, cl) { return false; }
        let (ra, rb) = range(&*c.receiver);
        let (ba, bb) = range(&*cl.body);
        let pat = cl.inputs.first().map(|p| range(p));
        let t = |s: &str| Piece::T(s.into());
        let mut out = vec![t("(match "), Piece::S(ra, rb)];
        match (n.as_str(), pat) {
            ("unwrap_or_else", None) => out.extend([t(" { Some(vx_v) => vx_v, None => "), Piece::S(ba, bb), t(" })")]),
            ("or_else", None) => out.extend([t(" { Some(vx_v) => Some(vx_v), None => "), Piece::S(ba, bb), t(" })")]),
            ("unwrap_or_else", Some(p)) => out.extend([t(" { Ok(vx_v) => vx_v, Err("), Piece::S(p.0, p.1), t(") => "), Piece::S(ba, bb), t(" })")]),
            ("map_err", Some(p)) => out.extend([t(" { Ok(vx_v) => Ok(vx_v), Err("), Piece::S(p.0, p.1), t(") => Err("), Piece::S(ba, bb), t(") })")]),
            ("map", Some(p)) => out.extend([t(" { Some("), Piece::S(p.0, p.1), t(") => Some("), Piece::S(ba, bb), t("), None => None })")]),
            ("and_then", Some(p)) => out.extend([t(" { Some("), Piece::S(p.0, p.1), t(") => "), Piece::S(ba, bb), t(", None => None })")]),
            _ => return false,
        }
        self.rep(range(c), out, "option method");
        self.visit_expr(&c.receiver);
        self.closure_no += 1;
        self.visit_expr(&cl.body);
        true
    }
}

impl<'a, 'c> Visit<'a> for V<'c> {
    fn visit_path(&mut self, p: &'a syn::Path) {
        let segs = segs_of(p);
        if self.mut_self && segs == ["self"] {
            self.rep(range(p), vec![Piece::T("vx_self".into())], "mut self");
            return;
        }
        if segs == ["AsRef"] && self.text(range(p)).replace(' ', "") == "AsRef<[u8]>" {
            let r = range(p);
            self.rep(r, vec![Piece::T("VxBytes".into())], "bytes bound");
            return;
        }
        if segs.len() == 2 && segs[0] == "serde" {
            let (a, _) = range(p);
            let (la, _) = range(p.segments.last().unwrap());
            self.rep((a, la), vec![], "serde path");
        }
        if segs.len() >= 2 && (segs[0] == "std" || segs[0] == "core" || segs[0] == "alloc") {
            let last = p.segments.last().unwrap();
            let (la, _) = range(&last.ident);
            let (a, _) = range(p);
            if STD_TYPES.contains(&last.ident.to_string().as_str()) {
                self.rep((a, la), vec![], "std path");
            } else if segs.len() >= 3 && STD_TYPES.contains(&segs[segs.len() - 2].as_str()) {
                let (pa, _) = range(&p.segments[segs.len() - 2].ident);
                self.rep((a, pa), vec![], "std path");
            }
        }
        visit::visit_path(self, p)
    }

    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let segs = segs_of(&p.path);
            let close = c.paren_token.span.close().byte_range().start;
            if let Some((shim, world)) = effect_path(&segs) {
                let (a, b) = range(&p.path);
                // keep turbofish arguments
                let gen = match &p.path.segments.last().unwrap().arguments {
                    syn::PathArguments::None => String::new(),
                    x => self.text(range(x)).to_string(),
                };
                self.rep((a, b), vec![Piece::T(shim), Piece::T(gen)], "std call");
                if world {
                    self.add_world(close, c.args.len(), c.args.trailing_punct());
                }
                for a in &c.args {
                    self.visit_expr(a);
                }
                return;
            }
            if let Some(i) = self.ctx.resolve_call(&segs, &self.module) {
                if self.ctx.fns[i].effect {
                    self.add_world(close, c.args.len(), c.args.trailing_punct());
                }
            }
            if segs.len() == 2 && segs[0] == "u16" && (segs[1] == "from_le_bytes" || segs[1] == "from_be_bytes") {
                let (a, b) = range(&p.path);
                self.rep((a, b), vec![Piece::T(format!("vx_u16_{}", segs[1]))], "std call");
                for a in &c.args {
                    self.visit_expr(a);
                }
                return;
            }
            if segs.len() == 2 && segs[1] == "from_str_radix" {
                let (a, b) = range(&p.path);
                self.rep((a, b), vec![Piece::T(format!("vx_{}_from_str_radix", segs[0]))], "std call");
                for a in &c.args {
                    self.visit_expr(a);
                }
                return;
            }
            // enum variants and Some/Ok/Err: nothing special
        }
        visit::visit_expr_call(self, c)
    }

    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        let n = c.method.to_string();
        let close = c.paren_token.span.close().byte_range().start;
        self.by_ref(&c.receiver);
        let mr = range(&c.method);
        if self.option_method(c) {
            return;
        }
        // E[a..b].copy_from_slice(x)
        if let (syn::Expr::Index(i), "copy_from_slice" | "clone_from_slice", 1) = (&*c.receiver, n.as_str(), c.args.len()) {
            if let syn::Expr::Range(r) = &*i.index {
                if let (Some(s), Some(e)) = (&r.start, &r.end) {
                    let mut out = vec![];
                    let (a, b) = range(&*i.expr);
                    out.push(Piece::S(a, b));
                    out.push(Piece::T(".vx_put(".into()));
                    let (a, b) = range(&**s);
                    out.push(Piece::S(a, b));
                    out.push(Piece::T(", ".into()));
                    let (a, b) = range(&**e);
                    out.push(Piece::S(a, b));
                    out.push(Piece::T(if matches!(r.limits, syn::RangeLimits::Closed(_)) { " + 1, " } else { ", " }.into()));
                    let (a, b) = range(&c.args[0]);
                    out.push(Piece::S(a, b));
                    out.push(Piece::T(")".into()));
                    self.rep(range(c), out, "range update");
                    self.visit_expr(&i.expr);
                    self.visit_expr(s);
                    self.visit_expr(e);
                    self.visit_expr(&c.args[0]);
                    return;
                }
            }
        }
        let crate_methods = self.ctx.resolve_method(&n);
        if EFFECT_METHODS.contains(&n.as_str()) && c.args.len() <= 1 {
            self.add_world(close, c.args.len(), c.args.trailing_punct());
            self.rep(mr, vec![Piece::T(format!("vx_{}", n))], "std method");
        } else if !crate_methods.is_empty() && crate_methods.iter().all(|&i| self.ctx.fns[i].effect) {
            self.add_world(close, c.args.len(), c.args.trailing_punct());
        } else if n == "parse" {
            if let Some(t) = &c.turbofish {
                let ty = self.text(range(&t.args)).to_string();
                let a = mr.0;
                let b = range(t).1;
                self.rep((a, b), vec![Piece::T(format!("vx_parse_{}", ty.trim_matches(|c| c == '<' || c == '>' || c == ' ')))], "std method");
            }
        } else if n == "drain" && c.args.len() == 1 && matches!(&c.args[0], syn::Expr::Range(_)) {
            if let syn::Expr::Range(r) = &c.args[0] {
                let mut out = vec![];
                match &r.start {
                    Some(e) => {
                        let (a, b) = range(e);
                        out.push(Piece::S(a, b));
                    }
                    None => out.push(Piece::T("0".into())),
                }
                if let Some(e) = &r.end {
                    out.push(Piece::T(", ".into()));
                    let (a, b) = range(e);
                    out.push(Piece::S(a, b));
                    if matches!(r.limits, syn::RangeLimits::Closed(_)) {
                        out.push(Piece::T(" + 1".into()));
                    }
                }
                let rr = range(&c.args[0]);
                self.rep(rr, out, "std method");
                self.rep(mr, vec![Piece::T(if r.end.is_some() { "vx_drain" } else { "vx_drain_from" }.into())], "std method");
            }
        } else if n == "splice" && c.args.len() == 2 && matches!(&c.args[0], syn::Expr::Range(_)) {
            if let syn::Expr::Range(r) = &c.args[0] {
                let mut out = vec![];
                match &r.start {
                    Some(e) => {
                        let (a, b) = range(e);
                        out.push(Piece::S(a, b));
                    }
                    None => out.push(Piece::T("0".into())),
                }
                out.push(Piece::T(", ".into()));
                match &r.end {
                    Some(e) => {
                        let (a, b) = range(e);
                        out.push(Piece::S(a, b));
                    }
                    None => out.push(Piece::T("usize::MAX".into())),
                }
                let rr = range(&c.args[0]);
                self.rep(rr, out, "std method");
                self.rep(mr, vec![Piece::T("vx_splice".into())], "std method");
            }
        } else if RENAME.contains(&n.as_str()) && crate_methods.is_empty() {
            self.rep(mr, vec![Piece::T(format!("vx_{}", n))], "std method");
        }
        visit::visit_expr_method_call(self, c)
    }

    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let k = segs.len();
        if p.qself.is_none() && k >= 2 && (k == 2 || segs[0] == "std" || segs[0] == "core") {
            if let Some(x) = PATHS.iter().find(|x| x.0 == segs[k - 2] && x.1 == segs[k - 1]) {
                self.rep(range(&p.path), vec![Piece::T(x.2.to_string())], "std call");
                return;
            }
        }
        visit::visit_expr_path(self, p)
    }

    fn visit_expr_reference(&mut self, r: &'a syn::ExprReference) {
        if let syn::Expr::Index(i) = &*r.expr {
            if matches!(&*i.index, syn::Expr::Range(_)) && r.mutability.is_none() {
                // &E[a..b] is the shim's result itself
                self.by_ref(&r.expr);
                let (a, _) = range(r);
                let (b, _) = range(&*r.expr);
                self.rep((a, b), vec![], "range index");
            }
        }
        visit::visit_expr_reference(self, r)
    }

    fn visit_expr_index(&mut self, i: &'a syn::ExprIndex) {
        if let syn::Expr::Range(r) = &*i.index {
            let whole = range(i);
            let byref = self.deref_ok.contains(&whole);
            let (ba, bb) = range(&*i.expr);
            let mut out = vec![];
            if !byref {
                out.push(Piece::T("(*".into()));
            }
            out.push(Piece::S(ba, bb));
            let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
            match (&r.start, &r.end) {
                (Some(s), Some(e)) => {
                    out.push(Piece::T(".vx_range(".into()));
                    let (x, y) = range(&**s);
                    out.push(Piece::S(x, y));
                    out.push(Piece::T(", ".into()));
                    let (x, y) = range(&**e);
                    out.push(Piece::S(x, y));
                    out.push(Piece::T(if incl { " + 1)" } else { ")" }.into()));
                }
                (Some(s), None) => {
                    out.push(Piece::T(".vx_from(".into()));
                    let (x, y) = range(&**s);
                    out.push(Piece::S(x, y));
                    out.push(Piece::T(")".into()));
                }
                (None, Some(e)) => {
                    out.push(Piece::T(".vx_to(".into()));
                    let (x, y) = range(&**e);
                    out.push(Piece::S(x, y));
                    out.push(Piece::T(if incl { " + 1)" } else { ")" }.into()));
                }
                (None, None) => {
                    out.push(Piece::T(".vx_from(0)".into()));
                }
            }
            if !byref {
                out.push(Piece::T(")".into()));
            }
            self.rep(whole, out, "range index");
        }
        visit::visit_expr_index(self, i)
    }

    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        let k = self.loop_no;
        self.loop_no += 1;
        let lc = self.loop_c(k);
        let w = range(l);
        let ir = range(&*l.expr);
        let br = range(&l.body);
        let auto = vec![
            format!("0 <= vx_i{k} <= vx_all{k}.len()"),
            format!("vx_it{k}@ == vx_all{k}.skip(vx_i{k})"),
        ];
        let (spec, _) = self.loop_spec(k, &auto, Some(format!("vx_all{k}.len() - vx_i{k}")));
        let mut out = vec![Piece::T(format!("{{ let mut vx_it{k} = vx_into(")), Piece::S(ir.0, ir.1), Piece::T(format!(
            "); let ghost vx_all{k} = vx_it{k}@; let ghost mut vx_i{k}: int = 0;\n{}", lc.before
        ))];
        let label = l.label.as_ref().map(|x| self.text(range(x)).to_string()).unwrap_or_default();
        out.push(Piece::T(format!("{} while vx_it{k}.vx_has_next() {} ", label, spec)));
        out.push(Piece::S(br.0, br.1));
        out.push(Piece::T(format!("\n{} }}", lc.after)));
        self.rep(w, out, "for loop");
        let pr = range(&*l.pat);
        let pt = self.text(pr).to_string();
        let mut begin = String::new();
        match pat_needs_deref(&l.pat) {
            Some(inner) => {
                let it = self.text(inner).to_string();
                begin.push_str(&format!(" let vx_p{k} = vx_it{k}.vx_take(); let {it} = *vx_p{k};"));
            }
            None => begin.push_str(&format!(" let {pt} = vx_it{k}.vx_take();")),
        }
        begin.push_str(&format!(" proof {{ vx_i{k} = vx_i{k} + 1; }}\n{}", lc.begin));
        self.body_inserts(&l.body, begin, &lc.end);
        self.visit_expr(&l.expr);
        self.visit_block(&l.body);
    }

    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
        let k = self.loop_no;
        self.loop_no += 1;
        let lc = self.loop_c(k);
        let (spec, nodec) = self.loop_spec(k, &[], None);
        self.nodec |= nodec;
        let br = range(&l.body);
        let w = range(l);
        if !spec.is_empty() {
            self.ins(br.0, &spec, "loop spec");
        }
        if !lc.before.is_empty() || !lc.after.is_empty() {
            self.rep(w, vec![Piece::T(format!("{{ {}\n", lc.before)), Piece::S(w.0, w.1), Piece::T(format!("\n{} }}", lc.after))], "loop frame");
        }
        self.body_inserts(&l.body, lc.begin.clone(), &lc.end);
        visit::visit_expr_while(self, l)
    }

    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
        let k = self.loop_no;
        self.loop_no += 1;
        let lc = self.loop_c(k);
        let (spec, nodec) = self.loop_spec(k, &[], None);
        self.nodec |= nodec;
        let br = range(&l.body);
        let w = range(l);
        if !spec.is_empty() {
            self.ins(br.0, &spec, "loop spec");
        }
        if !lc.before.is_empty() || !lc.after.is_empty() {
            self.rep(w, vec![Piece::T(format!("{{ {}\n", lc.before)), Piece::S(w.0, w.1), Piece::T(format!("\n{} }}", lc.after))], "loop frame");
        }
        self.body_inserts(&l.body, lc.begin.clone(), &lc.end);
        visit::visit_expr_loop(self, l)
    }

    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        let k = self.closure_no;
        self.closure_no += 1;
        let path = self.f.map(|f| self.ctx.fns[f].path.clone()).unwrap_or_default();
        let id = format!("{}#{}", path, k);
        let explicit = self.contract.as_ref().and_then(|x| x.closures.get(&k)).cloned();
        let (ba, bb) = range(&*c.body);
        let mut lets = String::new();
        for (j, p) in c.inputs.iter().enumerate() {
            if let Some(inner) = pat_needs_deref(p) {
                let it = self.text(inner).to_string();
                let pr = range(p);
                self.rep(pr, vec![Piece::T(format!("vx_c{j}"))], "closure pattern");
                lets.push_str(&format!("let {it} = *vx_c{j}; "));
            } else if matches!(p, syn::Pat::Tuple(_)) {
                let pr = range(p);
                let it = self.text(pr).to_string();
                self.rep(pr, vec![Piece::T(format!("vx_c{j}"))], "closure pattern");
                lets.push_str(&format!("let {it} = vx_c{j}; "));
            }
        }
        // type inside closure params may be annotated: keep
        let is_block = matches!(&*c.body, syn::Expr::Block(_));
        let auto = explicit.is_none() && !is_block && specable(&c.body) && !self.ctx.noclosure.contains(&id);
        let mut out = vec![];
        let no_ret = matches!(c.output, syn::ReturnType::Default);
        let explicit_none = explicit.is_none();
        if let Some(e) = explicit {
            // the result's type, where inference needs it: a first line `type T`
            let e = e.trim();
            let (ty, e) = match e.strip_prefix("type ").and_then(|x| x.split_once('\n')) { Some((t, r)) => (t.trim(), r), None => ("_", e) };
            out.push(Piece::T(format!("-> (vx_r: {}) {} {{ {}", ty, e, lets)));
            out.push(Piece::S(ba, bb));
            out.push(Piece::T(" }".into()));
        } else if auto && no_ret {
            let (t1, t2) = if lets.is_empty() { (String::new(), "") } else { (format!("({{ {lets}"), "})") };
            out.push(Piece::T(format!("-> (vx_r: _) ensures same(vx_r, {t1}")));
            let bt = self.spec_text(&c.body).replace('\n', " ");
            out.push(Piece::T(bt));
            out.push(Piece::T(format!("{t2}) {{ /*vxclosure {id}*/ {lets}")));
            out.push(Piece::S(ba, bb));
            out.push(Piece::T(" }".into()));
        } else if let (Some((en, v)), true) = (variant_of(&c.body), explicit_none && no_ret && !self.ctx.noclosure.contains(&id)) {
            // a closure that builds one variant of an enum
            let same = match &*c.body {
                syn::Expr::Call(x) if x.args.iter().all(|a| matches!(a, syn::Expr::Path(_))) => format!(", same(vx_r, {})", self.text((ba, bb)).replace('\n', " ")),
                _ => String::new(),
            };
            out.push(Piece::T(format!("-> (vx_r: {en}) ensures vx_r is {v}{same} {{ /*vxclosure {id}*/ {lets}")));
            out.push(Piece::S(ba, bb));
            out.push(Piece::T(" }".into()));
        } else if !lets.is_empty() {
            out.push(Piece::T(format!("{{ {lets}")));
            out.push(Piece::S(ba, bb));
            out.push(Piece::T(" }".into()));
        }
        if !out.is_empty() {
            self.rep((ba, bb), out, "closure");
        }
        self.closure_depth += 1;
        self.visit_expr(&c.body);
        self.closure_depth -= 1;
    }

    fn visit_attribute(&mut self, _a: &'a syn::Attribute) {}

    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let r = range(m);
        let args = fmtmac::macro_exprs(m);
        let mut visit_args: Vec<syn::Expr> = vec![];
        match n.as_str() {
            "format" => {
                if let Some(p) = args.as_ref().and_then(|a| fmtmac::format_pieces(a)) {
                    self.rep(r, p, "format");
                    visit_args = args.unwrap()[1..].to_vec();
                }
            }
            x if PRINT_MACROS.contains(&x) => {
                let f = if x == "prints" { "crate::styles_prints::prints_message".to_string() } else { format!("vx_{}", x) };
                let pieces = match &args {
                    Some(a) if !a.is_empty() => fmtmac::format_pieces(a),
                    Some(_) => Some(vec![Piece::T("vx_lit(\"\")".into())]),
                    None => None,
                };
                if let (Some(p), Some(a)) = (pieces, args) {
                    // the verifier sees the characters a message begins with
                    let first = if x == "prints" { fmtmac::first_text(&a) } else { None };
                    let (open, close) = match first { Some(t) => (format!("{{ proof {{ reveal_strlit({:?}); }} ", t), " }"), None => (String::new(), "") };
                    let mut out = vec![Piece::T(format!("{}{}(", open, f))];
                    out.extend(p);
                    out.push(Piece::T(format!(", Tracked(&mut *vx_w)){}", close)));
                    self.rep(r, out, "print");
                    visit_args = a.iter().skip(1).cloned().collect();
                }
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.rep(r, vec![Piece::T("vx_panic()".into())], "panic");
            }
            "env" => {
                if let Some(syn::Expr::Lit(l)) = args.as_ref().and_then(|a| a.first()) {
                    if let syn::Lit::Str(s) = &l.lit {
                        let v = self.ctx.env.get(&s.value()).cloned().unwrap_or_default();
                        // the value is known at extraction: let the verifier see its characters
                        let t = format!("{:?}", v);
                        self.rep(r, vec![Piece::T(format!("{{ proof {{ reveal_strlit({t}); if forall|i: int| 0 <= i < {t}@.len() ==> ({t}@[i] as u32) <= 127 {{ lemma_ascii_len({t}@); }} }} {t} }}"))], "env");
                    }
                }
            }
            "include_str" => {
                if let Some(syn::Expr::Lit(l)) = args.as_ref().and_then(|a| a.first()) {
                    if let syn::Lit::Str(s) = &l.lit {
                        let base = self.ctx.repo.join(&self.ctx.srcs[self.src].file);
                        let p = base.parent().unwrap().join(s.value().trim_start_matches("./"));
                        let p = p.strip_prefix(&self.ctx.repo).map(|x| x.to_path_buf()).unwrap_or(p);
                        self.rep(r, vec![Piece::T(format!("vx_include({:?})", p.display().to_string()))], "include");
                    }
                }
            }
            "assert" | "assert_eq" | "assert_ne" | "debug_assert" => {
                // a runtime assertion must hold
                if let Some(a) = args {
                    let rs: Vec<(usize, usize)> = a.iter().map(|x| range(x)).collect();
                    let mut out = vec![];
                    if n == "assert" || n == "debug_assert" {
                        out.push(Piece::T("vx_assert(".into()));
                        out.push(Piece::S(rs[0].0, rs[0].1));
                        out.push(Piece::T(")".into()));
                        visit_args = vec![a[0].clone()];
                    } else {
                        out.push(Piece::T("vx_assert((".into()));
                        out.push(Piece::S(rs[0].0, rs[0].1));
                        out.push(Piece::T(if n == "assert_eq" { ") == (" } else { ") != (" }.into()));
                        out.push(Piece::S(rs[1].0, rs[1].1));
                        out.push(Piece::T("))".into()));
                        visit_args = vec![a[0].clone(), a[1].clone()];
                    }
                    self.rep(r, out, "assert");
                }
            }
            _ => {
                if let Some(a) = args {
                    visit_args = a;
                }
            }
        }
        for e in &visit_args {
            self.visit_expr(e);
        }
        // paths inside types of macros are not visited
    }
}

pub struct FnOut {
    pub f: usize,
    pub start: usize,
    pub end: usize,
    pub status: &'static str,
}

fn render_edits(text: &str, mut edits: Vec<Edit>, a: usize, b: usize) -> String {
    sort_edits(&mut edits);
    let mut used = vec![false; edits.len()];
    render(text, &edits, &mut used, a, b)
}

fn render_type(ctx: &Ctx, src: usize, module: &str, t: &syn::Type) -> String {
    let mut v = V::new(ctx, None, src, module, None);
    v.visit_type(t);
    let (a, b) = range(t);
    render_edits(&ctx.srcs[src].text, v.edits, a, b)
}

/// where a claim of the impossible is put, to see that nothing before it is contradictory
fn probes(b: &syn::Block, out: &syn::ReturnType) -> Vec<(usize, Option<usize>)> {
    struct P(Vec<(usize, Option<usize>)>);
    impl<'a> Visit<'a> for P {
        fn visit_block(&mut self, b: &'a syn::Block) {
            for s in &b.stmts {
                if matches!(s, syn::Stmt::Item(_)) { continue; }
                self.0.push((range(s).0, None));
            }
            syn::visit::visit_block(self, b);
        }
        fn visit_expr_closure(&mut self, _c: &'a syn::ExprClosure) {}
        fn visit_item(&mut self, _i: &'a syn::Item) {}
    }
    let mut p = P(vec![]);
    p.visit_block(b);
    let never = matches!(out, syn::ReturnType::Type(_, t) if matches!(**t, syn::Type::Never(_)));
    if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
        if !never && !matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::Macro(_)) { let r = range(e); p.0.push((r.0, Some(r.1))); }
    }
    p.0
}

fn clauses(kind: &str, c: &[String]) -> String {
    if c.is_empty() {
        return String::new();
    }
    let mut s = format!("\n    {}\n", kind);
    for l in c {
        s.push_str(l);
        s.push('\n');
    }
    s
}

pub fn emit_fn(ctx: &Ctx, fi: usize, in_trait_impl: bool, o: &mut String, map: &mut Vec<FnOut>) {
    let f = &ctx.fns[fi];
    let s = &ctx.srcs[f.src];
    let c = ctx.contracts.get(&f.path).cloned();
    if let Some(c) = &c {
        if c.skip {
            map.push(FnOut { f: fi, start: o.len(), end: o.len(), status: "skipped" });
            return;
        }
    }
    let cc = c.clone().unwrap_or_default();
    let mut v = V::new(ctx, Some(fi), f.src, &s.module, c.clone());
    v.visit_signature(&f.sig);
    if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first() {
        if let (Some(m), None) = (&r.mutability, &r.reference) {
            let a = range(m).0;
            v.rep((a, range(&r.self_token).0), vec![], "mut self");
            let open = f.block.brace_token.span.open().byte_range().end;
            v.ins(open, " let mut vx_self = self; ", "mut self");
            v.mut_self = true;
        }
    }
    v.visit_block(&f.block);
    // world parameter
    if f.effect {
        let close = f.sig.paren_token.span.close().byte_range().start;
        let t = if f.sig.inputs.is_empty() || f.sig.inputs.trailing_punct() { "Tracked(vx_w): Tracked<&mut World>" } else { ", Tracked(vx_w): Tracked<&mut World>" };
        v.ins(close, t, "world");
    }
    // mut self / mut args keep
    let (fa, _) = range(&f.sig);
    let (ba, bb) = range(&f.block);
    let ret = cc.ret.clone().unwrap_or_else(|| "ret".into());
    match &f.sig.output {
        syn::ReturnType::Type(_, t) if !matches!(**t, syn::Type::Never(_)) => {
            let (ta, tb) = range(&**t);
            v.rep((ta, tb), vec![Piece::T(format!("({}: ", ret)), Piece::S(ta, tb), Piece::T(")".into())], "result name");
        }
        _ => {}
    }
    let demoted = ctx.demoted.contains(&f.path);
    let trusted = cc.trusted.is_some();
    let nodec = v.nodec;
    if !cc.begin.is_empty() {
        let open = f.block.brace_token.span.open().byte_range().end;
        v.ins(open, &format!("\n{}", cc.begin), "ghost");
    }
    if !cc.end.is_empty() {
        let close = f.block.brace_token.span.close().byte_range().start;
        v.ins(close, &format!("\n{}", cc.end), "ghost");
    }
    if ctx.probe {
        for (a, b) in probes(&f.block, &f.sig.output) {
            let n = a * 2 + b.is_some() as usize;
            let t = format!("proof {{ if vx_arb({}) {{ assert(false); }} }}\n", n);
            match b {
                None => v.ins(a, &t, "probe"),
                Some(b) => { v.ins(a, "let vx_tail = ", "probe"); v.ins(b, &format!(";\n{}vx_tail", t), "probe"); }
            }
        }
    }
    let mut edits = v.edits;
    sort_edits(&mut edits);
    let mut used = vec![false; edits.len()];
    let start = o.len();
    o.push_str("\n");
    if demoted || trusted {
        o.push_str("#[verifier::external_body]\n");
    } else {
        o.push_str("#[verifier::loop_isolation(false)]\n");
        if nodec && cc.decreases.is_empty() {
            o.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
        }
    }
    if let Some(r) = &cc.rlimit {
        o.push_str(&format!("#[verifier::rlimit({})]\n", r));
    }
    o.push_str(&cc.attrs);
    if !in_trait_impl {
        o.push_str("pub ");
    }
    let sig = render(&s.text, &edits, &mut used, fa, ba);
    // the verifier's own entry point is called main
    let sig = if f.path == "main" { sig.replacen("fn main", "fn vx_main", 1) } else { sig };
    let _ = write!(o, "{}", sig);
    if !in_trait_impl || true {
        if !cc.requires.is_empty() {
            o.push_str(&clauses("requires", &cc.requires));
        }
        if !cc.ensures.is_empty() {
            o.push_str(&clauses("ensures", &cc.ensures));
        }
        if !cc.decreases.is_empty() {
            o.push_str(&format!("\n    decreases {}\n", cc.decreases));
        }
    }
    if demoted || trusted {
        o.push_str("{ unimplemented!() }\n");
    } else {
        o.push_str(&render(&s.text, &edits, &mut used, ba, bb));
        o.push('\n');
    }
    let status = if demoted {
        "demoted"
    } else if trusted {
        "trusted"
    } else if c.is_some() {
        "verified"
    } else {
        "uncontracted"
    };
    map.push(FnOut { f: fi, start, end: o.len(), status });
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn generics_text(ctx: &Ctx, src: usize, g: &syn::Generics) -> String {
    if g.params.is_empty() {
        String::new()
    } else {
        ctx.srcs[src].text[range(g).0..range(g).1].to_string()
    }
}

pub fn emit_module(ctx: &Ctx, module: &str, o: &mut String, map: &mut Vec<FnOut>) {
    let has_manual_eq = |name: &str| {
        ctx.srcs.iter().any(|s| {
            s.ast.items.iter().any(|it| match it {
                syn::Item::Impl(im) => {
                    im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident == "PartialEq").unwrap_or(false) && type_name(&im.self_ty) == name
                }
                _ => false,
            })
        })
    };
    let idxs: Vec<usize> = (0..ctx.srcs.len()).filter(|&i| ctx.srcs[i].module == module).collect();
    // children
    let mut kids: Vec<String> = vec![];
    for s in &ctx.srcs {
        let parent = match s.module.rsplit_once("::") {
            Some((p, _)) => p.to_string(),
            None => String::new(),
        };
        if !s.module.is_empty() && parent == module && !kids.contains(&s.module) {
            kids.push(s.module.clone());
        }
    }
    let last = module.rsplit("::").next().unwrap_or("");
    if !module.is_empty() {
        let _ = write!(o, "\npub mod {} {{\n", last);
        o.push_str("use vstd::prelude::*;\nuse crate::vx::*;\nuse crate::spec::*;\n");
    } else {
        // the crate's root module, with the names its use declarations bring in
        o.push_str("use vstd::prelude::*;\npub use vx_root::vx_main;\npub mod vx_root {\nuse vstd::prelude::*;\nuse crate::vx::*;\nuse crate::spec::*;\n");
    }
    o.push_str("verus! {\nbroadcast use crate::spec::group_all;\n");
    for &si in &idxs {
        let s = &ctx.srcs[si];
        for it in &s.ast.items {
            match it {
                syn::Item::Use(u) => {
                    let (a, b) = range(u);
                    let t = s.text[a..b].replace("pub(crate) ", "");
                    let first = match &u.tree {
                        syn::UseTree::Path(p) => p.ident.to_string(),
                        syn::UseTree::Name(n) => n.ident.to_string(),
                        _ => String::new(),
                    };
                    let flat = t.replace(char::is_whitespace, "");
                    let t = if module.is_empty() && kids.contains(&first) { t.replacen(&first, &format!("crate::{}", first), 1) } else { t };
                    if ((first == "std" || first == "core") && !flat.contains("std::cmp::")) || first == "serde" || first == "serde_json" || flat == "usecrate::prints;" {
                        continue;
                    }
                    o.push_str("#[allow(unused_imports)] ");
                    o.push_str(&t);
                    o.push('\n');
                }
                syn::Item::Struct(st) => {
                    let name = st.ident.to_string();
                    let d = derives(&st.attrs);
                    let keep: Vec<&str> = ["PartialEq", "Eq"].iter().copied().filter(|x| d.iter().any(|y| y == x) && ctx.config.keep_traits.contains(&format!("{}::{}", name, x))).collect();
                    if !keep.is_empty() {
                        let _ = write!(o, "#[derive({})]\n", keep.join(", "));
                    }
                    let _ = write!(o, "pub struct {}{} ", name, generics_text(ctx, si, &st.generics));
                    match &st.fields {
                        syn::Fields::Named(fs) => {
                            o.push_str("{\n");
                            for f in &fs.named {
                                let _ = write!(o, "    pub {}: {},\n", f.ident.as_ref().unwrap(), render_type(ctx, si, module, &f.ty));
                            }
                            o.push_str("}\n");
                        }
                        syn::Fields::Unnamed(fs) => {
                            o.push('(');
                            for f in &fs.unnamed {
                                let _ = write!(o, "pub {}, ", render_type(ctx, si, module, &f.ty));
                            }
                            o.push_str(");\n");
                        }
                        syn::Fields::Unit => o.push_str(";\n"),
                    }
                    if d.iter().any(|x| x == "Clone") {
                        emit_clone(o, &name, &generics_text(ctx, si, &st.generics));
                    }
                }
                syn::Item::Enum(en) => {
                    let name = en.ident.to_string();
                    let d = derives(&en.attrs);
                    let fieldless = en.variants.iter().all(|v| v.fields.is_empty());
                    if fieldless && d.iter().any(|x| x == "PartialEq") {
                        o.push_str("#[derive(PartialEq, Eq, Structural)]\n");
                    } else if has_manual_eq(&name) && d.iter().any(|x| x == "Eq") && ctx.config.keep_traits.contains(&format!("{}::PartialEq", name)) {
                        o.push_str("#[derive(Eq)]\n");
                    }
                    let _ = write!(o, "pub enum {}{} {{\n", name, generics_text(ctx, si, &en.generics));
                    for v in &en.variants {
                        let _ = write!(o, "    {}", v.ident);
                        match &v.fields {
                            syn::Fields::Named(fs) => {
                                o.push_str(" { ");
                                for f in &fs.named {
                                    let _ = write!(o, "{}: {}, ", f.ident.as_ref().unwrap(), render_type(ctx, si, module, &f.ty));
                                }
                                o.push_str("}");
                            }
                            syn::Fields::Unnamed(fs) => {
                                o.push('(');
                                for f in &fs.unnamed {
                                    let _ = write!(o, "{}, ", render_type(ctx, si, module, &f.ty));
                                }
                                o.push(')');
                            }
                            syn::Fields::Unit => {}
                        }
                        o.push_str(",\n");
                    }
                    o.push_str("}\n");
                    if d.iter().any(|x| x == "Clone") {
                        emit_clone(o, &name, &generics_text(ctx, si, &en.generics));
                    }
                }
                syn::Item::Const(_) | syn::Item::Type(_) | syn::Item::Static(_) => {
                    let (a, b) = range(it);
                    let mut v = V::new(ctx, None, si, module, None);
                    v.visit_item(it);
                    let t = render_edits(&s.text, v.edits, a, b);
                    let t = t.trim_start_matches("pub(crate) ").trim_start_matches("pub ").to_string();
                    o.push_str("pub ");
                    o.push_str(&t);
                    o.push('\n');
                }
                syn::Item::Fn(f) => {
                    if f.attrs.iter().any(|a| a.path().is_ident("test") || a.path().is_ident("cfg")) {
                        continue;
                    }
                    let path = if module.is_empty() { f.sig.ident.to_string() } else { format!("{}::{}", module, f.sig.ident) };
                    let fi = ctx.fns.iter().position(|x| x.path == path && x.src == si).unwrap();
                    emit_fn(ctx, fi, false, o, map);
                }
                syn::Item::Impl(im) => {
                    let ty = type_name(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                    if let Some(t) = &tr {
                        if !ctx.config.keep_traits.contains(&format!("{}::{}", ty, t)) {
                            continue;
                        }
                    }
                    let (a, _) = range(im);
                    let open = im.brace_token.span.open().byte_range().end;
                    // skip attributes
                    let hs = im.impl_token.span.byte_range().start;
                    let _ = a;
                    o.push_str(&s.text[hs..open]);
                    o.push('\n');
                    if let Some(t) = &tr {
                        for (k, v) in &ctx.config.impl_spec {
                            if *k == format!("{}::{}", ty, t) {
                                o.push_str(v);
                                o.push('\n');
                            }
                        }
                    }
                    let pre = if module.is_empty() { String::new() } else { format!("{}::", module) };
                    for ii in &im.items {
                        match ii {
                            syn::ImplItem::Fn(f) => {
                                let p = match &tr {
                                    Some(t) => format!("{}{}::{}::{}", pre, ty, t, f.sig.ident),
                                    None => format!("{}{}::{}", pre, ty, f.sig.ident),
                                };
                                let fi = ctx.fns.iter().position(|x| x.path == p && x.src == si).unwrap();
                                emit_fn(ctx, fi, tr.is_some(), o, map);
                            }
                            other => {
                                let (x, y) = range(other);
                                o.push_str(&s.text[x..y]);
                                o.push('\n');
                            }
                        }
                    }
                    o.push_str("}\n");
                }
                syn::Item::Trait(t) => {
                    let (x, y) = range(t);
                    o.push_str(&s.text[x..y]);
                    o.push('\n');
                }
                _ => {}
            }
        }
    }
    o.push_str("} // verus!\n");
    if module.is_empty() {
        o.push_str("}\n");
    }
    for k in kids {
        emit_module(ctx, &k, o, map);
    }
    if !module.is_empty() {
        o.push_str("}\n");
    } else {
        o.push_str("fn main() {}\n");
    }
}

fn emit_clone(o: &mut String, name: &str, gen: &str) {
    let _ = write!(
        o,
        "impl{gen} Clone for {name}{gen} {{\n#[verifier::external_body]\nfn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }}\n}}\n"
    );
}

/// Is every crate type reachable from `root` written and read by matching serde code: both derived,
/// with attributes that treat both directions alike, or both hand-written (and then under contract)?
pub fn json_symmetric(ctx: &Ctx, root: &str) -> bool {
    fn attrs_ok(attrs: &[syn::Attribute]) -> bool {
        attrs.iter().all(|a| {
            if !a.path().is_ident("serde") {
                return !a.path().is_ident("cfg_attr");
            }
            let mut ok = true;
            let r = a.parse_nested_meta(|m| {
                let n = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                ok &= ["rename", "rename_all", "alias", "deny_unknown_fields", "default"].contains(&n.as_str());
                if m.input.peek(syn::Token![=]) {
                    let _: syn::Lit = m.value()?.parse()?;
                    ok &= n != "default";
                } else if m.input.peek(syn::token::Paren) {
                    ok = false;
                    let c;
                    syn::parenthesized!(c in m.input);
                    let _: proc_macro2::TokenStream = c.parse()?;
                }
                Ok(())
            });
            r.is_ok() && ok
        })
    }
    struct Names(Vec<String>);
    impl<'a> Visit<'a> for Names {
        fn visit_path(&mut self, p: &'a syn::Path) {
            self.0.push(p.segments.last().unwrap().ident.to_string());
            visit::visit_path(self, p)
        }
    }
    let manual = |ty: &str, tr: &str| {
        ctx.fns.iter().any(|f| f.owner.as_deref() == Some(ty) && f.path.contains(&format!("{}::{}::", ty, tr)) && ctx.contracts.contains_key(&f.path))
    };
    let mut todo = vec![root.to_string()];
    let mut seen: std::collections::BTreeSet<String> = Default::default();
    let mut found_root = false;
    while let Some(n) = todo.pop() {
        if !seen.insert(n.clone()) {
            continue;
        }
        for s in &ctx.srcs {
            for it in &s.ast.items {
                let mut names = Names(vec![]);
                let (d, ok) = match it {
                    syn::Item::Struct(st) if st.ident == n => {
                        names.visit_fields(&st.fields);
                        (derives(&st.attrs), attrs_ok(&st.attrs) && st.fields.iter().all(|f| attrs_ok(&f.attrs)))
                    }
                    syn::Item::Enum(en) if en.ident == n => {
                        for v in &en.variants {
                            names.visit_fields(&v.fields);
                        }
                        (derives(&en.attrs), attrs_ok(&en.attrs) && en.variants.iter().all(|v| attrs_ok(&v.attrs) && v.fields.iter().all(|f| attrs_ok(&f.attrs))))
                    }
                    _ => continue,
                };
                found_root |= n == root;
                let (ds, dd) = (d.iter().any(|x| x == "Serialize"), d.iter().any(|x| x == "Deserialize"));
                let both_hand = !ds && !dd && manual(&n, "Serialize") && manual(&n, "Deserialize");
                if !ok || !((ds && dd) || both_hand) {
                    return false;
                }
                if !both_hand {
                    todo.extend(names.0);
                }
            }
        }
    }
    found_root
}
