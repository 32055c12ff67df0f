//! format-like macros
use super::{range, Piece};
use syn::parse::Parser;
use syn::punctuated::Punctuated;

pub const FMT: &[&str] = &["format", "println", "print", "eprintln", "eprint", "prints", "write", "writeln", "panic", "vec", "assert", "assert_eq", "matches", "unreachable"];

/// expressions inside a macro call, when they parse as a comma separated list
pub fn macro_exprs(m: &syn::Macro) -> Option<Vec<syn::Expr>> {
    let n = m.path.segments.last()?.ident.to_string();
    if n == "matches" {
        let p = |input: syn::parse::ParseStream| -> syn::Result<syn::Expr> {
            let e: syn::Expr = input.parse()?;
            let _: proc_macro2::TokenStream = input.parse()?;
            Ok(e)
        };
        return p.parse2(m.tokens.clone()).ok().map(|e| vec![e]);
    }
    if n == "vec" {
        // vec![x; n] or a list
        let p = |input: syn::parse::ParseStream| -> syn::Result<Vec<syn::Expr>> {
            let mut v = vec![];
            while !input.is_empty() {
                v.push(input.parse()?);
                if input.is_empty() {
                    break;
                }
                if input.peek(syn::Token![;]) {
                    let _: syn::Token![;] = input.parse()?;
                } else {
                    let _: syn::Token![,] = input.parse()?;
                }
            }
            Ok(v)
        };
        return p.parse2(m.tokens.clone()).ok();
    }
    Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated
        .parse2(m.tokens.clone())
        .ok()
        .map(|p| p.into_iter().collect())
}

fn lit(s: &str) -> String {
    format!("vx_lit({:?})", s)
}

/// the literal text a format string begins with
pub fn first_text(args: &[syn::Expr]) -> Option<String> {
    match args.first()? {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => {
                let v = s.value();
                let mut o = String::new();
                let cs: Vec<char> = v.chars().collect();
                let mut i = 0;
                while i < cs.len() {
                    if (cs[i] == '{' || cs[i] == '}') && i + 1 < cs.len() && cs[i + 1] == cs[i] { o.push(cs[i]); i += 2; continue; }
                    if cs[i] == '{' { break; }
                    o.push(cs[i]);
                    i += 1;
                }
                if o.is_empty() { None } else { Some(o) }
            }
            _ => None,
        },
        _ => None,
    }
}

/// the pieces of a format! call as concatenation of displayed parts
pub fn format_pieces(args: &[syn::Expr]) -> Option<Vec<Piece>> {
    let f = match args.first()? {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => s.value(),
            _ => return None,
        },
        _ => return None,
    };
    let mut parts: Vec<Vec<Piece>> = vec![];
    let mut cur = String::new();
    let cs: Vec<char> = f.chars().collect();
    let mut i = 0;
    let mut next = 1;
    while i < cs.len() {
        let c = cs[i];
        if c == '{' {
            if i + 1 < cs.len() && cs[i + 1] == '{' {
                cur.push('{');
                i += 2;
                continue;
            }
            let j = (i..cs.len()).find(|&j| cs[j] == '}')?;
            let spec: String = cs[i + 1..j].iter().collect();
            i = j + 1;
            let (name, how) = match spec.split_once(':') {
                Some((a, b)) => (a.trim().to_string(), b.to_string()),
                None => (spec.trim().to_string(), String::new()),
            };
            let func = match how.as_str() {
                "" => "vx_disp",
                "02X" => "vx_hex2",
                _ => "vx_fmt_other",
            };
            let arg: Vec<Piece> = if name.is_empty() {
                let e = args.get(next)?;
                next += 1;
                let (a, b) = range(e);
                vec![Piece::S(a, b)]
            } else if let Ok(k) = name.parse::<usize>() {
                let (a, b) = range(args.get(k + 1)?);
                vec![Piece::S(a, b)]
            } else {
                // inline name, unless given as name = expr
                let mut found = None;
                for e in &args[1..] {
                    if let syn::Expr::Assign(x) = e {
                        if let syn::Expr::Path(p) = &*x.left {
                            if p.path.is_ident(&name) {
                                found = Some(range(&x.right));
                            }
                        }
                    }
                }
                match found {
                    Some((a, b)) => vec![Piece::S(a, b)],
                    None => vec![Piece::T(name.clone())],
                }
            };
            if !cur.is_empty() {
                parts.push(vec![Piece::T(lit(&cur))]);
                cur.clear();
            }
            let mut p = vec![Piece::T(format!("{}(&(", func))];
            p.extend(arg);
            p.push(Piece::T("))".into()));
            parts.push(p);
        } else if c == '}' {
            cur.push('}');
            i += 2;
        } else {
            cur.push(c);
            i += 1;
        }
    }
    if !cur.is_empty() {
        parts.push(vec![Piece::T(lit(&cur))]);
    }
    if parts.is_empty() {
        return Some(vec![Piece::T("vx_lit(\"\")".into())]);
    }
    let n = parts.len();
    let mut out = vec![];
    for _ in 1..n {
        out.push(Piece::T("vx_cat(".into()));
    }
    for (k, p) in parts.into_iter().enumerate() {
        if k > 0 {
            out.push(Piece::T(", ".into()));
        }
        out.extend(p);
        if k > 0 {
            out.push(Piece::T(")".into()));
        }
    }
    Some(out)
}

/// printing macros: the arguments are still evaluated, nothing else is kept
pub fn print_pieces(args: &[syn::Expr]) -> Vec<Piece> {
    let mut out = vec![Piece::T("{ ".into())];
    for e in args.iter().skip(1) {
        let (a, b) = range(e);
        out.push(Piece::T("let _ = &(".into()));
        out.push(Piece::S(a, b));
        out.push(Piece::T("); ".into()));
    }
    out.push(Piece::T("}".into()));
    out
}
