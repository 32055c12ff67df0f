// Encoding: which token is taken at each step, and why decoding gives the text back.
use vstd::prelude::*;
use vstd::imap::IMap;
use crate::vx::*;
use crate::calculator::{DisplayMode, EncodeMode};
use crate::calculator::tokens::*;
use crate::tab::*;
verus! {
broadcast use crate::vx::group_vx;

// ------------------------------------------------------------------ byte codes
/// the bytes a table key "$XX en" or "$XX$YY en" stands for
pub open spec fn is_code(k: Seq<char>, c: Seq<u8>) -> bool {
    (c.len() == 1 && k == key_en(key1(c[0]))) || (c.len() == 2 && k == key_en(key2(c[0], c[1])))
}
pub open spec fn has_code(k: Seq<char>) -> bool { exists|c: Seq<u8>| is_code(k, c) }
pub open spec fn code_of(k: Seq<char>) -> Seq<u8> { choose|c: Seq<u8>| is_code(k, c) }

pub proof fn lemma_hex_digit(n: int)
    ensures hex_digit(n) != '$', hex_digit(n) != ' ', hex_digit(n) != 'e', hex_digit(n) != 'n'
{}
pub proof fn lemma_hex2(a: u8, b: u8)
    ensures hex2(a) == hex2(b) ==> a == b, hex2(a).len() == 2
{
    if hex2(a) == hex2(b) {
        assert(hex2(a)[0] == hex2(b)[0] && hex2(a)[1] == hex2(b)[1]);
        assert(a as int / 16 == b as int / 16);
        assert(a as int % 16 == b as int % 16);
    }
}
/// a key has only one code
pub proof fn lemma_code(k: Seq<char>, c: Seq<u8>)
    requires is_code(k, c)
    ensures code_of(k) == c, has_code(k)
{
    reveal_strlit("$");
    let d = code_of(k);
    assert(is_code(k, d));
    assert(key1(c[0]).len() == 3);
    assert(key2(c[0], c[1]).len() == 6);
    lemma_key_en(key1(c[0]), key1(d[0]));
    lemma_key_en(key2(c[0], c[1]), key2(d[0], d[1]));
    lemma_key_en(key1(c[0]), key2(d[0], d[1]));
    lemma_key_en(key2(c[0], c[1]), key1(d[0]));
    lemma_hex2(c[0], d[0]);
    if c.len() == 1 {
        assert(key1(c[0]).skip(1) =~= hex2(c[0]));
        assert(key1(d[0]).skip(1) =~= hex2(d[0]));
    } else {
        lemma_hex2(c[1], d[1]);
        assert(key2(c[0], c[1]).subrange(1, 3) =~= hex2(c[0]));
        assert(key2(d[0], d[1]).subrange(1, 3) =~= hex2(d[0]));
        assert(key2(c[0], c[1]).subrange(4, 6) =~= hex2(c[1]));
        assert(key2(d[0], d[1]).subrange(4, 6) =~= hex2(d[1]));
    }
    assert(c =~= d);
}
// -- finding, splitting and replacing in key texts
pub proof fn lemma_no_find(s: Seq<char>, p: Seq<char>)
    requires p.len() > 0, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != p[0]
    ensures str_find(s, p) is None
    decreases s.len()
{
    if starts(s, p) { assert(s.take(p.len() as int)[0] == s[0]); }
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_first().len() implies #[trigger] s.drop_first()[i] != p[0] by { assert(s.drop_first()[i] == s[i + 1]); }
        lemma_no_find(s.drop_first(), p);
    }
}
pub proof fn lemma_find_at(s: Seq<char>, p: Seq<char>, n: int)
    requires p.len() > 0, 0 <= n, n + p.len() <= s.len(), s.subrange(n, n + p.len()) =~= p, forall|i: int| 0 <= i < n ==> #[trigger] s[i] != p[0]
    ensures str_find(s, p) == Some(n)
    decreases s.len()
{
    if n == 0 {
        assert(s.take(p.len() as int) =~= p);
    } else {
        if starts(s, p) { assert(s.take(p.len() as int)[0] == s[0]); }
        let t = s.drop_first();
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] t[i] != p[0] by { assert(t[i] == s[i + 1]); }
        assert(t.subrange(n - 1, n - 1 + p.len()) =~= s.subrange(n, n + p.len()));
        lemma_find_at(t, p, n - 1);
    }
}
/// what taking a key apart gives
pub proof fn lemma_key_parts(k: Seq<char>)
    requires has_code(k)
    ensures
        replace_str(k, " en"@, ""@) =~= k.take(k.len() - 3),
        str_split(k.take(k.len() - 3), "$"@).len() == 1 + code_of(k).len(),
        forall|i: int| 0 <= i < code_of(k).len() ==> #[trigger] str_split(k.take(k.len() - 3), "$"@)[i + 1] == hex2(code_of(k)[i]),
{
    reveal_strlit("$"); reveal_strlit(" en"); reveal_strlit(""); reveal_strlit(" "); reveal_strlit("en");
    let c = code_of(k);
    assert(is_code(k, c));
    let n = k.len() - 3;
    let s = k.take(n);
    let h = hex2(c[0]);
    lemma_hex_digit(c[0] as int / 16); lemma_hex_digit(c[0] as int % 16);
    if c.len() == 2 { lemma_hex_digit(c[1] as int / 16); lemma_hex_digit(c[1] as int % 16); }
    let p = " en"@;
    assert(k.subrange(n, n + 3) =~= p);
    assert forall|i: int| 0 <= i < n implies #[trigger] k[i] != p[0] by {}
    lemma_find_at(k, p, n);
    lemma_no_find(k.skip(n + 3), p);
    reveal_with_fuel(replace_str, 2);
    assert(k.skip(n + 3) =~= Seq::<char>::empty());
    assert(replace_str(k, p, ""@) =~= s);
    let d = "$"@;
    assert(d =~= seq!['$']);
    reveal_with_fuel(str_split, 3);
    assert(s.subrange(0, 1) =~= d);
    lemma_find_at(s, d, 0);
    let t = s.skip(1);
    if c.len() == 1 {
        assert(t =~= h);
        lemma_no_find(t, d);
        assert(str_split(s, d) =~= seq![Seq::<char>::empty(), h]) by { assert(s.take(0) =~= Seq::<char>::empty()); }
    } else {
        assert(t =~= h + d + hex2(c[1]));
        assert(t.subrange(2, 3) =~= d);
        lemma_find_at(t, d, 2);
        assert(t.take(2) =~= h);
        assert(t.skip(3) =~= hex2(c[1]));
        lemma_no_find(t.skip(3), d);
        assert(str_split(s, d) =~= seq![Seq::<char>::empty(), h, hex2(c[1])]) by { assert(s.take(0) =~= Seq::<char>::empty()); }
    }
}

// ------------------------------------------------------------------ the encoder
/// the token taken at the start of s
pub open spec fn pick(t: IMap<Seq<char>, Translation>, dm: DisplayMode, cur: EncodeMode, s: Seq<char>) -> Option<Seq<char>> {
    if cur is Min { shortest(t, dm, s) } else { longest(t, dm, s) }
}
/// C03: how the mode changes after a token in smart mode.  (A closing quote is treated like an
/// opening one: recorded as finding D14.)
pub open spec fn mode_after(default: EncodeMode, cur: EncodeMode, last: Seq<u8>, code: Seq<u8>, text: Seq<char>) -> EncodeMode {
    if !(default is Smart) { cur }
    else if last == seq![0x5Fu8] || last == seq![0xEBu8] { EncodeMode::Max }
    else if code == seq![0x2Au8] { EncodeMode::Min }
    else if code == seq![0x04u8] || !all_alpha(text) { default }
    else { cur }
}
#[verifier::opaque]
pub open spec fn enc_line(t: IMap<Seq<char>, Translation>, dm: DisplayMode, default: EncodeMode, cur: EncodeMode, last: Seq<u8>, s: Seq<char>) -> Option<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) }
    else {
        match pick(t, dm, cur, s) {
            Some(k) if fits(t, dm, s, k) => {
                let v = rep(t[k], dm);
                match enc_line(t, dm, default, mode_after(default, cur, last, code_of(k), v), code_of(k), s.skip(v.len() as int)) {
                    Some(r) => Some(code_of(k) + r),
                    None => None,
                }
            },
            _ => None,
        }
    }
}
pub proof fn lemma_enc_step(t: IMap<Seq<char>, Translation>, dm: DisplayMode, default: EncodeMode, cur: EncodeMode, last: Seq<u8>, s: Seq<char>)
    ensures
        s.len() == 0 ==> enc_line(t, dm, default, cur, last, s) == Some(Seq::<u8>::empty()),
        s.len() > 0 && !(pick(t, dm, cur, s) is Some && fits(t, dm, s, pick(t, dm, cur, s).unwrap())) ==> enc_line(t, dm, default, cur, last, s) is None,
        s.len() > 0 && pick(t, dm, cur, s) is Some && fits(t, dm, s, pick(t, dm, cur, s).unwrap()) ==> ({
            let k = pick(t, dm, cur, s).unwrap();
            let v = rep(t[k], dm);
            enc_line(t, dm, default, cur, last, s) == before(code_of(k), enc_line(t, dm, default, mode_after(default, cur, last, code_of(k), v), code_of(k), s.skip(v.len() as int)))
        }),
{
    reveal_with_fuel(enc_line, 2);
}
pub proof fn lemma_one(s: Seq<u8>, b: u8)
    ensures s == seq![b] <==> (s.len() == 1 && s[0] == b)
{ if s.len() == 1 && s[0] == b { assert(s =~= seq![b]); } }
pub open spec fn before(c: Seq<u8>, o: Option<Seq<u8>>) -> Option<Seq<u8>> { match o { Some(r) => Some(c + r), None => None } }
pub proof fn lemma_before(a: Seq<u8>, b: Seq<u8>, o: Option<Seq<u8>>)
    ensures before(a, before(b, o)) == before(a + b, o)
{
    if o is Some { assert(a + (b + o.unwrap()) =~= (a + b) + o.unwrap()); }
}
pub open spec fn line_code(t: IMap<Seq<char>, Translation>, dm: DisplayMode, e: EncodeMode, s: Seq<char>) -> Option<Seq<u8>> {
    enc_line(t, dm, e, e, Seq::empty(), s)
}
/// the first n lines, each followed by the newline token
#[verifier::opaque]
pub open spec fn enc_lines(t: IMap<Seq<char>, Translation>, dm: DisplayMode, e: EncodeMode, ls: Seq<Seq<char>>, n: int) -> Option<Seq<u8>>
    decreases n
{
    if n <= 0 { Some(Seq::empty()) }
    else {
        match (enc_lines(t, dm, e, ls, n - 1), line_code(t, dm, e, ls[n - 1])) {
            (Some(a), Some(b)) => Some(a + b + seq![0x3Fu8]),
            _ => None,
        }
    }
}
pub open spec fn is_theta(c: char) -> bool { c == '\u{0398}' || c == '\u{03F4}' || c == '\u{1DBF}' }
/// the text with theta look-alikes unified
pub open spec fn normal(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| if is_theta(s[i]) { 'θ' } else { s[i] }) }
/// a set of characters given as an array
pub broadcast proof fn lemma_normal_set(s: Seq<char>, set: Seq<char>, to: Seq<char>)
    requires forall|i: int| 0 <= i < set.len() ==> is_theta(#[trigger] set[i]),
        set.contains('\u{0398}'), set.contains('\u{03F4}'), set.contains('\u{1DBF}'), to == seq!['θ']
    ensures #[trigger] replace_set(s, set, to) == normal(s)
{ lemma_normal(s, |c: char| set.contains(c), to); }
/// replacing the look-alikes is normalising
pub broadcast proof fn lemma_normal(s: Seq<char>, f: spec_fn(char) -> bool, to: Seq<char>)
    requires forall|c: char| #[trigger] f(c) == is_theta(c), to == seq!['θ']
    ensures #[trigger] replace_chars(s, f, to) == normal(s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_normal(s.drop_last(), f, to);
        assert(f(s.last()) == is_theta(s.last()));
        assert(replace_chars(s, f, to) =~= normal(s));
    } else { assert(replace_chars(s, f, to) =~= normal(s)); }
}
/// the lines that are encoded
pub open spec fn enc_text_lines(norm: bool, s: Seq<char>) -> Seq<Seq<char>> { str_lines(if norm { normal(s) } else { s }) }
pub open spec fn enc(t: IMap<Seq<char>, Translation>, dm: DisplayMode, e: EncodeMode, norm: bool, s: Seq<char>) -> Option<Seq<u8>> {
    let ls = enc_text_lines(norm, s);
    match enc_lines(t, dm, e, ls, ls.len() as int) {
        Some(r) => Some(if r.len() > 0 { r.drop_last() } else { r }),
        None => None,
    }
}
/// the text of the newline token
pub open spec fn newline(t: IMap<Seq<char>, Translation>, dm: DisplayMode) -> Seq<char> { rep(t[key_en(key1(0x3F))], dm) }
/// C02: no token starts the rest of some line
pub open spec fn stuck(t: IMap<Seq<char>, Translation>, dm: DisplayMode, ls: Seq<Seq<char>>, i: int, n: int) -> bool {
    0 <= i < ls.len() && 0 <= n < ls[i].len() && none_fits(t, dm, ls[i].skip(n))
}

#[verifier::opaque]
pub open spec fn some_stuck(t: IMap<Seq<char>, Translation>, dm: DisplayMode, ls: Seq<Seq<char>>) -> bool { exists|i: int, n: int| stuck(t, dm, ls, i, n) }

pub proof fn lemma_stuck(t: IMap<Seq<char>, Translation>, dm: DisplayMode, ls: Seq<Seq<char>>, i: int, n: int)
    requires stuck(t, dm, ls, i, n)
    ensures some_stuck(t, dm, ls)
{ reveal(some_stuck); }
/// a line that cannot be encoded
pub proof fn lemma_enc_none(t: IMap<Seq<char>, Translation>, dm: DisplayMode, e: EncodeMode, ls: Seq<Seq<char>>, i: int, n: int)
    requires 0 <= i < n, line_code(t, dm, e, ls[i]) is None
    ensures enc_lines(t, dm, e, ls, n) is None
    decreases n
{
    reveal_with_fuel(enc_lines, 1);
    if i < n - 1 { lemma_enc_none(t, dm, e, ls, i, n - 1); }
}
/// one more line
pub proof fn lemma_enc_line_end(t: IMap<Seq<char>, Translation>, dm: DisplayMode, e: EncodeMode, ls: Seq<Seq<char>>, n: int, a: Seq<u8>)
    requires n >= 0, enc_lines(t, dm, e, ls, n) == Some(a)
    ensures enc_lines(t, dm, e, ls, n + 1) == (match line_code(t, dm, e, ls[n]) { Some(b) => Some(a + b + seq![0x3Fu8]), None => None })
{ reveal_with_fuel(enc_lines, 1); }

// ------------------------------------------------------------------ encoding and decoding are inverse
pub proof fn lemma_dec_code(t: IMap<Seq<char>, Translation>, dm: DisplayMode, k: Seq<char>, r: Seq<u8>)
    requires codes_ok(t), t.contains_key(k)
    ensures dec(t, "en"@, dm, code_of(k) + r) == prepend(rep(t[k], dm), dec(t, "en"@, dm, r)), has_code(k)
{
    reveal_with_fuel(dec, 2);
    reveal(codes_ok);
    if exists|a: u8| k == #[trigger] key_en(key1(a)) {
        let a = choose|a: u8| k == #[trigger] key_en(key1(a));
        lemma_code(k, seq![a]);
        let s = code_of(k) + r;
        assert(s.skip(1) =~= r);
    } else {
        let (a, b) = choose|a: u8, b: u8| k == #[trigger] key_en(key2(a, b)) && !t.contains_key(key_en(key1(a)));
        lemma_code(k, seq![a, b]);
        let s = code_of(k) + r;
        assert(s.skip(2) =~= r);
    }
}
pub proof fn lemma_dec_line(t: IMap<Seq<char>, Translation>, dm: DisplayMode, d: EncodeMode, cur: EncodeMode, last: Seq<u8>, s: Seq<char>, r: Seq<u8>)
    requires codes_ok(t), enc_line(t, dm, d, cur, last, s) is Some
    ensures dec(t, "en"@, dm, enc_line(t, dm, d, cur, last, s).unwrap() + r) == prepend(s, dec(t, "en"@, dm, r))
    decreases s.len()
{
    let e = enc_line(t, dm, d, cur, last, s).unwrap();
    lemma_enc_step(t, dm, d, cur, last, s);
    if s.len() == 0 {
        assert(e + r =~= r);
        if dec(t, "en"@, dm, r) is Some { assert(s + dec(t, "en"@, dm, r).unwrap() =~= dec(t, "en"@, dm, r).unwrap()); }
    } else {
        let k = pick(t, dm, cur, s).unwrap();
        let v = rep(t[k], dm);
        let c = code_of(k);
        let s2 = s.skip(v.len() as int);
        let m2 = mode_after(d, cur, last, c, v);
        let e2 = enc_line(t, dm, d, m2, c, s2).unwrap();
        lemma_dec_line(t, dm, d, m2, c, s2, r);
        lemma_dec_code(t, dm, k, e2 + r);
        assert(e + r =~= c + (e2 + r));
        lemma_prepend(v, s2, dec(t, "en"@, dm, r));
        assert(v + s2 =~= s);
    }
}
pub open spec fn joined(ls: Seq<Seq<char>>, n: int, nl: Seq<char>) -> Seq<char>
    decreases n
{ if n <= 0 { Seq::empty() } else { joined(ls, n - 1, nl) + ls[n - 1] + nl } }
pub proof fn lemma_dec_lines(t: IMap<Seq<char>, Translation>, dm: DisplayMode, e: EncodeMode, ls: Seq<Seq<char>>, n: int, r: Seq<u8>)
    requires codes_ok(t), t.contains_key(key_en(key1(0x3F))), enc_lines(t, dm, e, ls, n) is Some, n <= ls.len()
    ensures dec(t, "en"@, dm, enc_lines(t, dm, e, ls, n).unwrap() + r) == prepend(joined(ls, n, newline(t, dm)), dec(t, "en"@, dm, r))
    decreases n
{
    reveal_with_fuel(enc_lines, 1);
    let nl = newline(t, dm);
    let k = key_en(key1(0x3F));
    if n <= 0 {
        assert(Seq::<u8>::empty() + r =~= r);
        if dec(t, "en"@, dm, r) is Some { assert(Seq::<char>::empty() + dec(t, "en"@, dm, r).unwrap() =~= dec(t, "en"@, dm, r).unwrap()); }
    } else {
        let a = enc_lines(t, dm, e, ls, n - 1).unwrap();
        let b = line_code(t, dm, e, ls[n - 1]).unwrap();
        let z = seq![0x3Fu8] + r;
        lemma_code(k, seq![0x3Fu8]);
        lemma_dec_code(t, dm, k, r);
        lemma_dec_line(t, dm, e, e, Seq::empty(), ls[n - 1], z);
        lemma_dec_lines(t, dm, e, ls, n - 1, b + z);
        assert(a + b + seq![0x3Fu8] + r =~= a + (b + z));
        lemma_prepend(ls[n - 1], nl, dec(t, "en"@, dm, r));
        lemma_prepend(joined(ls, n - 1, nl), ls[n - 1] + nl, dec(t, "en"@, dm, r));
        assert(joined(ls, n - 1, nl) + (ls[n - 1] + nl) =~= joined(ls, n, nl));
    }
}
pub proof fn lemma_joined(ls: Seq<Seq<char>>, n: int, nl: Seq<char>)
    requires 0 < n <= ls.len()
    ensures joined(ls, n - 1, nl) + ls[n - 1] == str_join(ls.take(n), nl)
    decreases n
{
    let v = ls.take(n);
    if n > 1 {
        lemma_joined(ls, n - 1, nl);
        assert(v.drop_last() =~= ls.take(n - 1));
        assert(joined(ls, n - 1, nl) + ls[n - 1] =~= str_join(v.drop_last(), nl) + nl + ls[n - 1]);
    } else {
        assert(joined(ls, n - 1, nl) + ls[n - 1] =~= v[0]);
    }
}
/// C02: what is encoded decodes to the lines of the text joined by the newline token
pub proof fn lemma_round_trip(t: IMap<Seq<char>, Translation>, dm: DisplayMode, e: EncodeMode, norm: bool, s: Seq<char>)
    requires table_ok(t), enc(t, dm, e, norm, s) is Some
    ensures dec(t, "en"@, dm, enc(t, dm, e, norm, s).unwrap()) == Some(str_join(enc_text_lines(norm, s), newline(t, dm)))
{
    reveal_with_fuel(enc_lines, 1);
    let ls = enc_text_lines(norm, s);
    let n = ls.len() as int;
    let all = enc_lines(t, dm, e, ls, n).unwrap();
    let nl = newline(t, dm);
    if n == 0 {
        lemma_dec_lines(t, dm, e, ls, 0, Seq::empty());
        reveal(dec);
        assert(all =~= Seq::<u8>::empty());
    } else {
        let a = enc_lines(t, dm, e, ls, n - 1).unwrap();
        let b = line_code(t, dm, e, ls[n - 1]).unwrap();
        assert(all == a + b + seq![0x3Fu8]);
        assert(all.drop_last() =~= a + (b + Seq::<u8>::empty()));
        lemma_dec_line(t, dm, e, e, Seq::empty(), ls[n - 1], Seq::empty());
        lemma_dec_lines(t, dm, e, ls, n - 1, b + Seq::<u8>::empty());
        reveal(dec);
        lemma_prepend(joined(ls, n - 1, nl), ls[n - 1], Some(Seq::empty()));
        lemma_joined(ls, n, nl);
        assert(ls.take(n) =~= ls);
        assert(joined(ls, n - 1, nl) + ls[n - 1] + Seq::<char>::empty() =~= joined(ls, n - 1, nl) + ls[n - 1]);
    }
}
}
