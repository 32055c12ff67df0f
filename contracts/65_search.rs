// Token search: which entry is shown.
use vstd::prelude::*;
use vstd::imap::IMap;
use crate::vx::*;
use crate::spec::*;
use crate::calculator::DisplayMode;
use crate::calculator::models::Model;
use crate::calculator::tokens::*;
verus! {
broadcast use crate::spec::group_all;

/// the name of a byte code in the definitions: 0x00 or 0x0000
pub open spec fn def_key(k: Seq<char>) -> Seq<char> {
    if code_of(k).len() == 1 { "0x"@ + hex2(code_of(k)[0]) } else { "0x"@ + hex2(code_of(k)[0]) + hex2(code_of(k)[1]) }
}
/// the code asked for: that of the longest matching token of the latest model, or the one given
pub open spec fn wanted(token: Seq<char>, kind: Seq<char>) -> Option<Seq<char>> {
    let t = table(Model::Latest, "latest"@);
    if kind == "accessible"@ { match longest(t, DisplayMode::Accessible, token) { Some(k) => Some(def_key(k)), None => None } }
    else if kind == "pretty"@ { match longest(t, DisplayMode::Pretty, token) { Some(k) => Some(def_key(k)), None => None } }
    else if kind == "byte"@ && starts(token, "0x"@) { Some(token) }
    else { None }
}
pub open spec fn definitions() -> Option<HashMap<String, Vec<TokenDefinition>>> {
    json_parse::<HashMap<String, Vec<TokenDefinition>>>(included("src/calculator/tokens/token_definitions.json"@))
}
/// every syntax and description, in order
pub open spec fn entries(v: Seq<TokenDefinition>, n: int) -> Seq<char>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else { entries(v, n - 1) + "syntax: "@ + v[n - 1].syntax@ + seq!['\n'] + v[n - 1].description@ + seq!['\n'] + seq!['\n'] }
}
/// the output ends with exactly the entries of that code
pub open spec fn explains(before: Seq<char>, after: Seq<char>, code: Seq<char>) -> bool {
    &&& definitions() is Some && definitions().unwrap()@.contains_key(code)
    &&& exists|pre: Seq<char>| #![trigger pre + seq!['\n']] after == pre + seq!['\n'] + entries(definitions().unwrap()@[code]@, definitions().unwrap()@[code]@.len() as int)
}
pub broadcast proof fn lemma_views_remove(v: Seq<&str>, i: int)
    requires 0 <= i < v.len()
    ensures views(#[trigger] v.remove(i)) == strs(v).remove(i)
{ assert(views(v.remove(i)) =~= strs(v).remove(i)); }
proof fn lemma_one_dollar(s: Seq<char>)
    requires s.len() >= 1, s[0] == '$', forall|i: int| 1 <= i < s.len() ==> s[i] != '$'
    ensures replace_str(s, "$"@, "0x"@) == "0x"@ + s.skip(1)
{
    reveal_strlit("$");
    assert("$"@ =~= seq!['$']);
    reveal_with_fuel(replace_str, 2);
    assert(s.subrange(0, 1) =~= "$"@);
    lemma_find_at(s, "$"@, 0);
    lemma_no_find(s.skip(1), "$"@);
    assert(s.take(0) + "0x"@ + s.skip(1) =~= "0x"@ + s.skip(1));
}
/// cutting a leading sign, and the signs of a two-byte code
proof fn lemma_cut_dollar(s: Seq<char>)
    requires s.len() >= 1, s[0] == '$', forall|i: int| 1 <= i < s.len() ==> s[i] != '$'
    ensures replace_str(s, "$"@, ""@) == s.skip(1)
{
    reveal_strlit("$"); reveal_strlit("");
    assert("$"@ =~= seq!['$']);
    reveal_with_fuel(replace_str, 2);
    assert(s.subrange(0, 1) =~= "$"@);
    lemma_find_at(s, "$"@, 0);
    lemma_no_find(s.skip(1), "$"@);
    assert(s.take(0) + ""@ + s.skip(1) =~= s.skip(1));
}
proof fn lemma_cut_two(b: Seq<char>)
    requires b.len() == 6, b[0] == '$', b[3] == '$', b[1] != '$', b[2] != '$', b[4] != '$', b[5] != '$'
    ensures replace_str(b, "$"@, ""@) == b.subrange(1, 3) + b.skip(4)
{
    reveal_strlit("$"); reveal_strlit("");
    assert("$"@ =~= seq!['$']);
    let t = b.skip(1);
    assert(b.subrange(0, 1) =~= "$"@);
    lemma_find_at(b, "$"@, 0);
    assert(t.subrange(2, 3) =~= "$"@);
    lemma_find_at(t, "$"@, 2);
    let u = t.skip(3);
    lemma_no_find(u, "$"@);
    reveal_with_fuel(replace_str, 2);
    assert(replace_str(u, "$"@, ""@) == u);
    assert(replace_str(t, "$"@, ""@) == t.take(2) + ""@ + u);
    assert(replace_str(b, "$"@, ""@) == b.take(0) + ""@ + replace_str(t, "$"@, ""@));
    assert(b.take(0) + ""@ + (t.take(2) + ""@ + u) =~= b.subrange(1, 3) + b.skip(4));
}
/// what the steps from a table key to the name of its definition give
pub proof fn lemma_def_key(k: Seq<char>)
    requires has_code(k)
    ensures ({
        let b = replace_str(k, " en"@, ""@);
        let v = str_split(b, ""@);
        &&& blen(k) > 3 && v.len() > 4
        &&& replace_str(str_join(v.remove(4), ""@), "$"@, "0x"@) == def_key(k)
        // the same from the code without the language, which needs no removal when it is short
        &&& blen(b) == b.len() && (b.len() == 3 || b.len() == 6)
        &&& b.len() == 3 ==> replace_str(b, "$"@, "0x"@) == def_key(k)
        // and from the digits alone
        &&& "0x"@ + replace_str(b, "$"@, ""@) == def_key(k)
    })
{
    reveal_strlit("$"); reveal_strlit(" en"); reveal_strlit(""); reveal_strlit(" "); reveal_strlit("en");
    let c = code_of(k);
    assert(is_code(k, c));
    lemma_key_parts(k);
    lemma_hex_digit(c[0] as int / 16); lemma_hex_digit(c[0] as int % 16);
    let n = k.len() - 3;
    let b = k.take(n);
    let e = Seq::<char>::empty();
    assert(""@ =~= e);
    let v = str_split(b, ""@);
    lemma_ascii_len(k);
    reveal_with_fuel(str_join, 8);
    if c.len() == 1 {
        assert(v =~= seq![e, seq![b[0]], seq![b[1]], seq![b[2]], e]);
        let w = v.remove(4);
        assert(w =~= seq![e, seq![b[0]], seq![b[1]], seq![b[2]]]);
        lemma_join4(w);
        assert(str_join(w, ""@) =~= seq![b[0], b[1], b[2]]);
        assert(b =~= seq![b[0], b[1], b[2]]);
        lemma_one_dollar(b);
        lemma_cut_dollar(b);
        lemma_no_find(b.skip(1), "$"@);
        assert(b.skip(1) =~= hex2(c[0]));
        lemma_ascii_len(b);
    } else {
        lemma_hex_digit(c[1] as int / 16); lemma_hex_digit(c[1] as int % 16);
        assert(v =~= seq![e, seq![b[0]], seq![b[1]], seq![b[2]], seq![b[3]], seq![b[4]], seq![b[5]], e]);
        let w = v.remove(4);
        assert(w =~= seq![e, seq![b[0]], seq![b[1]], seq![b[2]], seq![b[4]], seq![b[5]], e]);
        lemma_join7(w);
        let r = seq![b[0], b[1], b[2], b[4], b[5]];
        assert(str_join(w, ""@) =~= r);
        lemma_one_dollar(r);
        assert(r.skip(1) =~= hex2(c[0]) + hex2(c[1]));
        assert("0x"@ + (hex2(c[0]) + hex2(c[1])) =~= "0x"@ + hex2(c[0]) + hex2(c[1]));
        lemma_cut_two(b);
        assert(b.subrange(1, 3) + b.skip(4) =~= r.skip(1));
        lemma_ascii_len(b);
    }
}
proof fn lemma_join1(v: Seq<Seq<char>>)
    requires v.len() > 1
    ensures str_join(v, ""@) == str_join(v.drop_last(), ""@) + v.last()
{
    reveal_strlit("");
    assert(str_join(v.drop_last(), ""@) + ""@ + v.last() =~= str_join(v.drop_last(), ""@) + v.last());
}
proof fn lemma_join4(v: Seq<Seq<char>>)
    requires v.len() == 4
    ensures str_join(v, ""@) == v[0] + v[1] + v[2] + v[3]
{
    lemma_join1(v); let a = v.drop_last(); lemma_join1(a); let b = a.drop_last(); lemma_join1(b);
}
proof fn lemma_join7(v: Seq<Seq<char>>)
    requires v.len() == 7
    ensures str_join(v, ""@) == v[0] + v[1] + v[2] + v[3] + v[4] + v[5] + v[6]
{
    lemma_join1(v); let a = v.drop_last(); lemma_join1(a); let b = a.drop_last(); lemma_join1(b); let c = b.drop_last();
    lemma_join4(c);
}
/// keys of an audited table are codes
pub proof fn lemma_has_code(t: IMap<Seq<char>, Translation>, k: Seq<char>)
    requires codes_ok(t), t.contains_key(k)
    ensures has_code(k)
{
    reveal(codes_ok);
    if exists|a: u8| k == #[trigger] key_en(key1(a)) { let a = choose|a: u8| k == #[trigger] key_en(key1(a)); assert(is_code(k, seq![a])); }
    else { let (a, b) = choose|a: u8, b: u8| k == #[trigger] key_en(key2(a, b)) && !t.contains_key(key_en(key1(a))); assert(is_code(k, seq![a, b])); }
}
}
