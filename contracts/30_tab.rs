// Token tables: versions, the table of a calculator model, decoding and matching.
use vstd::prelude::*;
use vstd::imap::IMap;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use crate::vx::*;
use crate::calculator::DisplayMode;
use crate::calculator::models::Model;
use crate::calculator::tokens::*;
use crate::spec::model_rank;
verus! {
broadcast use crate::vx::group_vx;

// ------------------------------------------------------------------ versions
pub open spec fn cmp_u32(a: u32, b: u32) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
/// the numeric parts of a version; a part that is no number counts as 0
pub open spec fn part_of(s: Seq<char>) -> u32 { match parse_u32(s) { Some(n) => n, None => 0 } }
pub open spec fn ver_parts(s: Seq<char>) -> Seq<u32> {
    Seq::new(str_split(s, seq!['.']).len(), |i: int| part_of(str_split(s, seq!['.'])[i]))
}
pub open spec fn ver_cmp(x: Seq<char>, y: Seq<char>) -> Ordering {
    if x == y { Ordering::Equal }
    else if x == "latest"@ { Ordering::Greater } else if y == "latest"@ { Ordering::Less }
    else if x.len() == 0 { Ordering::Less } else if y.len() == 0 { Ordering::Greater }
    else { lex_u32(ver_parts(x), ver_parts(y)) }
}
/// models by generation, then versions part by part
pub open spec fn os_cmp(m: Model, x: Seq<char>, n: Model, y: Seq<char>) -> Ordering {
    if cmp_u32(model_rank(m), model_rank(n)) != Ordering::Equal { cmp_u32(model_rank(m), model_rank(n)) } else { ver_cmp(x, y) }
}
pub open spec fn os_le(a: OsVersion, b: OsVersion) -> bool { os_cmp(a.model, a.version@, b.model, b.version@) != Ordering::Greater }
pub open spec fn flip(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub proof fn lemma_lex_flip(a: Seq<u32>, b: Seq<u32>)
    ensures lex_u32(b, a) == flip(lex_u32(a, b))
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 { lemma_lex_flip(a.drop_first(), b.drop_first()); }
}
pub proof fn lemma_lex_refl(a: Seq<u32>)
    ensures lex_u32(a, a) == Ordering::Equal
    decreases a.len()
{
    if a.len() > 0 { lemma_lex_refl(a.drop_first()); }
}
pub proof fn lemma_lex_trans(a: Seq<u32>, b: Seq<u32>, c: Seq<u32>)
    requires lex_u32(a, b) != Ordering::Greater, lex_u32(b, c) != Ordering::Greater
    ensures lex_u32(a, c) != Ordering::Greater,
        lex_u32(a, c) == Ordering::Equal <==> lex_u32(a, b) == Ordering::Equal && lex_u32(b, c) == Ordering::Equal
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        if a[0] == b[0] && b[0] == c[0] { lemma_lex_trans(a.drop_first(), b.drop_first(), c.drop_first()); }
    }
}
/// C16: the version order is total and consistent
pub proof fn lemma_os_order(a: OsVersion, b: OsVersion, c: OsVersion)
    ensures
        os_le(a, a),
        os_le(a, b) || os_le(b, a),
        os_cmp(b.model, b.version@, a.model, a.version@) == flip(os_cmp(a.model, a.version@, b.model, b.version@)),
        os_le(a, b) && os_le(b, c) ==> os_le(a, c),
        os_le(a, b) && os_le(b, c) && os_le(c, a) ==> os_le(b, a) && os_le(c, b),
{
    reveal_strlit("latest");
    let (u, v, w) = (a.version@, b.version@, c.version@);
    if u.len() == 0 && v.len() == 0 { assert(u =~= v); }
    if v.len() == 0 && w.len() == 0 { assert(v =~= w); }
    if u.len() == 0 && w.len() == 0 { assert(u =~= w); }
    let (x, y, z) = (ver_parts(a.version@), ver_parts(b.version@), ver_parts(c.version@));
    lemma_lex_flip(x, y); lemma_lex_flip(y, z); lemma_lex_flip(x, z);
    if lex_u32(x, y) != Ordering::Greater && lex_u32(y, z) != Ordering::Greater { lemma_lex_trans(x, y, z); }
    if lex_u32(y, z) != Ordering::Greater && lex_u32(z, x) != Ordering::Greater { lemma_lex_trans(y, z, x); }
    if lex_u32(z, x) != Ordering::Greater && lex_u32(x, y) != Ordering::Greater { lemma_lex_trans(z, x, y); }
}
impl PartialEqSpecImpl for OsVersion {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &OsVersion) -> bool { self.model == o.model && self.version@ == o.version@ }
}
impl PartialOrdSpecImpl for OsVersion {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &OsVersion) -> Option<Ordering> { Some(os_cmp(self.model, self.version@, o.model, o.version@)) }
}
impl OrdSpecImpl for OsVersion {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &OsVersion) -> Ordering { os_cmp(self.model, self.version@, o.model, o.version@) }
}

// ------------------------------------------------------------------ the token sheet
/// the parsed token sheet shipped with the tool
pub open spec fn sheet() -> Option<BTreeMap<String, TokenData>> {
    json_parse::<BTreeMap<String, TokenData>>(included("src/calculator/tokens/standard_tokens/8X.json"@))
}
#[verifier::opaque]
pub open spec fn langs_wf(ts: Seq<Token>) -> bool {
    forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).langs@.dom() =~= iset!["en"@]
}
#[verifier::opaque]
pub open spec fn sheet_wf(d: IMap<Seq<char>, TokenData>) -> bool {
    forall|k: Seq<char>| #[trigger] d.contains_key(k) ==> k.len() == 3 && match d[k] {
        TokenData::Single(ts) => langs_wf(ts@),
        TokenData::Nested(n) => forall|j: Seq<char>| #[trigger] n@.contains_key(j) ==> j.len() == 3 && langs_wf(n@[j]@),
    }
}
/// the shipped sheet can be parsed, its keys have three characters and its texts are English only (audited on every run)
pub broadcast axiom fn ax_sheet() ensures #[trigger] sheet() is Some, sheet_wf(sheet().unwrap()@);

/// the token exists on this model and version
pub open spec fn live(t: Token, m: Model, v: Seq<char>) -> bool {
    &&& os_cmp(t.since.model, t.since.version@, m, v) != Ordering::Greater
    &&& t.until is Some ==> os_cmp(t.until.unwrap().model, t.until.unwrap().version@, m, v) != Ordering::Less
}
/// the texts of a byte code: those of its last token that exists on this model and version
#[verifier::opaque]
pub open spec fn last_live(ts: Seq<Token>, m: Model, v: Seq<char>) -> Option<Translation>
    decreases ts.len()
{
    if ts.len() == 0 { None }
    else if live(ts.last(), m, v) { Some(ts.last().langs@["en"@]) }
    else { last_live(ts.drop_last(), m, v) }
}
pub open spec fn key_en(k: Seq<char>) -> Seq<char> { k + " "@ + "en"@ }
#[verifier::opaque]
pub open spec fn expected(d: IMap<Seq<char>, TokenData>, m: Model, v: Seq<char>, k: Seq<char>) -> Option<Translation> {
    if k.len() == 6 && k == key_en(k.take(3)) && d.contains_key(k.take(3)) {
        match d[k.take(3)] { TokenData::Single(ts) => last_live(ts@, m, v), TokenData::Nested(_) => None }
    } else if k.len() == 9 && k == key_en(k.take(6)) && d.contains_key(k.take(3)) {
        match d[k.take(3)] {
            TokenData::Single(_) => None,
            TokenData::Nested(n) => if n@.contains_key(k.subrange(3, 6)) { last_live(n@[k.subrange(3, 6)]@, m, v) } else { None },
        }
    } else { None }
}
/// the token table of a model and version
pub open spec fn table(m: Model, v: Seq<char>) -> IMap<Seq<char>, Translation> {
    IMap::new(|k: Seq<char>| expected(sheet().unwrap()@, m, v, k) is Some, |k: Seq<char>| expected(sheet().unwrap()@, m, v, k).unwrap())
}
// -- how far load_tokens has got
#[verifier::opaque]
pub open spec fn seen(all: Seq<(String, TokenData)>, n: int, k: Seq<char>) -> bool { exists|j: int| 0 <= j < n && (#[trigger] all[j]).0@ == k }
#[verifier::opaque]
pub open spec fn seen2(all: Seq<(String, Vec<Token>)>, n: int, k: Seq<char>) -> bool { exists|j: int| 0 <= j < n && (#[trigger] all[j]).0@ == k }
#[verifier::opaque]
pub open spec fn part1(d: IMap<Seq<char>, TokenData>, m: Model, v: Seq<char>, all: Seq<(String, TokenData)>, n: int) -> IMap<Seq<char>, Translation> {
    IMap::new(|k: Seq<char>| expected(d, m, v, k) is Some && seen(all, n, k.take(3)), |k: Seq<char>| expected(d, m, v, k).unwrap())
}
#[verifier::opaque]
pub open spec fn part2(d: IMap<Seq<char>, TokenData>, m: Model, v: Seq<char>, all: Seq<(String, TokenData)>, n: int, key: Seq<char>, sub: Seq<(String, Vec<Token>)>, j: int) -> IMap<Seq<char>, Translation> {
    IMap::new(|k: Seq<char>| expected(d, m, v, k) is Some && (seen(all, n, k.take(3)) || (k.take(3) == key && seen2(sub, j, k.subrange(3, 6)))), |k: Seq<char>| expected(d, m, v, k).unwrap())
}
#[verifier::opaque]
pub open spec fn ins(t: IMap<Seq<char>, Translation>, k: Seq<char>, o: Option<Translation>) -> IMap<Seq<char>, Translation> {
    match o { Some(x) => t.insert(k, x), None => t }
}
#[verifier::opaque]
pub open spec fn last_of(ts: Seq<Token>, n: int) -> Option<Translation> { if n <= 0 { None } else { Some(ts[n - 1].langs@["en"@]) } }
pub open spec fn since_ok(t: Token, m: Model, v: Seq<char>) -> bool { os_cmp(t.since.model, t.since.version@, m, v) != Ordering::Greater }
pub open spec fn until_ok(t: Token, m: Model, v: Seq<char>) -> bool {
    t.until is Some ==> os_cmp(t.until.unwrap().model, t.until.unwrap().version@, m, v) != Ordering::Less
}
pub proof fn lemma_filt_in<T>(s: Seq<T>, f: spec_fn(T) -> bool, i: int)
    requires 0 <= i < filt(s, f).len()
    ensures s.contains(filt(s, f)[i]), f(filt(s, f)[i])
    decreases s.len()
{
    if s.len() > 0 {
        let r = filt(s.drop_last(), f);
        if i < r.len() { lemma_filt_in(s.drop_last(), f, i); let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == r[i]; assert(s[j] == r[i]); }
        else { assert(s[s.len() - 1] == s.last()); }
    }
}
/// keeping what is since_ok and then what is until_ok keeps the live tokens
pub proof fn lemma_filters(s: Seq<Token>, f: spec_fn(Token) -> bool, g: spec_fn(Token) -> bool, m: Model, v: Seq<char>)
    requires
        forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == since_ok(s[i], m, v),
        forall|i: int| 0 <= i < filt(s, f).len() ==> g(#[trigger] filt(s, f)[i]) == until_ok(filt(s, f)[i], m, v),
    ensures last_of(filt(filt(s, f), g), filt(filt(s, f), g).len() as int) == last_live(s, m, v),
        langs_wf(s) ==> langs_wf(filt(filt(s, f), g)),
    decreases s.len()
{
    reveal(langs_wf);    reveal(last_of);    reveal_with_fuel(last_live, 2);
    let r = filt(s, f);
    let q = filt(r, g);
    if langs_wf(s) {
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).langs@.dom() =~= iset!["en"@] by {
            lemma_filt_in(r, g, i);
            let j = choose|j: int| 0 <= j < r.len() && r[j] == q[i];
            lemma_filt_in(s, f, j);
            let h = choose|h: int| 0 <= h < s.len() && s[h] == r[j];
            assert(s[h].langs@.dom() =~= iset!["en"@]);
        }
    }
    if s.len() > 0 {
        let s0 = s.drop_last();
        let r0 = filt(s0, f);
        assert forall|i: int| 0 <= i < s0.len() implies f(#[trigger] s0[i]) == since_ok(s0[i], m, v) by { assert(s0[i] == s[i]); }
        assert forall|i: int| 0 <= i < r0.len() implies g(#[trigger] r0[i]) == until_ok(r0[i], m, v) by { assert(r0[i] == r[i]); }
        lemma_filters(s0, f, g, m, v);
        assert(f(s[s.len() - 1]) == since_ok(s.last(), m, v));
        if f(s.last()) {
            assert(r == r0.push(s.last()));
            assert(r.drop_last() =~= r0);
            assert(r[r.len() - 1] == s.last());
            if g(s.last()) { assert(q == filt(r0, g).push(s.last())); }
        }
    }
}
pub proof fn lemma_filters_any(s: Seq<Token>, q: Seq<Token>, m: Model, v: Seq<char>)
    requires exists|f: spec_fn(Token) -> bool, g: spec_fn(Token) -> bool| #[trigger] filt(filt(s, f), g) == q
        && (forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == since_ok(s[i], m, v))
        && (forall|i: int| 0 <= i < filt(s, f).len() ==> g(#[trigger] filt(s, f)[i]) == until_ok(filt(s, f)[i], m, v))
    ensures last_of(q, q.len() as int) == last_live(s, m, v), langs_wf(s) ==> langs_wf(q)
{
    let (f, g) = choose|f: spec_fn(Token) -> bool, g: spec_fn(Token) -> bool| #[trigger] filt(filt(s, f), g) == q
        && (forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == since_ok(s[i], m, v))
        && (forall|i: int| 0 <= i < filt(s, f).len() ==> g(#[trigger] filt(s, f)[i]) == until_ok(filt(s, f)[i], m, v));
    lemma_filters(s, f, g, m, v);
}
pub proof fn lemma_key_en(a: Seq<char>, b: Seq<char>)
    ensures key_en(a).len() == a.len() + 3, key_en(a).take(a.len() as int) == a,
        a.len() == b.len() && key_en(a) == key_en(b) ==> a == b,
{
    reveal_strlit(" "); reveal_strlit("en");
    assert(key_en(a).take(a.len() as int) =~= a);
    if a.len() == b.len() { assert(key_en(b).take(b.len() as int) =~= b); }
}
pub proof fn lemma_part1(d: IMap<Seq<char>, TokenData>, m: Model, v: Seq<char>, all: Seq<(String, TokenData)>, n: int)
    requires lists(all, d), 0 < n <= all.len(), sheet_wf(d)
    ensures
        all[n - 1].1 is Single ==> langs_wf(all[n - 1].1->Single_0@),
        all[n - 1].1 is Single ==> part1(d, m, v, all, n) == ins(part1(d, m, v, all, n - 1), key_en(all[n - 1].0@), last_live(all[n - 1].1->Single_0@, m, v)),
        all[n - 1].1 is Nested ==> part2(d, m, v, all, n - 1, all[n - 1].0@, Seq::empty(), 0) == part1(d, m, v, all, n - 1)
{
    reveal(expected);    reveal(part1);    reveal(part2);    reveal(seen);    reveal(seen2);    reveal(ins);    reveal(sheet_wf);
    let (key, data) = all[n - 1];
    let a = part1(d, m, v, all, n - 1);
    let b = part1(d, m, v, all, n);
    assert(d.contains_key(key@) && d[key@] == data);
    if data is Single {
        let ts = data->Single_0@;
        let c = ins(a, key_en(key@), last_live(ts, m, v));
        lemma_key_en(key@, key@);
        assert forall|k: Seq<char>| b.contains_key(k) == c.contains_key(k) by {
            if k.take(3) == key@ { assert(all[n - 1].0@ == k.take(3)); assert(!seen(all, n - 1, k.take(3))); }
            if k == key_en(key@) { assert(k.take(3) == key@); assert(expected(d, m, v, k) == last_live(ts, m, v)); }
            assert(seen(all, n, k.take(3)) == (seen(all, n - 1, k.take(3)) || k.take(3) == key@));
        }
        assert(b =~= c);
    } else {
        assert(part2(d, m, v, all, n - 1, key@, Seq::empty(), 0) =~= a);
    }
}
pub proof fn lemma_part2(d: IMap<Seq<char>, TokenData>, m: Model, v: Seq<char>, all: Seq<(String, TokenData)>, n: int, sub: Seq<(String, Vec<Token>)>, j: int)
    requires lists(all, d), 0 < n <= all.len(), sheet_wf(d), all[n - 1].1 is Nested, lists(sub, all[n - 1].1->Nested_0@), 0 <= j <= sub.len()
    ensures
        j > 0 ==> langs_wf(sub[j - 1].1@),
        j > 0 ==> part2(d, m, v, all, n - 1, all[n - 1].0@, sub, j)
            == ins(part2(d, m, v, all, n - 1, all[n - 1].0@, sub, j - 1), key_en(all[n - 1].0@ + sub[j - 1].0@), last_live(sub[j - 1].1@, m, v)),
        j == 0 ==> part2(d, m, v, all, n - 1, all[n - 1].0@, sub, j) == part1(d, m, v, all, n - 1),
        j == sub.len() ==> part2(d, m, v, all, n - 1, all[n - 1].0@, sub, j) == part1(d, m, v, all, n)
{
    reveal(expected);    reveal(part1);    reveal(part2);    reveal(seen);    reveal(seen2);    reveal(ins);    reveal(sheet_wf);
    let (key, data) = all[n - 1];
    let nest = data->Nested_0@;
    assert(d.contains_key(key@) && d[key@] == data);
    assert(!seen(all, n - 1, key@));
    let b = part2(d, m, v, all, n - 1, key@, sub, j);
    if j > 0 {
        let (sk, ts) = sub[j - 1];
        assert(nest.contains_key(sk@) && nest[sk@] == ts);
        let full = key@ + sk@;
        lemma_key_en(full, full);
        let a = part2(d, m, v, all, n - 1, key@, sub, j - 1);
        let c = ins(a, key_en(full), last_live(ts@, m, v));
        assert(key_en(full).take(3) =~= key@);
        assert(key_en(full).subrange(3, 6) =~= sk@);
        assert forall|k: Seq<char>| b.contains_key(k) == c.contains_key(k) by {
            assert(seen2(sub, j, k.subrange(3, 6)) == (seen2(sub, j - 1, k.subrange(3, 6)) || k.subrange(3, 6) == sk@));
            assert(!seen2(sub, j - 1, sk@));
            if k == key_en(full) { assert(expected(d, m, v, k) == last_live(ts@, m, v)); }
            if expected(d, m, v, k) is Some && k.take(3) == key@ && k.subrange(3, 6) == sk@ {
                assert(k.len() == 9);
                assert(k.take(6) =~= full);
            }
        }
        assert(b =~= c);
    } else {
        assert(b =~= part1(d, m, v, all, n - 1));
    }
    if j == sub.len() {
        let c = part1(d, m, v, all, n);
        assert forall|k: Seq<char>| b.contains_key(k) == c.contains_key(k) by {
            assert(seen(all, n, k.take(3)) == (seen(all, n - 1, k.take(3)) || k.take(3) == key@));
            if expected(d, m, v, k) is Some && k.take(3) == key@ {
                assert(nest.contains_key(k.subrange(3, 6)));
                let i = choose|i: int| 0 <= i < sub.len() && (#[trigger] sub[i]).0@ == k.subrange(3, 6);
                assert(sub[i].0@ == k.subrange(3, 6));
            }
        }
        assert(b =~= c);
    }
}
pub proof fn lemma_part0(d: IMap<Seq<char>, TokenData>, m: Model, v: Seq<char>, all: Seq<(String, TokenData)>)
    ensures part1(d, m, v, all, 0) == IMap::<Seq<char>, Translation>::empty()
{
    reveal(part1); reveal(seen);
    assert(part1(d, m, v, all, 0) =~= IMap::<Seq<char>, Translation>::empty());
}
/// one more live token of a byte code
pub proof fn lemma_ins(t: IMap<Seq<char>, Translation>, k: Seq<char>, ts: Seq<Token>, i: int)
    ensures i <= 0 ==> ins(t, k, last_of(ts, i)) == t,
        i > 0 ==> ins(t, k, last_of(ts, i)) == ins(t, k, last_of(ts, i - 1)).insert(k, ts[i - 1].langs@["en"@]),
        i > 0 && i <= ts.len() && langs_wf(ts) ==> ts[i - 1].langs@.dom() =~= iset!["en"@],
{
    reveal(ins); reveal(last_of); reveal(langs_wf);
    if i > 0 { assert(ins(t, k, last_of(ts, i)) =~= ins(t, k, last_of(ts, i - 1)).insert(k, ts[i - 1].langs@["en"@])); }
}
/// comparing parsed parts is comparing versions part by part
pub broadcast proof fn lemma_lex_parts(a: Seq<u32>, b: Seq<u32>, x: Seq<char>, y: Seq<char>)
    requires a =~= ver_parts(x), b =~= ver_parts(y)
    ensures #![trigger lex_u32(a, b), ver_parts(x), ver_parts(y)] lex_u32(a, b) == lex_u32(ver_parts(x), ver_parts(y))
{}
pub proof fn lemma_part_all(m: Model, v: Seq<char>, all: Seq<(String, TokenData)>)
    requires sheet() is Some, lists(all, sheet().unwrap()@)
    ensures part1(sheet().unwrap()@, m, v, all, all.len() as int) == table(m, v)
{
    reveal(expected);    reveal(part1);    reveal(seen);
    let d = sheet().unwrap()@;
    let a = part1(d, m, v, all, all.len() as int);
    assert forall|k: Seq<char>| a.contains_key(k) == table(m, v).contains_key(k) by {
        if expected(d, m, v, k) is Some {
            assert(d.contains_key(k.take(3)));
            let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0@ == k.take(3);
            assert(all[i].0@ == k.take(3));
        }
    }
    assert(a =~= table(m, v));
}
/// a map with English texts only lists exactly one pair
pub proof fn lemma_one_lang(all: Seq<(String, Translation)>, l: IMap<Seq<char>, Translation>)
    requires lists(all, l), l.dom() =~= iset!["en"@]
    ensures all.len() == 1, all[0].0@ == "en"@, all[0].1 == l["en"@]
{
    assert(l.dom().contains("en"@));
    assert(l.contains_key("en"@));
    let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0@ == "en"@;
    assert forall|j: int| 0 <= j < all.len() implies (#[trigger] all[j]).0@ == "en"@ by { assert(l.dom().contains(all[j].0@)); }
    if all.len() > 1 { assert(all[0].0@ == all[1].0@); }
}
pub open spec fn rep(t: Translation, m: DisplayMode) -> Seq<char> {
    match m { DisplayMode::Pretty => t.display@, DisplayMode::Accessible => t.accessible@, DisplayMode::TiAscii => t.ti_ascii@ }
}

// ------------------------------------------------------------------ decoding
pub open spec fn key1(a: u8) -> Seq<char> { "$"@ + hex2(a) }
pub open spec fn key2(a: u8, b: u8) -> Seq<char> { "$"@ + hex2(a) + "$"@ + hex2(b) }
pub open spec fn prepend(a: Seq<char>, o: Option<Seq<char>>) -> Option<Seq<char>> { match o { Some(r) => Some(a + r), None => None } }
#[verifier::opaque]
/// C01: a byte that is a one-byte token stands alone, any other forms a token with the byte after it
pub open spec fn dec(t: IMap<Seq<char>, Translation>, l: Seq<char>, m: DisplayMode, s: Seq<u8>) -> Option<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) }
    else if t.contains_key(key1(s[0]) + " "@ + l) { prepend(rep(t[key1(s[0]) + " "@ + l], m), dec(t, l, m, s.skip(1))) }
    else if s.len() >= 2 && t.contains_key(key2(s[0], s[1]) + " "@ + l) { prepend(rep(t[key2(s[0], s[1]) + " "@ + l], m), dec(t, l, m, s.skip(2))) }
    else { None }
}
pub open spec fn ok_is_text<E>(r: Result<String, E>, o: Option<Seq<char>>) -> bool { match r { Ok(t) => o == Some(t@), Err(_) => o is None } }
/// what decoding does with the bytes from position j on
pub proof fn lemma_dec_step(t: IMap<Seq<char>, Translation>, l: Seq<char>, m: DisplayMode, all: Seq<u8>, j: int)
    requires 0 <= j <= all.len()
    ensures
        j == all.len() ==> dec(t, l, m, all.skip(j)) == Some(Seq::<char>::empty()),
        j < all.len() && t.contains_key(key1(all[j]) + " "@ + l) ==>
            dec(t, l, m, all.skip(j)) == prepend(rep(t[key1(all[j]) + " "@ + l], m), dec(t, l, m, all.skip(j + 1))),
        j + 1 < all.len() && !t.contains_key(key1(all[j]) + " "@ + l) && t.contains_key(key2(all[j], all[j + 1]) + " "@ + l) ==>
            dec(t, l, m, all.skip(j)) == prepend(rep(t[key2(all[j], all[j + 1]) + " "@ + l], m), dec(t, l, m, all.skip(j + 2))),
        j < all.len() && !t.contains_key(key1(all[j]) + " "@ + l) && (j + 1 < all.len() ==> !t.contains_key(key2(all[j], all[j + 1]) + " "@ + l)) ==>
            dec(t, l, m, all.skip(j)) is None,
{
    reveal_with_fuel(dec, 2);
    if j < all.len() {
        assert(all.skip(j).skip(1) =~= all.skip(j + 1));
        if j + 1 < all.len() { assert(all.skip(j).skip(2) =~= all.skip(j + 2)); }
    }
}
pub proof fn lemma_prepend(a: Seq<char>, b: Seq<char>, o: Option<Seq<char>>)
    ensures prepend(a, prepend(b, o)) == prepend(a + b, o)
{
    if o is Some { assert(a + (b + o.unwrap()) =~= (a + b) + o.unwrap()); }
}

// ------------------------------------------------------------------ matching
pub proof fn lemma_seq_cmp(a: Seq<char>, b: Seq<char>)
    ensures seq_cmp(b, a) == flip(seq_cmp(a, b)), seq_cmp(a, b) == Ordering::Equal ==> a == b
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_seq_cmp(a.drop_first(), b.drop_first());
        if a[0] as u32 == b[0] as u32 && seq_cmp(a, b) == Ordering::Equal {
            assert(a[0] == b[0]);
            assert(a =~= seq![a[0]] + a.drop_first());
            assert(b =~= seq![b[0]] + b.drop_first());
        }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lemma_seq_cmp_refl(a: Seq<char>)
    ensures seq_cmp(a, a) == Ordering::Equal
    decreases a.len()
{
    if a.len() > 0 { lemma_seq_cmp_refl(a.drop_first()); }
}
pub proof fn lemma_seq_cmp_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires seq_cmp(a, b) == Ordering::Less, seq_cmp(b, c) == Ordering::Less
    ensures seq_cmp(a, c) == Ordering::Less
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        if a[0] as u32 == b[0] as u32 && b[0] as u32 == c[0] as u32 { lemma_seq_cmp_trans(a.drop_first(), b.drop_first(), c.drop_first()); }
    }
}
/// token k has a text that starts the line
pub open spec fn fits(t: IMap<Seq<char>, Translation>, m: DisplayMode, s: Seq<char>, k: Seq<char>) -> bool {
    t.contains_key(k) && starts(s, rep(t[k], m)) && rep(t[k], m).len() > 0
}
pub open spec fn tlen(t: IMap<Seq<char>, Translation>, m: DisplayMode, k: Seq<char>) -> nat { blen(rep(t[k], m)) }
/// longer first, then smaller key
pub open spec fn longer(t: IMap<Seq<char>, Translation>, m: DisplayMode, a: Seq<char>, b: Seq<char>) -> bool {
    tlen(t, m, a) > tlen(t, m, b) || (tlen(t, m, a) == tlen(t, m, b) && seq_cmp(a, b) != Ordering::Greater)
}
pub open spec fn shorter(t: IMap<Seq<char>, Translation>, m: DisplayMode, a: Seq<char>, b: Seq<char>) -> bool {
    tlen(t, m, a) < tlen(t, m, b) || (tlen(t, m, a) == tlen(t, m, b) && seq_cmp(a, b) != Ordering::Greater)
}
pub open spec fn is_longest(t: IMap<Seq<char>, Translation>, m: DisplayMode, s: Seq<char>, k: Seq<char>) -> bool {
    fits(t, m, s, k) && forall|j: Seq<char>| #[trigger] fits(t, m, s, j) ==> longer(t, m, k, j)
}
pub open spec fn is_shortest(t: IMap<Seq<char>, Translation>, m: DisplayMode, s: Seq<char>, k: Seq<char>) -> bool {
    fits(t, m, s, k) && forall|j: Seq<char>| #[trigger] fits(t, m, s, j) ==> shorter(t, m, k, j)
}
/// no token starts the line
#[verifier::opaque]
pub open spec fn none_fits(t: IMap<Seq<char>, Translation>, m: DisplayMode, s: Seq<char>) -> bool { forall|k: Seq<char>| !fits(t, m, s, k) }
pub proof fn lemma_none_fits(t: IMap<Seq<char>, Translation>, m: DisplayMode, s: Seq<char>)
    requires forall|k: Seq<char>| !fits(t, m, s, k)
    ensures none_fits(t, m, s), longest(t, m, s) is None, shortest(t, m, s) is None
{
    reveal(none_fits); reveal(longest); reveal(shortest);
}
/// the longest (shortest) token that starts the line, the one with the smallest key among equals
#[verifier::opaque]
pub open spec fn longest(t: IMap<Seq<char>, Translation>, m: DisplayMode, s: Seq<char>) -> Option<Seq<char>> {
    if exists|k: Seq<char>| is_longest(t, m, s, k) { Some(choose|k: Seq<char>| is_longest(t, m, s, k)) } else { None }
}
#[verifier::opaque]
pub open spec fn shortest(t: IMap<Seq<char>, Translation>, m: DisplayMode, s: Seq<char>) -> Option<Seq<char>> {
    if exists|k: Seq<char>| is_shortest(t, m, s, k) { Some(choose|k: Seq<char>| is_shortest(t, m, s, k)) } else { None }
}
pub proof fn lemma_longest(t: IMap<Seq<char>, Translation>, m: DisplayMode, s: Seq<char>, k: Seq<char>)
    requires is_longest(t, m, s, k)
    ensures longest(t, m, s) == Some(k)
{
    reveal(longest);
    let j = choose|j: Seq<char>| is_longest(t, m, s, j);
    assert(is_longest(t, m, s, j));
    lemma_seq_cmp(k, j);
}
pub proof fn lemma_shortest(t: IMap<Seq<char>, Translation>, m: DisplayMode, s: Seq<char>, k: Seq<char>)
    requires is_shortest(t, m, s, k)
    ensures shortest(t, m, s) == Some(k)
{
    reveal(shortest);
    let j = choose|j: Seq<char>| is_shortest(t, m, s, j);
    assert(is_shortest(t, m, s, j));
    lemma_seq_cmp(k, j);
}
pub proof fn lemma_blen_pos(s: Seq<char>)
    ensures blen(s) >= s.len(), s.len() > 0 ==> blen(s) > 0
    decreases s.len()
{
    if s.len() > 0 { lemma_blen_pos(s.drop_first()); assert(encode_scalar(s[0] as u32).len() >= 1); }
}
// ------------------------------------------------------------------ cutting texts at byte positions
pub broadcast proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] blen(a + b) == blen(a) + blen(b)
    decreases a.len()
{
    if a.len() > 0 {
        lemma_blen_add(a.drop_first(), b);
        assert((a + b).drop_first() =~= a.drop_first() + b);
        assert((a + b)[0] == a[0]);
    } else { assert(a + b =~= b); }
}
pub proof fn lemma_blen_take(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= s.len()
    ensures blen(s.take(i)) < blen(s.take(j))
{
    lemma_blen_add(s.take(i), s.subrange(i, j));
    assert(s.take(i) + s.subrange(i, j) =~= s.take(j));
    lemma_blen_pos(s.subrange(i, j));
}
/// the byte position of the k-th character
pub proof fn lemma_char_at(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures is_boundary(s, blen(s.take(k)) as int), char_at(s, blen(s.take(k)) as int) == k
{
    let b = blen(s.take(k)) as int;
    let j = char_at(s, b);
    assert(blen(s.take(j)) == b);
    if j < k { lemma_blen_take(s, j, k); }
    if k < j { lemma_blen_take(s, k, j); }
}
/// cutting a text behind a prefix
pub proof fn lemma_cut(s: Seq<char>, v: Seq<char>)
    requires starts(s, v)
    ensures is_boundary(s, blen(v) as int), is_boundary(s, blen(s) as int), blen(v) <= blen(s), s.subrange(char_at(s, blen(v) as int), char_at(s, blen(s) as int)) == s.skip(v.len() as int)
{
    lemma_char_at(s, v.len() as int);
    lemma_char_at(s, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    if v.len() < s.len() { lemma_blen_take(s, v.len() as int, s.len() as int); }
}
/// what the tool needs from a table: no empty keys, no empty texts, no text too long to be the shortest
pub open spec fn texts_ok(t: IMap<Seq<char>, Translation>) -> bool {
    forall|k: Seq<char>| #[trigger] t.contains_key(k) ==> k.len() > 0 && (forall|m: DisplayMode| #![trigger rep(t[k], m)] rep(t[k], m).len() > 0 && blen(rep(t[k], m)) < 9999)
}
/// no one-byte token starts the code of a two-byte token
#[verifier::opaque]
pub open spec fn codes_ok(t: IMap<Seq<char>, Translation>) -> bool {
    forall|k: Seq<char>| #[trigger] t.contains_key(k) ==>
        (exists|a: u8| k == #[trigger] key_en(key1(a))) || (exists|a: u8, b: u8| k == #[trigger] key_en(key2(a, b)) && !t.contains_key(key_en(key1(a))))
}
pub open spec fn no_cr(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\r' }
/// no token is shown with a carriage return
#[verifier::opaque]
pub open spec fn plain_texts(t: IMap<Seq<char>, Translation>) -> bool {
    forall|k: Seq<char>, m: DisplayMode| #[trigger] t.contains_key(k) ==> no_cr(#[trigger] rep(t[k], m))
}
pub open spec fn table_ok(t: IMap<Seq<char>, Translation>) -> bool { texts_ok(t) && codes_ok(t) && plain_texts(t) && t.contains_key(key_en(key1(0x3F))) }
/// so no decoded text holds one
pub proof fn lemma_dec_no_cr(t: IMap<Seq<char>, Translation>, l: Seq<char>, m: DisplayMode, s: Seq<u8>)
    requires plain_texts(t), dec(t, l, m, s) is Some
    ensures no_cr(dec(t, l, m, s).unwrap())
    decreases s.len()
{
    reveal(dec);
    reveal(plain_texts);
    if s.len() == 0 {
    } else if t.contains_key(key1(s[0]) + " "@ + l) {
        let k = key1(s[0]) + " "@ + l;
        assert(no_cr(rep(t[k], m)));
        lemma_dec_no_cr(t, l, m, s.skip(1));
    } else {
        let k = key2(s[0], s[1]) + " "@ + l;
        assert(no_cr(rep(t[k], m)));
        lemma_dec_no_cr(t, l, m, s.skip(2));
    }
}
/// holds for the tables of all 25 models at version "latest" in the shipped sheet (audited on every run)
pub broadcast axiom fn ax_table(m: Model) ensures table_ok(#[trigger] table(m, "latest"@));
pub broadcast group group_tab { ax_sheet, ax_table }
}
