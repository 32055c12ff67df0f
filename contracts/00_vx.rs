// Trusted contracts of the standard library and of the outside world (assumptions, listed in the
// evidence).  Everything marked external_body, axiom or assume_specification here is unverified.
use vstd::prelude::*;
use vstd::imap::IMap;
pub use vstd::utf8::*;
use vstd::string::*;
use vstd::std_specs::cmp::*;
pub use crate::more::*;
verus! {

pub open spec fn same<T>(a: T, b: T) -> bool { a == b }
/// what == means; texts of different types are equal when their characters are
pub trait VxSame<R: ?Sized> { spec fn sm(&self, o: &R) -> bool; }
impl<T: ?Sized> VxSame<T> for T { open spec fn sm(&self, o: &T) -> bool { self == o } }
impl<'a> VxSame<&'a str> for String { open spec fn sm(&self, o: &&'a str) -> bool { self@ == (*o)@ } }
impl VxSame<str> for String { open spec fn sm(&self, o: &str) -> bool { self@ == o@ } }
impl<'a> VxSame<String> for &'a str { open spec fn sm(&self, o: &String) -> bool { (*self)@ == o@ } }
impl VxSame<String> for str { open spec fn sm(&self, o: &String) -> bool { self@ == o@ } }
pub open spec fn vx_same<R: ?Sized, T: VxSame<R> + ?Sized>(a: &T, b: &R) -> bool { a.sm(b) }

// ---------------------------------------------------------------- text
/// number of bytes of a text
pub open spec fn blen(s: Seq<char>) -> nat { encode_utf8(s).len() }
pub open spec fn is_alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn all_alpha(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_alpha(#[trigger] s[i]) }
pub open spec fn is_boundary(s: Seq<char>, b: int) -> bool {
    exists|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == b
}
/// the number of characters in the first b bytes
pub open spec fn char_at(s: Seq<char>, b: int) -> int {
    choose|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == b
}
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }

/// index of the first occurrence of a pattern
pub open spec fn str_find(s: Seq<char>, p: Seq<char>) -> Option<int>
    decreases s.len()
{
    if starts(s, p) { Some(0) }
    else if s.len() == 0 { None }
    else { match str_find(s.drop_first(), p) { Some(i) => Some(i + 1), None => None } }
}
pub open spec fn str_split(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    if p.len() == 0 {
        seq![Seq::empty()] + Seq::new(s.len(), |i: int| seq![s[i]]) + seq![Seq::empty()]
    } else {
        match str_find(s, p) {
            Some(i) if 0 <= i <= s.len() && i + p.len() <= s.len() => seq![s.take(i)] + str_split(s.skip(i + p.len() as int), p),
            _ => seq![s],
        }
    }
}
pub open spec fn strip_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
/// str::lines
pub open spec fn str_lines(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        match str_find(s, seq!['\n']) {
            Some(i) if 0 <= i < s.len() => seq![strip_cr(s.take(i))] + str_lines(s.skip(i + 1)),
            _ => seq![s],
        }
    }
}
pub open spec fn str_join(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() }
    else if v.len() == 1 { v[0] }
    else { str_join(v.drop_last(), sep) + sep + v.last() }
}
/// replacing every character of a set by a text
pub open spec fn replace_chars(s: Seq<char>, f: spec_fn(char) -> bool, to: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { replace_chars(s.drop_last(), f, to) + (if f(s.last()) { to } else { seq![s.last()] }) }
}
pub open spec fn replace_set(s: Seq<char>, set: Seq<char>, to: Seq<char>) -> Seq<char> { replace_chars(s, |c: char| set.contains(c), to) }
/// replacing every occurrence of a text (left to right) by a text
pub open spec fn replace_str(s: Seq<char>, p: Seq<char>, to: Seq<char>) -> Seq<char>
    decreases s.len()
{
    match str_find(s, p) {
        Some(i) if 0 <= i && p.len() > 0 && i + p.len() <= s.len() => s.take(i) + to + replace_str(s.skip(i + p.len() as int), p, to),
        _ => s,
    }
}
pub open spec fn upper_c(c: char) -> char {
    if 'a' <= c && c <= 'z' { ((c as u32 - 32) as u8) as char } else { c }
}
pub open spec fn upper(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| upper_c(s[i])) }
/// unknown truth, used to look for contradictions
pub uninterp spec fn vx_arb(n: int) -> bool;
pub uninterp spec fn trim_of(s: Seq<char>) -> Seq<char>;
pub open spec fn strs(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn views<S: VxS>(s: Seq<S>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].sv()) }

pub trait VxS {
    spec fn sv(&self) -> Seq<char>;
    fn vx_str(&self) -> (r: &str) ensures r@ == self.sv();
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == p.prefix_of(self.sv());
    fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>)
        ensures
            match str_find(self.sv(), p.pv()) {
                Some(i) => 0 <= i <= self.sv().len() && r is Some && r.unwrap() == blen(self.sv().take(i)),
                None => r is None,
            };
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) ensures r == str_find(self.sv(), p.pv()) is Some;
    fn vx_replace<P: VxPat>(&self, p: P, to: &str) -> (r: String) ensures r@ == p.replaced(self.sv(), to@);
    fn vx_chars(&self) -> (r: VIter<char>) ensures r@ == self.sv();
    fn vx_lines(&self) -> (r: VIter<&str>) ensures strs(r@) == str_lines(self.sv());
    fn vx_split<P: VxPat>(&self, p: P) -> (r: VIter<&str>) ensures strs(r@) == str_split(self.sv(), p.pv());
    fn vx_trim(&self) -> (r: &str) ensures r@ == trim_of(self.sv());
    fn vx_to_uppercase(&self) -> (r: String) ensures all_alpha(self.sv()) ==> r@ == upper(self.sv());
    fn vx_to_ascii_uppercase(&self) -> (r: String) ensures r@ == upper(self.sv());
    fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == encode_utf8(self.sv());
    fn vx_bytes(&self) -> (r: VIter<u8>) ensures r@ == encode_utf8(self.sv());
    fn vx_parse_u32(&self) -> (r: Result<u32, VxErr>)
        ensures r is Ok <==> parse_u32(self.sv()) is Some, r is Ok ==> Some(r->Ok_0) == parse_u32(self.sv());
    fn vx_repeat(&self, n: usize) -> (r: String);
    fn vx_to_owned(&self) -> (r: String) ensures r@ == self.sv();
}
/// a decimal number with an optional plus sign that fits 32 bits
pub uninterp spec fn parse_u32(s: Seq<char>) -> Option<u32>;

impl VxS for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_str(&self) -> (r: &str) { self }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_replace<P: VxPat>(&self, p: P, to: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VIter<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_lines(&self) -> (r: VIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split<P: VxPat>(&self, p: P) -> (r: VIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_bytes(&self) -> (r: VIter<u8>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_u32(&self) -> (r: Result<u32, VxErr>) { unimplemented!() }
    #[verifier::external_body] fn vx_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
}
impl VxS for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_str(&self) -> (r: &str) { self }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_replace<P: VxPat>(&self, p: P, to: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VIter<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_lines(&self) -> (r: VIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split<P: VxPat>(&self, p: P) -> (r: VIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_bytes(&self) -> (r: VIter<u8>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_u32(&self) -> (r: Result<u32, VxErr>) { unimplemented!() }
    #[verifier::external_body] fn vx_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
}
impl<T: VxS + ?Sized> VxS for &T {
    open spec fn sv(&self) -> Seq<char> { (**self).sv() }
    #[verifier::external_body] fn vx_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_replace<P: VxPat>(&self, p: P, to: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VIter<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_lines(&self) -> (r: VIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split<P: VxPat>(&self, p: P) -> (r: VIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_bytes(&self) -> (r: VIter<u8>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_u32(&self) -> (r: Result<u32, VxErr>) { unimplemented!() }
    #[verifier::external_body] fn vx_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
}

/// patterns of starts_with, find, split and replace
pub trait VxPat: Sized {
    spec fn pv(&self) -> Seq<char>;
    spec fn prefix_of(&self, s: Seq<char>) -> bool;
    spec fn replaced(&self, s: Seq<char>, to: Seq<char>) -> Seq<char>;
}
impl VxPat for &str {
    open spec fn pv(&self) -> Seq<char> { self@ }
    open spec fn prefix_of(&self, s: Seq<char>) -> bool { starts(s, self@) }
    open spec fn replaced(&self, s: Seq<char>, to: Seq<char>) -> Seq<char> { replace_str(s, self@, to) }
}
impl VxPat for &String {
    open spec fn pv(&self) -> Seq<char> { self@ }
    open spec fn prefix_of(&self, s: Seq<char>) -> bool { starts(s, self@) }
    open spec fn replaced(&self, s: Seq<char>, to: Seq<char>) -> Seq<char> { replace_str(s, self@, to) }
}
impl VxPat for char {
    open spec fn pv(&self) -> Seq<char> { seq![*self] }
    open spec fn prefix_of(&self, s: Seq<char>) -> bool { starts(s, seq![*self]) }
    open spec fn replaced(&self, s: Seq<char>, to: Seq<char>) -> Seq<char> { replace_chars(s, |c: char| c == *self, to) }
}
impl<const N: usize> VxPat for [char; N] {
    open spec fn pv(&self) -> Seq<char> { arbitrary() }
    open spec fn prefix_of(&self, s: Seq<char>) -> bool { s.len() > 0 && self@.contains(s[0]) }
    open spec fn replaced(&self, s: Seq<char>, to: Seq<char>) -> Seq<char> { replace_set(s, self@, to) }
}

#[verifier::allow_in_spec]
pub assume_specification [char::is_ascii_alphabetic](c: &char) -> (r: bool) returns is_alpha(*c);
pub assume_specification [String::len](s: &String) -> (r: usize) ensures r == blen(s@);
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
#[verifier::allow_in_spec]
pub assume_specification [char::is_ascii_digit](c: &char) -> (r: bool) returns is_digit(*c);

pub assume_specification<F: FnOnce() -> core::cmp::Ordering> [core::cmp::Ordering::then_with](o: core::cmp::Ordering, f: F) -> (r: core::cmp::Ordering)
    requires o == core::cmp::Ordering::Equal ==> call_requires(f, ()),
    ensures o != core::cmp::Ordering::Equal ==> r == o, o == core::cmp::Ordering::Equal ==> call_ensures(f, (), r);
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> call_requires(f, ()),
    ensures o is Some ==> r == o, o is None ==> call_ensures(f, (), r);
pub trait VxDeref { spec fn dr(&self) -> Option<Seq<char>>; fn vx_as_deref(&self) -> (r: Option<&str>)
    ensures r is Some <==> self.dr() is Some, r is Some ==> Some(r.unwrap()@) == self.dr(); }
impl VxDeref for Option<String> {
    open spec fn dr(&self) -> Option<Seq<char>> { match self { Some(s) => Some(s@), None => None } }
    #[verifier::external_body] fn vx_as_deref(&self) -> (r: Option<&str>) { unimplemented!() }
}
pub assume_specification<T, E> [Result::unwrap_or](o: Result<T, E>, d: T) -> (r: T)
    ensures r == (match o { Ok(t) => t, Err(_) => d });

/// no text is longer than the address space allows
pub broadcast axiom fn ax_str_len(s: &str) ensures (#[trigger] s.spec_bytes()).len() <= isize::MAX;
pub broadcast axiom fn ax_string_len(s: &String) ensures (#[trigger] encode_utf8(s@)).len() <= isize::MAX;
/// texts and byte vectors with equal contents are equal
pub uninterp spec fn string_with(s: Seq<char>) -> String;
pub broadcast axiom fn ax_string_ext(a: String) ensures string_with(#[trigger] a@) == a;
pub uninterp spec fn str_with(s: Seq<char>) -> &'static str;
pub broadcast axiom fn ax_str_ext(a: &str) ensures str_with(#[trigger] a@) == a;
pub uninterp spec fn vec_with(s: Seq<u8>) -> Vec<u8>;
pub broadcast axiom fn ax_vec_u8_ext(a: Vec<u8>) ensures vec_with(#[trigger] a@) == a;
pub broadcast axiom fn ax_vec_u8_len(a: &Vec<u8>) ensures (#[trigger] a@).len() <= isize::MAX;
pub broadcast axiom fn ax_slice_u8_len(a: &[u8]) ensures (#[trigger] a@).len() <= isize::MAX;
/// u8::from(char) order of texts: the order of their UTF-8 bytes
pub open spec fn seq_cmp(a: Seq<char>, b: Seq<char>) -> core::cmp::Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Less } }
    else if b.len() == 0 { core::cmp::Ordering::Greater }
    else if (a[0] as u32) < (b[0] as u32) { core::cmp::Ordering::Less }
    else if (a[0] as u32) > (b[0] as u32) { core::cmp::Ordering::Greater }
    else { seq_cmp(a.drop_first(), b.drop_first()) }
}
pub broadcast axiom fn ax_str_cmp_obeys() ensures #[trigger] <str as PartialOrdSpec<str>>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_str_cmp(a: &str, b: &str)
    ensures #[trigger] <str as PartialOrdSpec<str>>::partial_cmp_spec(a, b) == Some(seq_cmp(a@, b@));
/// texts are equal when their characters are
pub broadcast axiom fn ax_string_str_obeys() ensures #[trigger] <String as PartialEqSpec<&str>>::obeys_eq_spec();
pub broadcast axiom fn ax_string_str_eq(a: &String, b: &&str) ensures (#[trigger] <String as PartialEqSpec<&str>>::eq_spec(a, b)) == (a@ == b@);
pub broadcast axiom fn ax_string_str1_obeys() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_string_str1_eq(a: &String, b: &str) ensures (#[trigger] <String as PartialEqSpec<str>>::eq_spec(a, b)) == (a@ == b@);
pub broadcast axiom fn ax_string_to_string(t: &String, r: String)
    ensures #[trigger] to_string_from_display_ensures::<String>(t, r) <==> t@ == r@;

// ---------------------------------------------------------------- formatting
#[verifier::external_body]
pub fn vx_lit(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { a + &b }
pub trait VxDisp { spec fn dv(&self) -> Seq<char>; }
impl VxDisp for str { open spec fn dv(&self) -> Seq<char> { self@ } }
impl VxDisp for String { open spec fn dv(&self) -> Seq<char> { self@ } }
impl<T: VxDisp + ?Sized> VxDisp for &T { open spec fn dv(&self) -> Seq<char> { (**self).dv() } }
pub uninterp spec fn num_text(n: int) -> Seq<char>;
impl VxDisp for u8 { open spec fn dv(&self) -> Seq<char> { num_text(*self as int) } }
impl VxDisp for u16 { open spec fn dv(&self) -> Seq<char> { num_text(*self as int) } }
impl VxDisp for u32 { open spec fn dv(&self) -> Seq<char> { num_text(*self as int) } }
impl VxDisp for i32 { open spec fn dv(&self) -> Seq<char> { num_text(*self as int) } }
impl VxDisp for usize { open spec fn dv(&self) -> Seq<char> { num_text(*self as int) } }
impl VxDisp for char { open spec fn dv(&self) -> Seq<char> { seq![*self] } }
impl VxDisp for VxErr { uninterp spec fn dv(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vx_disp<T: VxDisp + ?Sized>(x: &T) -> (r: String) ensures r@ == x.dv() { unimplemented!() }
pub open spec fn hex_digit(n: int) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else if n == 9 { '9' }
    else if n == 10 { 'A' } else if n == 11 { 'B' } else if n == 12 { 'C' } else if n == 13 { 'D' } else if n == 14 { 'E' } else { 'F' }
}
pub open spec fn hex2(b: u8) -> Seq<char> { seq![hex_digit(b as int / 16), hex_digit(b as int % 16)] }
pub trait VxHex { spec fn hv(&self) -> Seq<char>; }
impl VxHex for u8 { open spec fn hv(&self) -> Seq<char> { hex2(*self) } }
impl VxHex for &u8 { open spec fn hv(&self) -> Seq<char> { hex2(**self) } }
#[verifier::external_body]
pub fn vx_hex2<T: VxHex>(x: &T) -> (r: String) ensures r@ == x.hv() { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt_other<T>(x: &T) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }
pub fn vx_assert(b: bool) requires b {}

pub fn vx_unreached<T>() -> (r: T) requires false { vx_panic() }
pub trait VxExpect: Sized { type T; spec fn good(self) -> Option<Self::T>;
    /// stops with an error exit when the value is missing
    fn vx_expect(self, m: &str) -> (r: Self::T) ensures self.good() == Some(r);
}
impl<T, E> VxExpect for Result<T, E> { type T = T;
    open spec fn good(self) -> Option<T> { match self { Ok(t) => Some(t), Err(_) => None } }
    #[verifier::external_body] fn vx_expect(self, m: &str) -> (r: T) { unimplemented!() } }
impl<T> VxExpect for Option<T> { type T = T;
    open spec fn good(self) -> Option<T> { self }
    #[verifier::external_body] fn vx_expect(self, m: &str) -> (r: T) { unimplemented!() } }

/// values the standard library or serde report as errors
#[verifier::external_body]
pub struct VxErr { _p: () }
#[verifier::external]
impl core::fmt::Debug for VxErr { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl VxErr {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) { unimplemented!() }
}

// ---------------------------------------------------------------- numbers
pub open spec fn le16(n: u16) -> Seq<u8> { seq![(n % 256) as u8, (n / 256) as u8] }
pub open spec fn le32(n: u32) -> Seq<u8> { seq![(n % 256) as u8, (n / 256 % 256) as u8, (n / 65536 % 256) as u8, (n / 16777216) as u8] }
pub trait VxLe { spec fn le(&self) -> Seq<u8>; type A; spec fn arr(a: Self::A) -> Seq<u8>;
    fn vx_to_le_bytes(&self) -> (r: Self::A) ensures Self::arr(r) == self.le(); }
impl VxLe for u16 { type A = [u8; 2]; open spec fn arr(a: [u8; 2]) -> Seq<u8> { a@ }
    open spec fn le(&self) -> Seq<u8> { le16(*self) }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> (r: [u8; 2]) { unimplemented!() } }
impl VxLe for u32 { type A = [u8; 4]; open spec fn arr(a: [u8; 4]) -> Seq<u8> { a@ }
    open spec fn le(&self) -> Seq<u8> { le32(*self) }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> (r: [u8; 4]) { unimplemented!() } }
pub open spec fn from_le(a: u8, b: u8) -> u16 { (a as int + 256 * (b as int)) as u16 }
#[verifier::external_body]
pub fn vx_u16_from_le_bytes(a: [u8; 2]) -> (r: u16) ensures r == from_le(a@[0], a@[1]) { u16::from_le_bytes(a) }

pub uninterp spec fn radix_u8(s: Seq<char>, radix: u32) -> Option<u8>;
/// two hexadecimal digits read back as the byte they were printed from
pub broadcast axiom fn ax_radix(b: u8) ensures radix_u8(#[trigger] hex2(b), 16) == Some(b);
#[verifier::external_body]
pub fn vx_u8_from_str_radix(s: &str, radix: u32) -> (r: Result<u8, VxErr>)
    ensures r is Ok <==> radix_u8(s@, radix) is Some, r is Ok ==> Some(r->Ok_0) == radix_u8(s@, radix) { unimplemented!() }

// ---------------------------------------------------------------- sequences
pub trait VxBytes { spec fn bv(&self) -> Seq<u8>; }
impl VxBytes for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl VxBytes for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxBytes for [u8; N] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl VxBytes for String { open spec fn bv(&self) -> Seq<u8> { encode_utf8(self@) } }
impl VxBytes for str { open spec fn bv(&self) -> Seq<u8> { encode_utf8(self@) } }
impl VxBytes for VIter<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl VxBytes for VIter<&u8> { open spec fn bv(&self) -> Seq<u8> { Seq::new(self@.len(), |i: int| *self@[i]) } }
impl<T: VxBytes + ?Sized> VxBytes for &T { open spec fn bv(&self) -> Seq<u8> { (**self).bv() } }

pub trait VxVec<T> { spec fn vv(&self) -> Seq<T>;
    fn vx_iter(&self) -> (r: VIter<&T>) ensures is_refs(r@, self.vv());
    fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vv();
    fn vx_to_owned(&self) -> (r: Vec<T>) ensures r@ == self.vv();
}
pub open spec fn is_enum<T>(r: Seq<(usize, T)>, s: Seq<T>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] r[i] == (i as usize, s[i]) }
pub open spec fn is_refs<T>(r: Seq<&T>, s: Seq<T>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] r[i]) == s[i] }
impl<T> VxVec<T> for Vec<T> { open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: VIter<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T> VxVec<T> for [T] { open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: VIter<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T, const N: usize> VxVec<T> for [T; N] { open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: VIter<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: Vec<T>) { unimplemented!() } }

pub trait VxHas {
    spec fn texts(&self) -> Seq<String>;
    fn vx_contains(&self, x: &String) -> (r: bool)
        ensures r == exists|i: int| 0 <= i < self.texts().len() && (#[trigger] self.texts()[i])@ == x@;
}
impl VxHas for Vec<String> {
    open spec fn texts(&self) -> Seq<String> { self@ }
    #[verifier::external_body] fn vx_contains(&self, x: &String) -> (r: bool) { unimplemented!() }
}
pub trait VxGrow {
    spec fn gv(&self) -> Seq<u8>;
    fn vx_extend<B: VxBytes>(&mut self, b: B) ensures final(self).gv() == old(self).gv() + b.bv();
    fn vx_extend_from_slice<B: VxBytes>(&mut self, b: B) ensures final(self).gv() == old(self).gv() + b.bv();
    fn vx_splice<B: VxBytes>(&mut self, a: usize, z: usize, b: B)
        requires a <= z <= old(self).gv().len()
        ensures final(self).gv() == old(self).gv().take(a as int) + b.bv() + old(self).gv().skip(z as int);
}
impl VxGrow for Vec<u8> {
    open spec fn gv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_extend<B: VxBytes>(&mut self, b: B) { unimplemented!() }
    #[verifier::external_body] fn vx_extend_from_slice<B: VxBytes>(&mut self, b: B) { unimplemented!() }
    #[verifier::external_body] fn vx_splice<B: VxBytes>(&mut self, a: usize, z: usize, b: B) { unimplemented!() }
}

/// E[a..b]
pub trait VxIdx {
    type O: ?Sized;
    spec fn total(&self) -> int;
    spec fn rng_ok(&self, a: int, b: int) -> bool;
    spec fn rng_is(&self, a: int, b: int, o: &Self::O) -> bool;
    fn vx_range(&self, a: usize, b: usize) -> (r: &Self::O) requires self.rng_ok(a as int, b as int) ensures self.rng_is(a as int, b as int, r);
    fn vx_from(&self, a: usize) -> (r: &Self::O) requires self.rng_ok(a as int, self.total()) ensures self.rng_is(a as int, self.total(), r);
    fn vx_to(&self, b: usize) -> (r: &Self::O) requires self.rng_ok(0, b as int) ensures self.rng_is(0, b as int, r);
}
impl<T> VxIdx for [T] { type O = [T];
    open spec fn total(&self) -> int { self@.len() as int }
    open spec fn rng_ok(&self, a: int, b: int) -> bool { 0 <= a <= b <= self@.len() }
    open spec fn rng_is(&self, a: int, b: int, o: &[T]) -> bool { o@ == self@.subrange(a, b) }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &[T]) { &self[a..b] }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[T]) { &self[a..] }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &[T]) { &self[..b] } }
impl<T> VxIdx for Vec<T> { type O = [T];
    open spec fn total(&self) -> int { self@.len() as int }
    open spec fn rng_ok(&self, a: int, b: int) -> bool { 0 <= a <= b <= self@.len() }
    open spec fn rng_is(&self, a: int, b: int, o: &[T]) -> bool { o@ == self@.subrange(a, b) }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &[T]) { &self[a..b] }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[T]) { &self[a..] }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &[T]) { &self[..b] } }
impl<T, const N: usize> VxIdx for [T; N] { type O = [T];
    open spec fn total(&self) -> int { self@.len() as int }
    open spec fn rng_ok(&self, a: int, b: int) -> bool { 0 <= a <= b <= self@.len() }
    open spec fn rng_is(&self, a: int, b: int, o: &[T]) -> bool { o@ == self@.subrange(a, b) }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &[T]) { &self[a..b] }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[T]) { &self[a..] }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &[T]) { &self[..b] } }
impl VxIdx for str { type O = str;
    open spec fn total(&self) -> int { blen(self@) as int }
    open spec fn rng_ok(&self, a: int, b: int) -> bool { a <= b && is_boundary(self@, a) && is_boundary(self@, b) }
    open spec fn rng_is(&self, a: int, b: int, o: &str) -> bool { o@ == self@.subrange(char_at(self@, a), char_at(self@, b)) }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &str) { &self[a..] }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &str) { &self[..b] } }
impl VxIdx for String { type O = str;
    open spec fn total(&self) -> int { blen(self@) as int }
    open spec fn rng_ok(&self, a: int, b: int) -> bool { a <= b && is_boundary(self@, a) && is_boundary(self@, b) }
    open spec fn rng_is(&self, a: int, b: int, o: &str) -> bool { o@ == self@.subrange(char_at(self@, a), char_at(self@, b)) }
    #[verifier::external_body] fn vx_range(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &str) { &self[a..] }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &str) { &self[..b] } }

pub trait VxJoin { spec fn parts(&self) -> Seq<Seq<char>>;
    fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == str_join(self.parts(), sep@);
    fn vx_concat(&self) -> (r: String) ensures r@ == str_join(self.parts(), Seq::empty());
}
impl<S: VxS> VxJoin for Vec<S> { open spec fn parts(&self) -> Seq<Seq<char>> { views(self@) }
    #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_concat(&self) -> (r: String) { unimplemented!() } }
impl<S: VxS> VxJoin for [S] { open spec fn parts(&self) -> Seq<Seq<char>> { views(self@) }
    #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_concat(&self) -> (r: String) { unimplemented!() } }

// ---------------------------------------------------------------- iterators
pub open spec fn filt<T>(s: Seq<T>, f: spec_fn(T) -> bool) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { let r = filt(s.drop_last(), f); if f(s.last()) { r.push(s.last()) } else { r } }
}
/// the choice a closure makes for each element
pub uninterp spec fn keeps<T, F>(f: F) -> spec_fn(T) -> bool;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { v: std::vec::IntoIter<T> }
impl<T> View for VIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn vx_has_next(&self) -> (r: bool) ensures r == (self@.len() > 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take(&mut self) -> (r: T) requires old(self)@.len() > 0
        ensures r == old(self)@[0], final(self)@ == old(self)@.drop_first() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first() { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures old(self)@.len() <= n ==> r is None && final(self)@.len() == 0,
            old(self)@.len() > n ==> r == Some(old(self)@[n as int]) && final(self)@ == old(self)@.skip(n + 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VIter<T>)
        ensures r@ == self@.skip(if n as int <= self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VIter<T>)
        ensures r@ == self@.take(if n as int <= self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VIter<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>) ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(self@.last()) { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VIter<(usize, T)>)
        ensures is_enum(r@, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<I: VxInto<Item = T>>(self, o: I) -> (r: VIter<T>) ensures exists|z: Seq<T>| o.into_ok(z) && r@ == self@ + z { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (& #[trigger] self@[i],)),
        ensures r@ == filt(self@, keeps::<T, F>(f)),
            forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (&#[trigger] self@[i],), keeps::<T, F>(f)(self@[i])) { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), true),
            !r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), false) { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures !r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), false),
            r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), true) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (& #[trigger] self@[i],)),
        ensures r is None ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (& #[trigger] self@[i],), false),
            r is Some ==> exists|i: int| 0 <= i < self@.len() && r == Some(#[trigger] self@[i]) && call_ensures(f, (&self@[i],), true)
                && forall|j: int| 0 <= j < i ==> call_ensures(f, (& #[trigger] self@[j],), false) { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r is None ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), false),
            r is Some ==> r.unwrap() < self@.len() && call_ensures(f, (self@[r.unwrap() as int],), true)
                && forall|j: int| 0 <= j < r.unwrap() ==> call_ensures(f, (#[trigger] self@[j],), false) { unimplemented!() }
    pub fn collect<C: VxFrom<T>>(self) -> (r: C) ensures C::from_ok(self@, r) { C::vx_from_iter(self) }
}
impl VIter<&u8> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VIter<u8>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i] == *self@[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn copied(self) -> (r: VIter<u8>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i] == *self@[i] { unimplemented!() }
}
pub open spec fn sum_u32(s: Seq<u32>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { sum_u32(s.drop_last()) + s.last() } }
impl VIter<u32> {
    /// overflows panic in debug builds
    #[verifier::external_body]
    pub fn sum<S>(self) -> (r: u32) requires sum_u32(self@) <= u32::MAX ensures r == sum_u32(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn cmp(self, o: VIter<u32>) -> (r: core::cmp::Ordering) ensures r == lex_u32(self@, o@) { unimplemented!() }
}
pub open spec fn lex_u32(a: Seq<u32>, b: Seq<u32>) -> core::cmp::Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Less } }
    else if b.len() == 0 { core::cmp::Ordering::Greater }
    else if a[0] < b[0] { core::cmp::Ordering::Less }
    else if a[0] > b[0] { core::cmp::Ordering::Greater }
    else { lex_u32(a.drop_first(), b.drop_first()) }
}
pub trait VxFrom<T>: Sized { spec fn from_ok(s: Seq<T>, r: Self) -> bool; fn vx_from_iter(i: VIter<T>) -> (r: Self) ensures Self::from_ok(i@, r); }
impl<T> VxFrom<T> for Vec<T> { open spec fn from_ok(s: Seq<T>, r: Vec<T>) -> bool { r@ == s }
    #[verifier::external_body] fn vx_from_iter(i: VIter<T>) -> (r: Vec<T>) { unimplemented!() } }
impl VxFrom<char> for String { open spec fn from_ok(s: Seq<char>, r: String) -> bool { r@ == s }
    #[verifier::external_body] fn vx_from_iter(i: VIter<char>) -> (r: String) { unimplemented!() } }

pub trait VxInto: Sized { type Item; spec fn into_ok(self, s: Seq<Self::Item>) -> bool;
    fn vx_into_iter(self) -> (r: VIter<Self::Item>) ensures self.into_ok(r@); }
pub fn vx_into<I: VxInto>(i: I) -> (r: VIter<I::Item>) ensures i.into_ok(r@) { i.vx_into_iter() }
impl<T> VxInto for VIter<T> { type Item = T; open spec fn into_ok(self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<T>) { self } }
impl<T> VxInto for Vec<T> { type Item = T; open spec fn into_ok(self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl<T, const N: usize> VxInto for [T; N] { type Item = T; open spec fn into_ok(self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl<'a, T> VxInto for &'a Vec<T> { type Item = &'a T; open spec fn into_ok(self, s: Seq<&'a T>) -> bool { is_refs(s, self@) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl<'a, T> VxInto for &'a [T] { type Item = &'a T; open spec fn into_ok(self, s: Seq<&'a T>) -> bool { is_refs(s, self@) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl<'a, T, const N: usize> VxInto for &'a [T; N] { type Item = &'a T; open spec fn into_ok(self, s: Seq<&'a T>) -> bool { is_refs(s, self@) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl VxInto for core::ops::Range<usize> { type Item = usize;
    open spec fn into_ok(self, s: Seq<usize>) -> bool {
        s == Seq::new((if self.start <= self.end { self.end - self.start } else { 0 }) as nat, |i: int| (self.start + i) as usize) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<usize>) { unimplemented!() } }

// ---------------------------------------------------------------- maps with text keys
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { _k: core::marker::PhantomData<(K, V)> }
impl<V> View for HashMap<String, V> { type V = IMap<Seq<char>, V>; uninterp spec fn view(&self) -> IMap<Seq<char>, V>; }
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == IMap::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VxS + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some <==> self@.contains_key(k.sv()), r is Some ==> *r.unwrap() == self@[k.sv()] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VxS + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.sv()) { unimplemented!() }
}
pub open spec fn lists<V>(s: Seq<(String, V)>, m: IMap<Seq<char>, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0@) && m[s[i].0@] == s[i].1
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@
}
pub open spec fn lists_ref<V>(s: Seq<(&String, &V)>, m: IMap<Seq<char>, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0@) && m[s[i].0@] == *s[i].1
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@
}
impl<V> VxInto for HashMap<String, V> { type Item = (String, V); open spec fn into_ok(self, s: Seq<(String, V)>) -> bool { lists(s, self@) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<(String, V)>) { unimplemented!() } }
impl<'a, V> VxInto for &'a HashMap<String, V> { type Item = (&'a String, &'a V); open spec fn into_ok(self, s: Seq<(&'a String, &'a V)>) -> bool { lists_ref(s, self@) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<(&'a String, &'a V)>) { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { _k: core::marker::PhantomData<(K, V)> }
impl<V> View for BTreeMap<String, V> { type V = IMap<Seq<char>, V>; uninterp spec fn view(&self) -> IMap<Seq<char>, V>; }
impl<V> VxInto for BTreeMap<String, V> { type Item = (String, V); open spec fn into_ok(self, s: Seq<(String, V)>) -> bool { lists(s, self@) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<(String, V)>) { unimplemented!() } }
impl<'a, V> VxInto for &'a BTreeMap<String, V> { type Item = (&'a String, &'a V); open spec fn into_ok(self, s: Seq<(&'a String, &'a V)>) -> bool { lists_ref(s, self@) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<(&'a String, &'a V)>) { unimplemented!() } }

// ---------------------------------------------------------------- data files and JSON
pub uninterp spec fn included(name: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_include(name: &'static str) -> (r: &'static str) ensures r@ == included(name@) { unimplemented!() }
pub uninterp spec fn json_parse<T>(s: Seq<char>) -> Option<T>;
#[verifier::external_body]
pub fn vx_json_from_str<T>(s: &str) -> (r: Result<T, VxErr>)
    ensures r is Ok <==> json_parse::<T>(s@) is Some, r is Ok ==> Some(r->Ok_0) == json_parse::<T>(s@) { unimplemented!() }
/// serde: what a serializer was given and what a deserializer holds, as text
pub trait Serializer: Sized {
    type Ok;
    type Error;
    spec fn wrote(o: Self::Ok, s: Seq<char>) -> bool;
    fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>) ensures r is Ok ==> Self::wrote(r->Ok_0, v@);
}
pub trait Serialize { fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error>; }
pub trait Deserializer<'de>: Sized {
    type Error;
    /// the text held, if it is one
    spec fn held(&self) -> Option<Seq<char>>;
}
pub trait Deserialize<'de>: Sized {
    spec fn read_ok<D: Deserializer<'de>>(d: D, r: Self) -> bool;
    fn deserialize<D: Deserializer<'de>>(d: D) -> (r: Result<Self, D::Error>) ensures r is Ok ==> Self::read_ok::<D>(d, r->Ok_0);
}
impl<'de> Deserialize<'de> for String {
    open spec fn read_ok<D: Deserializer<'de>>(d: D, r: String) -> bool { d.held() == Some(r@) }
    #[verifier::external_body] fn deserialize<D: Deserializer<'de>>(d: D) -> (r: Result<String, D::Error>) { unimplemented!() }
}
pub trait VxJson { spec fn jv(&self) -> Seq<char>; }
impl<T: VxJson> VxJson for &T { open spec fn jv(&self) -> Seq<char> { (**self).jv() } }
#[verifier::external_body]
pub fn vx_json_to_string_pretty<T: VxJson>(x: &T) -> (r: Result<String, VxErr>) ensures r is Ok ==> r->Ok_0@ == x.jv() { unimplemented!() }

// ---------------------------------------------------------------- paths
pub ghost struct PathV { pub id: int }
pub ghost struct FileId { pub id: int }
pub ghost struct OsV { pub id: int }
pub uninterp spec fn path_of(s: Seq<char>) -> PathV;
pub uninterp spec fn os_of(s: Seq<char>) -> OsV;
pub uninterp spec fn os_text(o: OsV) -> Option<Seq<char>>;
pub uninterp spec fn ext_of(p: PathV) -> Option<OsV>;
pub uninterp spec fn fname_of(p: PathV) -> Option<OsV>;
pub uninterp spec fn join_of(p: PathV, s: Seq<char>) -> PathV;
pub uninterp spec fn with_ext_of(p: PathV, s: Seq<char>) -> PathV;
/// the file a path leads to (links resolved); fixed while the tool runs
pub uninterp spec fn file_at(p: PathV) -> FileId;
pub uninterp spec fn canon_of(f: FileId) -> PathV;
/// the system cannot tell which file a path leads to
pub uninterp spec fn unresolvable(p: PathV) -> bool;
/// p names an entry directly inside directory d
pub uninterp spec fn direct_child(d: PathV, p: PathV) -> bool;
pub uninterp spec fn lossy(o: OsV) -> Seq<char>;
pub uninterp spec fn path_lossy(p: PathV) -> Seq<char>;
pub uninterp spec fn no_sep(s: Seq<char>) -> bool;

/// canonical paths are equal only for the same file
pub broadcast axiom fn ax_canon(f: FileId) ensures file_at(#[trigger] canon_of(f)) == f;
/// a name that is its own file name (no separator, not . or ..) stays in the directory it is joined to
pub broadcast axiom fn ax_join_child(d: PathV, n: Seq<char>)
    requires fname_of(path_of(n)) == Some(os_of(n))
    ensures direct_child(d, #[trigger] join_of(d, n));
/// changing the extension keeps the parent directory, unless it leaves no file name ("..x" becomes "..")
pub broadcast axiom fn ax_ext_child(d: PathV, p: PathV, e: Seq<char>)
    requires direct_child(d, p), e == "txt"@ || e == "8xp"@, ext_of(with_ext_of(p, e)) is Some
    ensures #[trigger] direct_child(d, with_ext_of(p, e));
#[verifier::external_body]
pub struct Path { _p: () }
pub type PathBuf = Path;
impl View for Path { type V = PathV; uninterp spec fn view(&self) -> PathV; }
#[verifier::external_body]
pub struct OsStr { _p: () }
impl View for OsStr { type V = OsV; uninterp spec fn view(&self) -> OsV; }
impl OsStr {
    #[verifier::external_body]
    pub fn new<S: VxS + ?Sized>(s: &S) -> (r: &OsStr) ensures r@ == os_of(s.sv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>)
        ensures r is Some <==> os_text(self@) is Some, r is Some ==> Some(r.unwrap()@) == os_text(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: String) ensures r@ == lossy(self@) { unimplemented!() }
}
impl PartialEq for OsStr { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for OsStr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &OsStr) -> bool { self@ == o@ }
}
impl PartialEq for Path { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for Path {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Path) -> bool { self@ == o@ }
}
impl Path {
    #[verifier::external_body]
    pub fn new<S: VxS + ?Sized>(s: &S) -> (r: &Path) ensures r@ == path_of(s.sv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn join<S: VxSeg>(&self, s: S) -> (r: Path) ensures s.seg_ok(self@, r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_join<S: VxSeg>(&self, s: S) -> (r: Path) ensures s.seg_ok(self@, r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_extension<S: VxS>(&self, s: S) -> (r: Path) ensures r@ == with_ext_of(self@, s.sv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&OsStr>) ensures r is Some <==> ext_of(self@) is Some, r is Some ==> Some(r.unwrap()@) == ext_of(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&OsStr>) ensures r is Some <==> fname_of(self@) is Some, r is Some ==> Some(r.unwrap()@) == fname_of(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: String) ensures r@ == path_lossy(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_exists(&self, Tracked(w): Tracked<&mut World>) -> (r: bool)
        ensures final(w)@ == old(w)@, r <==> old(w)@.fs.contains_key(file_at(self@)) || old(w)@.dirs.contains(file_at(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is_dir(&self, Tracked(w): Tracked<&mut World>) -> (r: bool)
        ensures final(w)@ == old(w)@, r <==> old(w)@.dirs.contains(file_at(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is_file(&self, Tracked(w): Tracked<&mut World>) -> (r: bool)
        ensures final(w)@ == old(w)@, r <==> old(w)@.fs.contains_key(file_at(self@)) { unimplemented!() }
}

// ---------------------------------------------------------------- the outside world
/// the arguments the program was started with (assumed to be Unicode)
pub uninterp spec fn args() -> Seq<Seq<char>>;
/// there are fewer than 2^28 arguments
pub open spec fn texts_are(v: Seq<String>, a: Seq<Seq<char>>) -> bool { v.len() == a.len() && a.len() < 0x1000_0000 && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == a[i] }
/// no command, or the help option anywhere
pub open spec fn asked_help() -> bool {
    args().len() <= 1 || exists|i: int| 0 <= i < args().len() && ((#[trigger] args()[i]) == "--help"@ || args()[i] == "-h"@)
}
#[verifier::external_body]
pub fn vx_args() -> (r: VIter<String>) ensures texts_are(r@, args()) { unimplemented!() }
pub ghost struct WV {
    /// contents of all files
    pub fs: Map<FileId, Seq<u8>>,
    pub dirs: Set<FileId>,
    /// what the user answered so far
    pub answers: Seq<Seq<char>>,
    /// what was printed
    pub out: Seq<char>,
    pub err: Seq<char>,
    /// files saved completely and not yet reported as saved
    pub pending: int,
    /// the file a program is being saved to
    pub target: Option<FileId>,
    /// the file written last
    pub saved: Option<FileId>,
    /// files that were removed, or whose writing failed, and that have not been written since
    pub spoiled: Set<FileId>,
    /// never changes: the only directory writing is allowed in, if the command names one
    pub outdir: Option<PathV>,
}
#[verifier::external_body]
pub tracked struct World { _p: () }
impl View for World { type V = WV; uninterp spec fn view(&self) -> WV; }
pub open spec fn yes(s: Seq<char>) -> bool { trim_of(s) == "y"@ || trim_of(s) == "Y"@ }
pub open spec fn said_yes(w: WV) -> bool { w.answers.len() > 0 && yes(w.answers.last()) }
pub open spec fn declined(w: WV) -> bool { w.answers.len() > 0 && !yes(w.answers.last()) }
/// a file may be removed when it is being replaced and the user just said yes, or after a program was saved to another file
pub open spec fn may_remove(w: WV, f: FileId) -> bool { (said_yes(w) && w.target == Some(f)) || (w.saved is Some && w.saved != Some(f)) }
/// an existing file may be written only when the user just said yes, and only in the named directory
pub open spec fn may_write(w: WV, p: PathV) -> bool {
    (w.fs.contains_key(file_at(p)) ==> said_yes(w)) && (w.outdir is Some ==> direct_child(w.outdir.unwrap(), p))
}

/// ghost bookkeeping: how many saved files have not been reported yet
#[verifier::external_body]
pub proof fn vx_set_pending(tracked w: &mut World, n: int)
    ensures final(w)@ == (WV { pending: n, ..old(w)@ }) { unimplemented!() }
/// ghost bookkeeping: a program is about to be saved to this file
#[verifier::external_body]
pub proof fn vx_set_target(tracked w: &mut World, f: FileId)
    ensures final(w)@ == (WV { target: Some(f), ..old(w)@ }) { unimplemented!() }
/// a zero exit status before the end of main is for a user who declined, or who only asked for help
#[verifier::external_body]
pub fn vx_exit(code: i32, Tracked(w): Tracked<&mut World>) -> !
    requires
        code == 0 ==> declined(old(w)@) || asked_help(), //#C22
        code != 0 ==> old(w)@.out.len() + old(w)@.err.len() > 0, //#C22
{ std::process::exit(code) }
#[verifier::external_body]
pub fn vx_println(s: String, Tracked(w): Tracked<&mut World>)
    ensures final(w)@ == (WV { out: old(w)@.out + s@ + seq!['\n'], ..old(w)@ }) { }
#[verifier::external_body]
pub fn vx_print(s: String, Tracked(w): Tracked<&mut World>)
    ensures final(w)@ == (WV { out: old(w)@.out + s@, ..old(w)@ }) { }
#[verifier::external_body]
pub fn vx_eprintln(s: String, Tracked(w): Tracked<&mut World>)
    ensures final(w)@ == (WV { err: old(w)@.err + s@ + seq!['\n'], ..old(w)@ }) { }
#[verifier::external_body]
pub fn vx_eprint(s: String, Tracked(w): Tracked<&mut World>)
    ensures final(w)@ == (WV { err: old(w)@.err + s@, ..old(w)@ }) { }
#[verifier::external_body]
pub struct VxStdin { _p: () }
#[verifier::external_body]
pub struct VxStdout { _p: () }
#[verifier::external_body]
pub fn vx_stdin() -> (r: VxStdin) { unimplemented!() }
#[verifier::external_body]
pub fn vx_stdout() -> (r: VxStdout) { unimplemented!() }
impl VxStdin {
    /// reading an answer is assumed to work
    #[verifier::external_body]
    pub fn vx_read_line(&self, s: &mut String, Tracked(w): Tracked<&mut World>) -> (r: Result<usize, VxErr>)
        ensures r is Ok, final(w)@.answers.len() == old(w)@.answers.len() + 1, final(s)@ == old(s)@ + final(w)@.answers.last(),
            final(w)@ == (WV { answers: old(w)@.answers.push(final(w)@.answers.last()), ..old(w)@ }) { unimplemented!() }
}
impl VxStdout {
    #[verifier::external_body]
    pub fn vx_flush(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxErr>) ensures r is Ok, final(w)@ == old(w)@ { unimplemented!() }
}
pub trait VxAsPath { spec fn apv(&self) -> PathV; }
impl VxAsPath for Path { open spec fn apv(&self) -> PathV { self@ } }
impl VxAsPath for str { open spec fn apv(&self) -> PathV { path_of(self@) } }
impl VxAsPath for String { open spec fn apv(&self) -> PathV { path_of(self@) } }
impl<T: VxAsPath + ?Sized> VxAsPath for &T { open spec fn apv(&self) -> PathV { (**self).apv() } }
#[verifier::external_body]
pub fn vx_fs_read<P: VxAsPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<Vec<u8>, VxErr>)
    ensures final(w)@ == old(w)@, r is Ok ==> old(w)@.fs.contains_key(file_at(p.apv())) && r->Ok_0@ == old(w)@.fs[file_at(p.apv())] { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_read_to_string<P: VxAsPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<String, VxErr>)
    ensures final(w)@ == old(w)@,
        // input files are assumed to be smaller than 1 GiB
        r is Ok ==> r->Ok_0@.len() <= 0x4000_0000,
        r is Ok ==> old(w)@.fs.contains_key(file_at(p.apv())) && encode_utf8(r->Ok_0@) == old(w)@.fs[file_at(p.apv())] { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_remove_file<P: VxAsPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxErr>)
    requires may_remove(old(w)@, file_at(p.apv())), //#C11 C12
    ensures r is Err ==> final(w)@ == old(w)@,
        r is Ok ==> old(w)@.fs.contains_key(file_at(p.apv())) && final(w)@ == (WV { fs: old(w)@.fs.remove(file_at(p.apv())), spoiled: old(w)@.spoiled.insert(file_at(p.apv())), ..old(w)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_write<P: VxAsPath, C: VxBytes>(p: P, c: C, Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxErr>)
    requires may_write(old(w)@, p.apv()), //#C11 C19
    ensures r is Ok ==> final(w)@ == (WV { fs: old(w)@.fs.insert(file_at(p.apv()), c.bv()), spoiled: old(w)@.spoiled.remove(file_at(p.apv())), pending: old(w)@.pending + 1, saved: Some(file_at(p.apv())), ..old(w)@ }),
        r is Err ==> final(w)@ == (WV { fs: final(w)@.fs, spoiled: old(w)@.spoiled.insert(file_at(p.apv())), ..old(w)@ }) && final(w)@.fs.remove(file_at(p.apv())) == old(w)@.fs.remove(file_at(p.apv())) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_canonicalize<P: VxAsPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<Path, VxErr>)
    ensures final(w)@ == old(w)@, r is Ok ==> r->Ok_0@ == canon_of(file_at(p.apv())), r is Err ==> unresolvable(p.apv()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_create_dir<P: VxAsPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxErr>)
    ensures final(w)@ == (WV { dirs: final(w)@.dirs, ..old(w)@ }) { unimplemented!() }
#[verifier::external_body]
pub struct DirEntry { _p: () }
impl DirEntry {
    #[verifier::external_body]
    pub fn path(&self) -> (r: Path) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_fs_read_dir<P: VxAsPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<VIter<Result<DirEntry, VxErr>>, VxErr>)
    ensures final(w)@ == old(w)@ { unimplemented!() }

pub broadcast group group_vx {
    ax_str_len, ax_string_len, ax_str_ext, ax_string_ext, ax_vec_u8_ext, ax_vec_u8_len, ax_slice_u8_len, ax_string_to_string, ax_str_cmp_obeys, ax_str_cmp, ax_string_str_obeys, ax_string_str_eq, ax_string_str1_obeys, ax_string_str1_eq, ax_radix,
    ax_canon, ax_join_child, ax_ext_child, crate::more::ax_trim_end, crate::more::ax_trim_start, crate::more::ax_lossy_text,
}
}
