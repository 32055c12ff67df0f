// Trusted contracts of further parts of the standard library, which the current code does not use:
// a change of the code that uses them stays under contract.
use vstd::prelude::*;
use crate::vx::*;
use core::cmp::Ordering;
use vstd::imap::IMap;
use vstd::utf8::*;
verus! {

// ---------------------------------------------------------------- Option and Result
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or](o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> call_requires(f, (o.unwrap(),)),
    ensures o is None ==> r == d, o is Some ==> call_ensures(f, (o.unwrap(),), r);
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [Option::<T>::map_or_else](o: Option<T>, d: D, f: F) -> (r: U)
    requires o is Some ==> call_requires(f, (o.unwrap(),)), o is None ==> call_requires(d, ()),
    ensures o is None ==> call_ensures(d, (), r), o is Some ==> call_ensures(f, (o.unwrap(),), r);
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> call_requires(f, (o.unwrap(),)),
    ensures o is None ==> !r, o is Some ==> call_ensures(f, (o.unwrap(),), r);
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_none_or](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> call_requires(f, (o.unwrap(),)),
    ensures o is None ==> r, o is Some ==> call_ensures(f, (o.unwrap(),), r);
pub assume_specification<T, F: FnOnce(&T) -> bool> [Option::<T>::filter](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is Some ==> call_requires(f, (&o.unwrap(),)),
    ensures o is None ==> r is None, r is Some ==> r == o, o is Some ==> call_ensures(f, (&o.unwrap(),), r is Some);
pub assume_specification<T> [Option::<T>::or](o: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { b });
pub assume_specification<T> [Option::<T>::xor](o: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some && b is None { o } else if o is None && b is Some { b } else { None });
pub assume_specification<T, U> [Option::<T>::zip](o: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if o is Some && b is Some { Some((o.unwrap(), b.unwrap())) } else { None });
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then](o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o is Ok ==> call_requires(f, (o->Ok_0,)),
    ensures o is Err ==> r is Err && r->Err_0 == o->Err_0, o is Ok ==> call_ensures(f, (o->Ok_0,), r);
pub assume_specification<T, E, F: FnOnce(E) -> T> [Result::<T, E>::unwrap_or_else](o: Result<T, E>, f: F) -> (r: T)
    requires o is Err ==> call_requires(f, (o->Err_0,)),
    ensures o is Ok ==> r == o->Ok_0, o is Err ==> call_ensures(f, (o->Err_0,), r);
pub assume_specification<T, E, G, F: FnOnce(E) -> Result<T, G>> [Result::<T, E>::or_else](o: Result<T, E>, f: F) -> (r: Result<T, G>)
    requires o is Err ==> call_requires(f, (o->Err_0,)),
    ensures o is Ok ==> r is Ok && r->Ok_0 == o->Ok_0, o is Err ==> call_ensures(f, (o->Err_0,), r);
pub assume_specification<T, E, U, F: FnOnce(T) -> U> [Result::<T, E>::map_or](o: Result<T, E>, d: U, f: F) -> (r: U)
    requires o is Ok ==> call_requires(f, (o->Ok_0,)),
    ensures o is Err ==> r == d, o is Ok ==> call_ensures(f, (o->Ok_0,), r);
pub assume_specification<T, E, F: FnOnce(T) -> bool> [Result::<T, E>::is_ok_and](o: Result<T, E>, f: F) -> (r: bool)
    requires o is Ok ==> call_requires(f, (o->Ok_0,)),
    ensures o is Err ==> !r, o is Ok ==> call_ensures(f, (o->Ok_0,), r);
pub assume_specification<T, E, F: FnOnce(E) -> bool> [Result::<T, E>::is_err_and](o: Result<T, E>, f: F) -> (r: bool)
    requires o is Err ==> call_requires(f, (o->Err_0,)),
    ensures o is Ok ==> !r, o is Err ==> call_ensures(f, (o->Err_0,), r);
pub assume_specification<T> [bool::then_some](b: bool, t: T) -> (r: Option<T>)
    ensures r == (if b { Some(t) } else { None });

// ---------------------------------------------------------------- Ordering
pub assume_specification [Ordering::then](o: Ordering, p: Ordering) -> (r: Ordering)
    ensures r == (if o == Ordering::Equal { p } else { o });
pub trait VxRev: Sized { fn vx_reverse(self) -> Ordering; }
impl VxRev for Ordering {
    #[verifier::external_body]
    fn vx_reverse(self) -> (r: Ordering)
    ensures r == (match self { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }) { unimplemented!() }
}
pub assume_specification [Ordering::is_lt](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less);
pub assume_specification [Ordering::is_gt](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater);
pub assume_specification [Ordering::is_le](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Greater);
pub assume_specification [Ordering::is_ge](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Less);
pub assume_specification [Ordering::is_eq](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal);
pub assume_specification [Ordering::is_ne](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Equal);

// ---------------------------------------------------------------- characters and bytes
pub open spec fn is_up(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn is_low(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn is_asc(c: char) -> bool { (c as u32) < 128 }
pub open spec fn low_c(c: char) -> char { if is_up(c) { ((c as u32 + 32) as u8) as char } else { c } }
pub open spec fn low(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| low_c(s[i])) }
pub uninterp spec fn uni_alpha(c: char) -> bool;
pub assume_specification [char::is_alphabetic](c: char) -> (r: bool)
    ensures is_asc(c) ==> r == is_alpha(c), r == uni_alpha(c);
pub assume_specification [char::is_alphanumeric](c: char) -> (r: bool)
    ensures is_asc(c) ==> r == (is_alpha(c) || is_digit(c));
pub assume_specification [char::is_control](c: char) -> (r: bool)
    ensures r == ((c as u32) < 32 || (127 <= (c as u32) && (c as u32) < 160));
pub assume_specification [char::is_uppercase](c: char) -> (r: bool) ensures is_asc(c) ==> r == is_up(c);
pub assume_specification [char::is_lowercase](c: char) -> (r: bool) ensures is_asc(c) ==> r == is_low(c);
pub assume_specification [char::is_ascii](c: &char) -> (r: bool) ensures r == is_asc(*c);
pub assume_specification [char::is_ascii_alphanumeric](c: &char) -> (r: bool) ensures r == (is_alpha(*c) || is_digit(*c));
pub assume_specification [char::is_ascii_uppercase](c: &char) -> (r: bool) ensures r == is_up(*c);
pub assume_specification [char::is_ascii_lowercase](c: &char) -> (r: bool) ensures r == is_low(*c);
pub assume_specification [char::is_ascii_whitespace](c: &char) -> (r: bool)
    ensures r == (*c == ' ' || *c == '\t' || *c == '\n' || *c == '\r' || *c as u32 == 12);
pub assume_specification [char::is_ascii_control](c: &char) -> (r: bool) ensures r == ((*c as u32) < 32 || (*c as u32) == 127);
pub assume_specification [char::is_ascii_hexdigit](c: &char) -> (r: bool)
    ensures r == (is_digit(*c) || ('a' <= *c && *c <= 'f') || ('A' <= *c && *c <= 'F'));
pub trait VxCase: Sized {
    spec fn lo(self) -> Self;
    spec fn hi(self) -> Self;
    fn vx_to_ascii_lowercase(&self) -> (r: Self) ensures r == self.lo();
    fn vx_to_ascii_uppercase(&self) -> (r: Self) ensures r == self.hi();
    fn vx_eq_ignore_ascii_case(&self, o: &Self) -> (r: bool) ensures r == (self.lo() == o.lo());
}
impl VxCase for char {
    open spec fn lo(self) -> char { low_c(self) }
    open spec fn hi(self) -> char { upper_c(self) }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: char) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: char) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &char) -> (r: bool) { unimplemented!() }
}
impl VxCase for u8 {
    open spec fn lo(self) -> u8 { if 65 <= self && self <= 90 { (self + 32) as u8 } else { self } }
    open spec fn hi(self) -> u8 { if 97 <= self && self <= 122 { (self - 32) as u8 } else { self } }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &u8) -> (r: bool) { unimplemented!() }
}
pub assume_specification [u8::is_ascii](c: &u8) -> (r: bool) ensures r == (*c < 128);
pub assume_specification [u8::is_ascii_digit](c: &u8) -> (r: bool) ensures r == (48 <= *c && *c <= 57);
pub assume_specification [u8::is_ascii_alphabetic](c: &u8) -> (r: bool) ensures r == ((65 <= *c && *c <= 90) || (97 <= *c && *c <= 122));
pub assume_specification [u8::is_ascii_alphanumeric](c: &u8) -> (r: bool) ensures r == ((65 <= *c && *c <= 90) || (97 <= *c && *c <= 122) || (48 <= *c && *c <= 57));
pub assume_specification [u8::is_ascii_uppercase](c: &u8) -> (r: bool) ensures r == (65 <= *c && *c <= 90);
pub assume_specification [u8::is_ascii_lowercase](c: &u8) -> (r: bool) ensures r == (97 <= *c && *c <= 122);
pub assume_specification [u8::is_ascii_whitespace](c: &u8) -> (r: bool) ensures r == (*c == 32 || *c == 9 || *c == 10 || *c == 12 || *c == 13);

// ---------------------------------------------------------------- text
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
pub uninterp spec fn trim_end_of(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trim_start_of(s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn ax_trim_end(s: Seq<char>) ensures starts(s, #[trigger] trim_end_of(s));
pub broadcast axiom fn ax_trim_start(s: Seq<char>) ensures ends(s, #[trigger] trim_start_of(s));
pub trait VxMore: VxS {
    fn vx_ends_with<P: VxTail>(&self, p: P) -> (r: bool) ensures r == p.suffix_of(self.sv());
    fn vx_strip_prefix<P: VxTail>(&self, p: P) -> (r: Option<&str>)
        ensures r is Some <==> starts(self.sv(), p.tv()), r is Some ==> r.unwrap()@ == self.sv().skip(p.tv().len() as int);
    fn vx_strip_suffix<P: VxTail>(&self, p: P) -> (r: Option<&str>)
        ensures r is Some <==> ends(self.sv(), p.tv()), r is Some ==> r.unwrap()@ == self.sv().take(self.sv().len() - p.tv().len());
    fn vx_trim_end(&self) -> (r: &str) ensures r@ == trim_end_of(self.sv());
    fn vx_trim_start(&self) -> (r: &str) ensures r@ == trim_start_of(self.sv());
    fn vx_to_lowercase(&self) -> (r: String)
        ensures (forall|i: int| 0 <= i < self.sv().len() ==> is_asc(#[trigger] self.sv()[i])) ==> r@ == low(self.sv());
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures r@ == low(self.sv());
    fn vx_eq_ignore_ascii_case<Q: VxS + ?Sized>(&self, o: &Q) -> (r: bool) ensures r == (low(self.sv()) == low(o.sv()));
    fn vx_split_once<P: VxTail>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures match str_find(self.sv(), p.tv()) {
            Some(i) => r is Some && r.unwrap().0@ == self.sv().take(i) && r.unwrap().1@ == self.sv().skip(i + p.tv().len()),
            None => r is None,
        };
    fn vx_char_indices(&self) -> (r: VIter<(usize, char)>)
        ensures r@.len() == self.sv().len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).1 == self.sv()[i] && r@[i].0 == blen(self.sv().take(i));
    fn vx_is_char_boundary(&self, b: usize) -> (r: bool) ensures r == is_boundary(self.sv(), b as int);
}
impl<T: VxS + ?Sized> VxMore for T {
    #[verifier::external_body] fn vx_ends_with<P: VxTail>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<P: VxTail>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix<P: VxTail>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_ascii_case<Q: VxS + ?Sized>(&self, o: &Q) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_split_once<P: VxTail>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_char_indices(&self) -> (r: VIter<(usize, char)>) { unimplemented!() }
    #[verifier::external_body] fn vx_is_char_boundary(&self, b: usize) -> (r: bool) { unimplemented!() }
}
pub trait VxTail: Sized {
    spec fn tv(&self) -> Seq<char>;
    spec fn suffix_of(&self, s: Seq<char>) -> bool;
}
impl VxTail for &str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    open spec fn suffix_of(&self, s: Seq<char>) -> bool { ends(s, self@) }
}
impl VxTail for &String {
    open spec fn tv(&self) -> Seq<char> { self@ }
    open spec fn suffix_of(&self, s: Seq<char>) -> bool { ends(s, self@) }
}
impl VxTail for char {
    open spec fn tv(&self) -> Seq<char> { seq![*self] }
    open spec fn suffix_of(&self, s: Seq<char>) -> bool { ends(s, seq![*self]) }
}

// ---------------------------------------------------------------- numbers
pub trait VxBe { type A; spec fn be_ok(&self, a: Self::A) -> bool; fn vx_to_be_bytes(&self) -> (r: Self::A) ensures self.be_ok(r); }
impl VxBe for u16 { type A = [u8; 2]; open spec fn be_ok(&self, a: [u8; 2]) -> bool { a@ == le16(*self).reverse() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> (r: [u8; 2]) { unimplemented!() } }
impl VxBe for u32 { type A = [u8; 4]; open spec fn be_ok(&self, a: [u8; 4]) -> bool { a@ == le32(*self).reverse() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> (r: [u8; 4]) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_u16_from_be_bytes(a: [u8; 2]) -> (r: u16) ensures r == from_le(a@[1], a@[0]) { unimplemented!() }
pub assume_specification [u16::overflowing_add](a: u16, b: u16) -> (r: (u16, bool))
    ensures r.0 == (a + b) % 65536, r.1 == (a + b >= 65536);
pub assume_specification [u16::swap_bytes](a: u16) -> (r: u16) ensures r == (a % 256) * 256 + a / 256;
pub assume_specification<T> [core::mem::replace](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;

// ---------------------------------------------------------------- sequences
pub trait VxSeq<T> {
    spec fn qv(&self) -> Seq<T>;
    fn vx_reverse(&mut self) ensures final(self).qv() == old(self).qv().reverse();
    fn vx_fill(&mut self, x: T) where T: Copy ensures final(self).qv() == Seq::new(old(self).qv().len(), |i: int| x);
    fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).qv().len() ==> call_requires(f, (& #[trigger] old(self).qv()[i],)),
        ensures final(self).qv() == filt(old(self).qv(), keeps::<T, F>(f)),
            forall|i: int| 0 <= i < old(self).qv().len() ==> call_ensures(f, (&#[trigger] old(self).qv()[i],), keeps::<T, F>(f)(old(self).qv()[i]));
}
impl<T> VxSeq<T> for Vec<T> {
    open spec fn qv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_reverse(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vx_fill(&mut self, x: T) where T: Copy { unimplemented!() }
    #[verifier::external_body] fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F) { unimplemented!() }
}
/// one value after another is dropped when it equals the one before
pub open spec fn dedup<T>(s: Seq<T>) -> Seq<T>
    decreases s.len()
{
    if s.len() <= 1 { s } else if s.last() == s[s.len() - 2] { dedup(s.drop_last()) } else { dedup(s.drop_last()).push(s.last()) }
}
pub trait VxOrd {
    type E;
    spec fn ov(&self) -> Seq<Self::E>;
    spec fn le(a: Self::E, b: Self::E) -> bool;
    fn vx_sort(&mut self)
        ensures final(self).ov().to_multiset() == old(self).ov().to_multiset(),
            forall|i: int, j: int| 0 <= i <= j < final(self).ov().len() ==> Self::le(#[trigger] final(self).ov()[i], #[trigger] final(self).ov()[j]);
    fn vx_dedup(&mut self) ensures final(self).ov() == dedup(old(self).ov());
}
impl VxOrd for Vec<u8> {
    type E = u8;
    open spec fn ov(&self) -> Seq<u8> { self@ }
    open spec fn le(a: u8, b: u8) -> bool { a <= b }
    #[verifier::external_body] fn vx_sort(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vx_dedup(&mut self) { unimplemented!() }
}
impl VxOrd for Vec<String> {
    type E = String;
    open spec fn ov(&self) -> Seq<String> { self@ }
    open spec fn le(a: String, b: String) -> bool { seq_cmp(a@, b@) != Ordering::Greater }
    #[verifier::external_body] fn vx_sort(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vx_dedup(&mut self) { unimplemented!() }
}
/// whether a list of bytes or characters holds a value
pub trait VxHas1<T> { spec fn hs(&self) -> Seq<T>; fn vx_contains(&self, x: &T) -> (r: bool) ensures r == self.hs().contains(*x); }
impl VxHas1<u8> for Vec<u8> { open spec fn hs(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_contains(&self, x: &u8) -> (r: bool) { unimplemented!() } }
impl VxHas1<u8> for [u8] { open spec fn hs(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_contains(&self, x: &u8) -> (r: bool) { unimplemented!() } }
impl<const N: usize> VxHas1<u8> for [u8; N] { open spec fn hs(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_contains(&self, x: &u8) -> (r: bool) { unimplemented!() } }
impl VxHas1<char> for [char] { open spec fn hs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_contains(&self, x: &char) -> (r: bool) { unimplemented!() } }
impl<const N: usize> VxHas1<char> for [char; N] { open spec fn hs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_contains(&self, x: &char) -> (r: bool) { unimplemented!() } }

/// consecutive pieces of n elements, the last one possibly shorter
pub trait VxPieces<T> {
    spec fn cv(&self) -> Seq<T>;
    fn vx_chunks(&self, n: usize) -> (r: VIter<&[T]>) requires n > 0
        ensures r@.len() == (self.cv().len() + n - 1) / (n as int),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.cv().subrange(i * n, if (i + 1) * n <= self.cv().len() { (i + 1) * n } else { self.cv().len() as int });
    fn vx_windows(&self, n: usize) -> (r: VIter<&[T]>) requires n > 0
        ensures r@.len() == (if n <= self.cv().len() { self.cv().len() - n + 1 } else { 0 }),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.cv().subrange(i, i + n);
}
impl<T> VxPieces<T> for Vec<T> { open spec fn cv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_chunks(&self, n: usize) -> (r: VIter<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn vx_windows(&self, n: usize) -> (r: VIter<&[T]>) { unimplemented!() } }
impl<T> VxPieces<T> for [T] { open spec fn cv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_chunks(&self, n: usize) -> (r: VIter<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn vx_windows(&self, n: usize) -> (r: VIter<&[T]>) { unimplemented!() } }

// ---------------------------------------------------------------- iterators
/// what a closure picks for each element
pub uninterp spec fn picks<T, U, F>(f: F) -> spec_fn(T) -> Option<U>;
pub open spec fn fmap<T, U>(s: Seq<T>, f: spec_fn(T) -> Option<U>) -> Seq<U>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { let r = fmap(s.drop_last(), f); match f(s.last()) { Some(x) => r.push(x), None => r } }
}
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@ == fmap(self@, picks::<T, U, F>(f)),
            forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), picks::<T, U, F>(f)(self@[i])) { unimplemented!() }
    #[verifier::external_body]
    pub fn find_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r is None ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), None::<U>),
            r is Some ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), r)
                && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] self@[j],), None::<U>) { unimplemented!() }
    #[verifier::external_body]
    pub fn fold<A, F: Fn(A, T) -> A>(self, init: A, f: F) -> (r: A)
        requires forall|a: A, i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (a, self@[i])),
        ensures exists|acc: Seq<A>| acc.len() == self@.len() + 1 && acc[0] == init && #[trigger] acc.last() == r
            && forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (acc[i], #[trigger] self@[i]), acc[i + 1]) { unimplemented!() }
    #[verifier::external_body]
    pub fn step_by(self, n: usize) -> (r: VIter<T>) requires n > 0
        ensures r@.len() == (self@.len() + n - 1) / (n as int), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self@[i * n] { unimplemented!() }
    #[verifier::external_body]
    pub fn take_while<F: Fn(&T) -> bool>(self, f: F) -> (r: VIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (& #[trigger] self@[i],)),
        ensures r@.len() <= self@.len(), r@ == self@.take(r@.len() as int),
            forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (& #[trigger] self@[i],), true),
            r@.len() < self@.len() ==> call_ensures(f, (&self@[r@.len() as int],), false) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip_while<F: Fn(&T) -> bool>(self, f: F) -> (r: VIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (& #[trigger] self@[i],)),
        ensures r@.len() <= self@.len(), r@ == self@.skip(self@.len() - r@.len()),
            forall|i: int| 0 <= i < self@.len() - r@.len() ==> call_ensures(f, (& #[trigger] self@[i],), true),
            r@.len() > 0 ==> call_ensures(f, (&self@[self@.len() - r@.len()],), false) { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<I: VxInto>(self, o: I) -> (r: VIter<(T, I::Item)>)
        ensures exists|z: Seq<I::Item>| o.into_ok(z) && r@.len() == (if self@.len() <= z.len() { self@.len() } else { z.len() })
            && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == self@[i] && r@[i].1 == z[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn by_ref(&mut self) -> (r: &mut VIter<T>) ensures *r == *old(self), *final(self) == *final(r) { unimplemented!() }
}

// ---------------------------------------------------------------- paths
/// what a path can be joined with
pub trait VxSeg { spec fn seg_ok(&self, p: PathV, r: PathV) -> bool; }
impl VxSeg for str { open spec fn seg_ok(&self, p: PathV, r: PathV) -> bool { r == join_of(p, self@) } }
impl VxSeg for String { open spec fn seg_ok(&self, p: PathV, r: PathV) -> bool { r == join_of(p, self@) } }
impl VxSeg for OsStr { open spec fn seg_ok(&self, p: PathV, r: PathV) -> bool { os_text(self@) is Some ==> r == join_of(p, os_text(self@).unwrap()) } }
impl VxSeg for Path { open spec fn seg_ok(&self, p: PathV, r: PathV) -> bool { forall|s: Seq<char>| #[trigger] path_of(s) == self@ ==> r == join_of(p, s) } }
impl<T: VxSeg + ?Sized> VxSeg for &T { open spec fn seg_ok(&self, p: PathV, r: PathV) -> bool { (**self).seg_ok(p, r) } }
pub uninterp spec fn stem_of(p: PathV) -> Option<OsV>;
pub uninterp spec fn parent_of(p: PathV) -> Option<PathV>;
pub uninterp spec fn with_name_of(p: PathV, s: Seq<char>) -> PathV;
impl Path {
    #[verifier::external_body]
    pub fn file_stem(&self) -> (r: Option<&OsStr>) ensures r is Some <==> stem_of(self@) is Some, r is Some ==> Some(r.unwrap()@) == stem_of(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>) ensures r is Some <==> parent_of(self@) is Some, r is Some ==> Some(r.unwrap()@) == parent_of(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_file_name<S: VxS>(&self, s: S) -> (r: Path) ensures r@ == with_name_of(self@, s.sv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn push<S: VxSeg>(&mut self, s: S) ensures s.seg_ok(old(self)@, final(self)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_extension<S: VxS>(&mut self, s: S) -> (r: bool) ensures r ==> final(self)@ == with_ext_of(old(self)@, s.sv()), !r ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some ==> path_of(r.unwrap()@) == self@ && r.unwrap()@ == path_lossy(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> (r: String) ensures r@ == path_lossy(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_absolute(&self) -> (r: bool) { unimplemented!() }
}
impl OsStr {
    #[verifier::external_body]
    pub fn to_os_string(&self) -> (r: OsString) ensures r@ == self@ { unimplemented!() }
}
pub type OsString = OsStr;
impl PartialEq<str> for OsStr { #[verifier::external_body] fn eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for OsStr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &str) -> bool { self@ == os_of(o@) }
}

// ---------------------------------------------------------------- files
#[verifier::external_body]
pub struct VxMeta { _p: () }
impl VxMeta {
    pub uninterp spec fn size(&self) -> int;
    #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r == self.size() { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_fs_metadata<P: VxAsPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<VxMeta, VxErr>)
    ensures final(w)@ == old(w)@,
        r is Ok && old(w)@.fs.contains_key(file_at(p.apv())) ==> r->Ok_0.size() == old(w)@.fs[file_at(p.apv())].len(),
        old(w)@.fs.contains_key(file_at(p.apv())) ==> r is Ok { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_exists<P: VxAsPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<bool, VxErr>)
    ensures final(w)@ == old(w)@,
        r is Ok ==> r->Ok_0 == (old(w)@.fs.contains_key(file_at(p.apv())) || old(w)@.dirs.contains(file_at(p.apv()))) { unimplemented!() }
#[verifier::external_body]
pub fn vx_fs_create_dir_all<P: VxAsPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxErr>)
    ensures final(w)@ == (WV { dirs: final(w)@.dirs, ..old(w)@ }) { unimplemented!() }
/// the target is written, the source only read
#[verifier::external_body]
pub fn vx_fs_copy<P: VxAsPath, Q: VxAsPath>(p: P, q: Q, Tracked(w): Tracked<&mut World>) -> (r: Result<u64, VxErr>)
    requires may_write(old(w)@, q.apv()), //#C11 C19
    ensures
        r is Ok ==> old(w)@.fs.contains_key(file_at(p.apv()))
            && final(w)@ == (WV { fs: old(w)@.fs.insert(file_at(q.apv()), old(w)@.fs[file_at(p.apv())]), saved: Some(file_at(q.apv())), ..old(w)@ }),
        r is Err ==> final(w)@ == (WV { fs: final(w)@.fs, ..old(w)@ }) && final(w)@.fs.remove(file_at(q.apv())) == old(w)@.fs.remove(file_at(q.apv())) { unimplemented!() }
/// the source goes away and the target is written
#[verifier::external_body]
pub fn vx_fs_rename<P: VxAsPath, Q: VxAsPath>(p: P, q: Q, Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxErr>)
    requires may_remove(old(w)@, file_at(p.apv())), //#C11 C12
        may_write(old(w)@, q.apv()), //#C11 C19
    ensures
        r is Err ==> final(w)@ == old(w)@,
        r is Ok ==> old(w)@.fs.contains_key(file_at(p.apv()))
            && final(w)@ == (WV { fs: old(w)@.fs.remove(file_at(p.apv())).insert(file_at(q.apv()), old(w)@.fs[file_at(p.apv())]), saved: Some(file_at(q.apv())), ..old(w)@ }) { unimplemented!() }

// ---------------------------------------------------------------- odds and ends
pub assume_specification [String::with_capacity](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
#[verifier::external_body]
pub fn vx_string_from<T: VxDisp>(x: T) -> (r: String) ensures r@ == x.dv() { unimplemented!() }
pub trait VxTake: Sized { spec fn empty(x: Self) -> bool; fn vx_take_from(x: &mut Self) -> (r: Self) ensures r == *old(x), Self::empty(*final(x)); }
impl VxTake for String { open spec fn empty(x: String) -> bool { x@.len() == 0 } #[verifier::external_body] fn vx_take_from(x: &mut String) -> (r: String) { unimplemented!() } }
impl<T> VxTake for Vec<T> { open spec fn empty(x: Vec<T>) -> bool { x@.len() == 0 } #[verifier::external_body] fn vx_take_from(x: &mut Vec<T>) -> (r: Vec<T>) { unimplemented!() } }
impl<T> VxTake for Option<T> { open spec fn empty(x: Option<T>) -> bool { x is None } #[verifier::external_body] fn vx_take_from(x: &mut Option<T>) -> (r: Option<T>) { unimplemented!() } }
pub fn vx_mem_take<T: VxTake>(x: &mut T) -> (r: T) ensures r == *old(x), T::empty(*final(x)) { T::vx_take_from(x) }
pub trait VxNum: Sized { spec fn nn(self) -> int; }
impl VxNum for usize { open spec fn nn(self) -> int { self as int } }
impl VxNum for u8 { open spec fn nn(self) -> int { self as int } }
impl VxNum for u16 { open spec fn nn(self) -> int { self as int } }
impl VxNum for u32 { open spec fn nn(self) -> int { self as int } }
impl VxNum for i32 { open spec fn nn(self) -> int { self as int } }
impl<'a, T: VxNum> VxNum for &'a T { open spec fn nn(self) -> int { (*self).nn() } }
#[verifier::external_body]
pub fn vx_cmp_min<T: VxNum>(a: T, b: T) -> (r: T) ensures r == (if a.nn() <= b.nn() { a } else { b }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_cmp_max<T: VxNum>(a: T, b: T) -> (r: T) ensures r == (if a.nn() <= b.nn() { b } else { a }) { unimplemented!() }
impl<T: VxNum> VIter<T> {
    #[verifier::external_body]
    pub fn max(self) -> (r: Option<T>)
        ensures r is None <==> self@.len() == 0, r is Some ==> self@.contains(r.unwrap()) && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).nn() <= r.unwrap().nn() { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self) -> (r: Option<T>)
        ensures r is None <==> self@.len() == 0, r is Some ==> self@.contains(r.unwrap()) && forall|i: int| 0 <= i < self@.len() ==> r.unwrap().nn() <= (#[trigger] self@[i]).nn() { unimplemented!() }
}
/// text made of bytes that may not be valid
pub uninterp spec fn lossy_text(b: Seq<u8>) -> Seq<char>;
pub broadcast axiom fn ax_lossy_text(s: Seq<char>) ensures #[trigger] lossy_text(encode_utf8(s)) == s;
#[verifier::external_body]
pub fn vx_from_utf8_lossy(b: &[u8]) -> (r: String) ensures r@ == lossy_text(b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_string_from_utf8(b: Vec<u8>) -> (r: Result<String, VxErr>) ensures r is Ok <==> (exists|s: Seq<char>| encode_utf8(s) == b@), r is Ok ==> encode_utf8(r->Ok_0@) == b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_from_utf8(b: &[u8]) -> (r: Result<&str, VxErr>) ensures r is Ok <==> (exists|s: Seq<char>| encode_utf8(s) == b@), r is Ok ==> encode_utf8(r->Ok_0@) == b@ { unimplemented!() }
pub uninterp spec fn white_pieces(s: Seq<char>) -> Seq<Seq<char>>;
/// the place of the last occurrence
pub open spec fn str_rfind(s: Seq<char>, p: Seq<char>) -> Option<int>
    decreases s.len()
{
    if ends(s, p) { Some(s.len() - p.len()) } else if s.len() == 0 { None } else { str_rfind(s.drop_last(), p) }
}
/// the first n - 1 pieces and the rest
pub open spec fn str_splitn(s: Seq<char>, n: int, p: Seq<char>) -> Seq<Seq<char>>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if n == 1 { seq![s] }
    else { match str_find(s, p) {
        Some(i) if p.len() > 0 => seq![s.take(i)] + str_splitn(s.skip(i + p.len()), n - 1, p),
        _ => seq![s],
    } }
}
pub trait VxRest: VxS {
    fn vx_split_whitespace(&self) -> (r: VIter<&str>) ensures strs(r@) == white_pieces(self.sv());
    fn vx_rfind<P: VxTail>(&self, p: P) -> (r: Option<usize>)
        ensures match str_rfind(self.sv(), p.tv()) { Some(i) => r is Some && r.unwrap() == blen(self.sv().take(i)), None => r is None };
    fn vx_splitn<P: VxTail>(&self, n: usize, p: P) -> (r: VIter<&str>) ensures p.tv().len() > 0 ==> strs(r@) == str_splitn(self.sv(), n as int, p.tv());
    fn vx_parse_u8(&self) -> (r: Result<u8, VxErr>)
        ensures r is Ok <==> parse_u32(self.sv()) is Some && parse_u32(self.sv()).unwrap() < 256, r is Ok ==> Some(r->Ok_0 as u32) == parse_u32(self.sv());
    fn vx_parse_u16(&self) -> (r: Result<u16, VxErr>)
        ensures r is Ok <==> parse_u32(self.sv()) is Some && parse_u32(self.sv()).unwrap() < 65536, r is Ok ==> Some(r->Ok_0 as u32) == parse_u32(self.sv());
    fn vx_parse_usize(&self) -> (r: Result<usize, VxErr>)
        ensures parse_u32(self.sv()) is Some ==> r is Ok && Some(r->Ok_0 as u32) == parse_u32(self.sv()) && r->Ok_0 <= u32::MAX;
}
impl<T: VxS + ?Sized> VxRest for T {
    #[verifier::external_body] fn vx_split_whitespace(&self) -> (r: VIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind<P: VxTail>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_splitn<P: VxTail>(&self, n: usize, p: P) -> (r: VIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_u8(&self) -> (r: Result<u8, VxErr>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_u16(&self) -> (r: Result<u16, VxErr>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_usize(&self) -> (r: Result<usize, VxErr>) { unimplemented!() }
}
pub trait VxBytesLike { spec fn bl(&self) -> Seq<u8>;
    fn vx_starts_with<B: VxBytes>(&self, b: B) -> (r: bool) ensures r == (b.bv().len() <= self.bl().len() && self.bl().take(b.bv().len() as int) == b.bv());
    fn vx_ends_with<B: VxBytes>(&self, b: B) -> (r: bool) ensures r == (b.bv().len() <= self.bl().len() && self.bl().skip(self.bl().len() - b.bv().len()) == b.bv()); }
impl VxBytesLike for [u8] { open spec fn bl(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_starts_with<B: VxBytes>(&self, b: B) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<B: VxBytes>(&self, b: B) -> (r: bool) { unimplemented!() } }
impl VxBytesLike for Vec<u8> { open spec fn bl(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_starts_with<B: VxBytes>(&self, b: B) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<B: VxBytes>(&self, b: B) -> (r: bool) { unimplemented!() } }
pub trait VxParts<T> { spec fn pts(&self) -> Seq<T>;
    /// v.drain(a..z)
    fn vx_drain(&mut self, a: usize, z: usize) -> (r: VIter<T>) requires a <= z <= old(self).pts().len()
        ensures r@ == old(self).pts().subrange(a as int, z as int), final(self).pts() == old(self).pts().take(a as int) + old(self).pts().skip(z as int);
    fn vx_drain_from(&mut self, a: usize) -> (r: VIter<T>) requires a <= old(self).pts().len()
        ensures r@ == old(self).pts().skip(a as int), final(self).pts() == old(self).pts().take(a as int);
    fn vx_swap(&mut self, a: usize, z: usize) requires a < old(self).pts().len(), z < old(self).pts().len()
        ensures final(self).pts() == old(self).pts().update(a as int, old(self).pts()[z as int]).update(z as int, old(self).pts()[a as int]);
}
impl<T> VxParts<T> for Vec<T> { open spec fn pts(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_drain(&mut self, a: usize, z: usize) -> (r: VIter<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_drain_from(&mut self, a: usize) -> (r: VIter<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_swap(&mut self, a: usize, z: usize) { unimplemented!() } }
/// v[a..z].copy_from_slice(b)
pub trait VxPut { spec fn uv(&self) -> Seq<u8>;
    fn vx_put<B: VxBytes>(&mut self, a: usize, z: usize, b: B) requires a <= z <= old(self).uv().len(), b.bv().len() == z - a
        ensures final(self).uv() == old(self).uv().take(a as int) + b.bv() + old(self).uv().skip(z as int); }
impl VxPut for Vec<u8> { open spec fn uv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_put<B: VxBytes>(&mut self, a: usize, z: usize, b: B) { unimplemented!() } }
impl<const N: usize> VxPut for [u8; N] { open spec fn uv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_put<B: VxBytes>(&mut self, a: usize, z: usize, b: B) { unimplemented!() } }
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: VIter<(&String, &V)>) ensures lists_ref(r@, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: VIter<&String>) ensures exists|z: Seq<(&String, &V)>| #[trigger] lists_ref(z, self@) && r@ == Seq::new(z.len(), |i: int| z[i].0) { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: VIter<&V>) ensures exists|z: Seq<(&String, &V)>| #[trigger] lists_ref(z, self@) && r@ == Seq::new(z.len(), |i: int| z[i].1) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == IMap::<Seq<char>, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == IMap::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VxS + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.sv()), r is Some <==> old(self)@.contains_key(k.sv()), r is Some ==> r.unwrap() == old(self)@[k.sv()] { unimplemented!() }
}
pub broadcast group group_more { ax_trim_end, ax_trim_start, ax_lossy_text }
}
