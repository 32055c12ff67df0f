// Programs built from text files and JSON files.
use vstd::prelude::*;
use vstd::imap::IMap;
use crate::vx::*;
use crate::calculator::{DisplayMode, EncodeMode};
use crate::calculator::models::*;
use crate::calculator::program::*;
use crate::calculator::tokens::*;
use crate::spec::*;
verus! {
broadcast use crate::vx::group_vx;

/// the text of a file (files that are no UTF-8 cannot be read as text)
pub open spec fn file_text_of(s: Seq<u8>) -> Seq<char> { decode_utf8(s) }
pub broadcast proof fn lemma_file_text(f: Seq<char>)
    ensures #[trigger] decode_utf8(encode_utf8(f)) == f
{ encode_utf8_decode_utf8(f); }
pub broadcast proof fn lemma_views(q: Seq<&str>)
    ensures #[trigger] views(q) == strs(q)
{ assert(views(q) =~= strs(q)); }
pub broadcast proof fn lemma_strs_skip(q: Seq<&str>, n: int)
    requires 0 <= n <= q.len()
    ensures #[trigger] strs(q.skip(n)) == strs(q).skip(n)
{ assert(strs(q.skip(n)) =~= strs(q).skip(n)); }
/// line n of a text file
pub open spec fn txt_line(f: Seq<char>, n: int) -> Seq<char> { str_lines(f)[n] }
/// the program text: line 6 and those after it
pub open spec fn txt_body(f: Seq<char>) -> Seq<char> {
    str_join(str_lines(f).skip(if str_lines(f).len() >= 6 { 6 } else { str_lines(f).len() as int }), "\n"@)
}
pub open spec fn txt_model(f: Seq<char>) -> Model { model_from(txt_line(f, 5)) }
pub open spec fn txt_code(f: Seq<char>, e: EncodeMode) -> Option<Seq<u8>> {
    enc(table(txt_model(f), "latest"@), dmode_of(txt_line(f, 4)).unwrap(), e, true, txt_body(f))
}
/// exactly the texts that give a program
pub open spec fn txt_ok(f: Seq<char>, e: EncodeMode) -> bool {
    &&& str_lines(f).len() >= 6
    &&& valid_name(txt_line(f, 0))
    &&& ftype_of(txt_line(f, 2)) is Some && dest_of(txt_line(f, 3)) is Some && dmode_of(txt_line(f, 4)) is Some
    &&& txt_code(f, e) is Some && txt_code(f, e).unwrap().len() + 19 <= 65535
}
pub open spec fn txt_header(m: Model, n: int, h: Header) -> bool {
    &&& h.bytes@ =~= encode_utf8(model_sig(m)) + seq![0x1Au8, 0x0Au8] + seq![model_id(m)] + zero_pad(encode_utf8(h.comment@), 42) + le16((n + 19) as u16)
    &&& h.signature@ == model_sig(m) && h.signature_extra@ =~= seq![0x1Au8, 0x0Au8] && h.product_id == model_id(m)
    &&& blen(h.comment@) <= 42
    &&& h.metadata_and_body_length == n + 19
}
pub open spec fn txt_metadata(name: Seq<char>, t: FileType, d: Destination, n: int, m: Metadata) -> bool {
    &&& m.bytes@ =~= seq![0x0Du8, 0x00u8] + le16((n + 2) as u16) + seq![ftype_byte(t)] + zero_pad(encode_utf8(name), 8) + seq![0x00u8, dest_byte(d)]
        + le16((n + 2) as u16) + le16(n as u16)
    &&& m.flag == 0x0D && m.unknown_byte == 0 && m.body_and_checksum_length == n + 2 && m.file_type == t && m.name@ == name
    &&& m.version == 0 && m.destination == d && m.body_and_checksum_length_copy == n + 2 && m.body_length == n
}
pub proof fn lemma_sum_bound(s: Seq<u8>)
    ensures 0 <= byte_sum(s) <= 255 * s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_sum_bound(s.drop_last()); } }
pub proof fn lemma_sum_u32(q: Seq<u32>, s: Seq<u8>)
    requires q.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] q[i] == s[i] as u32
    ensures sum_u32(q) == byte_sum(s)
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] q.drop_last()[i] == s.drop_last()[i] as u32 by { assert(q[i] == s[i] as u32); }
        lemma_sum_u32(q.drop_last(), s.drop_last());
        assert(q[q.len() - 1] == s[s.len() - 1] as u32);
    }
}
/// adding up bytes cannot overflow for a program that fits the length fields
pub broadcast proof fn lemma_sum_q(q: Seq<u32>, r: Seq<&u8>, s: Seq<u8>)
    requires #[trigger] is_refs(r, s), q.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] q[i] == *r[i] as u32
    ensures #[trigger] sum_u32(q) == byte_sum(s), 0 <= byte_sum(s) <= 255 * s.len()
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] q[i] == s[i] as u32 by { assert(*r[i] == s[i]); }
    lemma_sum_u32(q, s);
    lemma_sum_bound(s);
}
/// the two low bytes of a sum
pub broadcast proof fn lemma_le32(n: u32)
    ensures (#[trigger] le32(n)).len() == 4, from_le(le32(n)[0], le32(n)[1]) == n % 65536,
        le16((n % 65536) as u16) =~= le32(n).subrange(0, 2), le32(n).subrange(0, 2)[0] == le32(n)[0], le32(n).subrange(0, 2)[1] == le32(n)[1],
{
    let (a, b) = (n % 256, n / 256 % 256);
    assert(a + 256 * b == n % 65536) by (nonlinear_arith) requires a == n % 256, b == n / 256 % 256 {
        assert(n == 65536 * (n / 65536) + 256 * b + a) by (nonlinear_arith) requires a == n % 256, b == n / 256 % 256 {
            assert(n / 256 / 256 == n / 65536) by (nonlinear_arith);
        }
    }
}
/// the comment of a program built from text
pub open spec fn created_by() -> Seq<char> { "Created by TI-Tools "@ + crate::vx_env::pkg_version() }
/// a program built from a text
pub open spec fn from_text(f: Seq<char>, e: EncodeMode, h: Header, m: Metadata, b: Body, c: Checksum, dm: DisplayMode, d: ModelDetails) -> bool {
    &&& txt_ok(f, e)
    &&& d.model == txt_model(f) && details_ok(d)
    &&& Some(dm) == dmode_of(txt_line(f, 4))
    &&& Some(b.bytes@) == txt_code(f, e) && b.translation@ == txt_body(f)
    &&& txt_header(d.model, b.bytes@.len() as int, h)
    &&& txt_metadata(txt_line(f, 0), ftype_of(txt_line(f, 2)).unwrap(), dest_of(txt_line(f, 3)).unwrap(), b.bytes@.len() as int, m)
    &&& c.value == checksum_of(m.bytes@, b.bytes@) && c.bytes@ =~= le16(c.value)
}
pub proof fn lemma_sig_len(m: Model)
    ensures encode_utf8(model_sig(m)).len() == 8
{
    reveal_strlit("**TI82**"); reveal_strlit("**TI83**"); reveal_strlit("**TI83F*");
    lemma_ascii_len(model_sig(m));
}

// ------------------------------------------------------------------ whole programs
/// a program loaded from a text file
pub open spec fn text_loaded(f: Seq<char>, e: EncodeMode, p: Program) -> bool {
    from_text(f, e, p.header, p.metadata, p.body, p.checksum, p.display_mode, p.model)
}
pub proof fn lemma_text_wf(f: Seq<char>, e: EncodeMode, p: Program)
    requires text_loaded(f, e, p)
    ensures prog_wf(p)
{ lemma_sig_len(p.model.model); }
/// serde: what matching derived (or contracted) code writes, it reads back
pub broadcast axiom fn ax_json(p: Program)
    requires crate::vx_env::json_symmetric()
    ensures json_parse::<Program>(#[trigger] p.jv()) == Some(p);
/// the texts that load_from_json accepts
pub open spec fn json_ok(f: Seq<char>) -> bool { json_parse::<Program>(f) is Some && prog_wf(json_parse::<Program>(f).unwrap()) }
}
