// The mathematical side: what each function of the tool is meant to compute.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use vstd::imap::IMap;
use crate::vx::*;
use crate::calculator::{DisplayMode, EncodeMode};
use crate::calculator::errors::TiToolsError;
use crate::calculator::models::{Model, ModelDetails};
use crate::calculator::program::*;
use crate::calculator::tokens::*;
pub use crate::tab::*;
pub use crate::enc::*;
pub use crate::txt::*;
pub use crate::show::*;
pub use crate::edit::*;
pub use crate::convert::*;
pub use crate::search::*;
pub use crate::cmdline::*;
verus! {
pub broadcast group group_all { crate::vx::group_vx, crate::tab::group_tab, crate::convert::group_shows }
impl VxJson for Program { uninterp spec fn jv(&self) -> Seq<char>; }

// ------------------------------------------------------------------ option values
pub open spec fn emode_name(m: EncodeMode) -> Seq<char> {
    match m { EncodeMode::Min => "min"@, EncodeMode::Max => "max"@, EncodeMode::Smart => "smart"@ }
}
pub open spec fn emode_of(s: Seq<char>) -> Option<EncodeMode> {
    if s == "min"@ { Some(EncodeMode::Min) } else if s == "max"@ { Some(EncodeMode::Max) }
    else if s == "smart"@ { Some(EncodeMode::Smart) } else { None }
}
pub open spec fn dmode_name(m: DisplayMode) -> Seq<char> {
    match m { DisplayMode::Pretty => "pretty"@, DisplayMode::Accessible => "accessible"@, DisplayMode::TiAscii => "ti"@ }
}
pub open spec fn dmode_of(s: Seq<char>) -> Option<DisplayMode> {
    if s == "pretty"@ { Some(DisplayMode::Pretty) } else if s == "accessible"@ { Some(DisplayMode::Accessible) }
    else if s == "ti"@ { Some(DisplayMode::TiAscii) } else { None }
}
pub open spec fn ftype_name(t: FileType) -> Seq<char> {
    match t { FileType::Program => "Program"@, FileType::LockedProgram => "Locked Program"@, FileType::Group => "Group"@,
        FileType::FlashApplication => "Flash Application"@ }
}
pub open spec fn ftype_of(s: Seq<char>) -> Option<FileType> {
    if s == "Program"@ { Some(FileType::Program) } else if s == "Locked Program"@ { Some(FileType::LockedProgram) }
    else if s == "Group"@ { Some(FileType::Group) } else if s == "Flash Application"@ { Some(FileType::FlashApplication) } else { None }
}
pub open spec fn ftype_byte(t: FileType) -> u8 {
    match t { FileType::Program => 5, FileType::LockedProgram => 6, FileType::Group => 0x17, FileType::FlashApplication => 0x24 }
}
pub open spec fn ftype_from(b: u8) -> Option<FileType> {
    if b == 5 { Some(FileType::Program) } else if b == 6 { Some(FileType::LockedProgram) }
    else if b == 0x17 { Some(FileType::Group) } else if b == 0x24 { Some(FileType::FlashApplication) } else { None }
}
pub open spec fn dest_name(t: Destination) -> Seq<char> { match t { Destination::RAM => "RAM"@, Destination::Archive => "Archive"@ } }
pub open spec fn dest_of(s: Seq<char>) -> Option<Destination> {
    if s == "RAM"@ { Some(Destination::RAM) } else if s == "Archive"@ { Some(Destination::Archive) } else { None }
}
pub open spec fn dest_byte(t: Destination) -> u8 { match t { Destination::RAM => 0, Destination::Archive => 0x80 } }
pub open spec fn dest_from(b: u8) -> Option<Destination> {
    if b == 0 { Some(Destination::RAM) } else if b == 0x80 { Some(Destination::Archive) } else { None }
}
/// the kind of file a path stands for, by its extension
pub open spec fn kind_of_ext(s: Seq<char>) -> Option<ProgramFileType> {
    if s == "8xp"@ { Some(ProgramFileType::XP) } else if s == "83p"@ { Some(ProgramFileType::XPThree) }
    else if s == "82p"@ { Some(ProgramFileType::XPTwo) } else if s == "txt"@ { Some(ProgramFileType::TXT) }
    else if s == "json"@ { Some(ProgramFileType::JSON) } else { None }
}
pub open spec fn kind_of(p: PathV) -> Option<ProgramFileType> {
    match ext_of(p) { Some(e) => match os_text(e) { Some(t) => kind_of_ext(t), None => None }, None => None }
}
pub open spec fn ok_is<T, E>(r: Result<T, E>, o: Option<T>) -> bool { match r { Ok(t) => o == Some(t), Err(_) => o is None } }

// ------------------------------------------------------------------ calculator models
pub open spec fn model_name(m: Model) -> Seq<char> {
    match m {
        Model::TI82 => "TI-82"@,
        Model::TI83 => "TI-83"@,
        Model::TI82ST => "TI-82ST"@,
        Model::TI82STFR => "TI-82ST.fr"@,
        Model::TI76FR => "TI-76.fr"@,
        Model::TI83Plus => "TI-83+"@,
        Model::TI83PlusSE => "TI-83+SE"@,
        Model::TI83PlusFR => "TI-83+.fr"@,
        Model::TI82Plus => "TI-82+"@,
        Model::TI84Plus => "TI-84+"@,
        Model::TI84PlusSE => "TI-84+SE"@,
        Model::TI83PlusFRUSB => "TI-83+.fr:USB"@,
        Model::TI84PFR => "TI-84P.fr"@,
        Model::TI84PlusPSE => "TI-84+PSE"@,
        Model::TI82A => "TI-82A"@,
        Model::TI84PlusT => "TI-84+T"@,
        Model::TI84PlusCSE => "TI-84+CSE"@,
        Model::TI84PlusCE => "TI-84+CE"@,
        Model::TI84PlusCET => "TI-84+CET"@,
        Model::TI83PCE => "TI-83PCE"@,
        Model::TI83PCEEP => "TI-83PCEEP"@,
        Model::TI84PlusCEPY => "TI-84+CEPY"@,
        Model::TI84PlusCETPE => "TI-84+CETPE"@,
        Model::TI82AEP => "TI-82AEP"@,
        Model::Latest => "latest"@,
    }
}
pub open spec fn model_from(s: Seq<char>) -> Model {
    if s == "TI-82"@ { Model::TI82 } else
    if s == "TI-83"@ { Model::TI83 } else
    if s == "TI-82ST"@ { Model::TI82ST } else
    if s == "TI-82ST.fr"@ { Model::TI82STFR } else
    if s == "TI-76.fr"@ { Model::TI76FR } else
    if s == "TI-83+"@ { Model::TI83Plus } else
    if s == "TI-83+SE"@ { Model::TI83PlusSE } else
    if s == "TI-83+.fr"@ { Model::TI83PlusFR } else
    if s == "TI-82+"@ { Model::TI82Plus } else
    if s == "TI-84+"@ { Model::TI84Plus } else
    if s == "TI-84+SE"@ { Model::TI84PlusSE } else
    if s == "TI-83+.fr:USB"@ { Model::TI83PlusFRUSB } else
    if s == "TI-84P.fr"@ { Model::TI84PFR } else
    if s == "TI-84+PSE"@ { Model::TI84PlusPSE } else
    if s == "TI-82A"@ { Model::TI82A } else
    if s == "TI-84+T"@ { Model::TI84PlusT } else
    if s == "TI-84+CSE"@ { Model::TI84PlusCSE } else
    if s == "TI-84+CE"@ { Model::TI84PlusCE } else
    if s == "TI-84+CET"@ { Model::TI84PlusCET } else
    if s == "TI-83PCE"@ { Model::TI83PCE } else
    if s == "TI-83PCEEP"@ { Model::TI83PCEEP } else
    if s == "TI-84+CEPY"@ { Model::TI84PlusCEPY } else
    if s == "TI-84+CETPE"@ { Model::TI84PlusCETPE } else
    if s == "TI-82AEP"@ { Model::TI82AEP } else
    if s == "latest"@ { Model::Latest } else
    { Model::Latest }
}
pub open spec fn model_sig(m: Model) -> Seq<char> {
    match m {
        Model::TI82 => "**TI82**"@,
        Model::TI83 | Model::TI82ST | Model::TI82STFR | Model::TI76FR => "**TI83**"@,
        _ => "**TI83F*"@,
    }
}
pub open spec fn model_id(m: Model) -> u8 {
    match m {
        Model::TI83Plus | Model::TI83PlusSE | Model::TI83PlusFR | Model::TI82Plus => 0x04,
        Model::TI84Plus | Model::TI84PlusSE | Model::TI83PlusFRUSB | Model::TI84PFR | Model::TI84PlusPSE => 0x0A,
        Model::TI82A => 0x0B,
        Model::TI84PlusCSE => 0x0F,
        Model::TI84PlusCE | Model::TI84PlusCET | Model::TI83PCE | Model::TI83PCEEP | Model::TI84PlusCEPY | Model::TI84PlusCETPE => 0x13,
        Model::TI84PlusT => 0x1B,
        _ => 0x00,
    }
}
pub open spec fn model_lang(m: Model) -> Seq<char> {
    match m {
        Model::TI82STFR | Model::TI76FR | Model::TI83PlusFR | Model::TI82Plus | Model::TI83PlusFRUSB | Model::TI84PFR | Model::TI82A | Model::TI83PCE | Model::TI83PCEEP | Model::TI82AEP => "fr"@,
        _ => "en"@,
    }
}

pub open spec fn model_rank(m: Model) -> u32 {
    match m {
        Model::TI82 => 10,
        Model::TI83 | Model::TI82ST | Model::TI82STFR | Model::TI76FR => 20,
        Model::TI83Plus | Model::TI83PlusSE | Model::TI83PlusFR | Model::TI82Plus => 30,
        Model::TI84Plus | Model::TI84PlusSE | Model::TI83PlusFRUSB | Model::TI84PFR | Model::TI84PlusPSE => 40,
        Model::TI82A | Model::TI84PlusT => 45,
        Model::TI84PlusCSE => 50,
        Model::TI84PlusCE | Model::TI84PlusCET | Model::TI83PCE | Model::TI83PCEEP | Model::TI84PlusCEPY | Model::TI84PlusCETPE | Model::TI82AEP => 60,
        Model::Latest => 9999999,
    }
}
pub proof fn lemma_model_name(m: Model)
    ensures model_from(model_name(m)) == m
{
    reveal_strlit("TI-82"); assert("TI-82"@.len() == 5); assert("TI-82"@[4] == '2');
    reveal_strlit("TI-83"); assert("TI-83"@.len() == 5); assert("TI-83"@[4] == '3');
    reveal_strlit("TI-82ST"); assert("TI-82ST"@.len() == 7); assert("TI-82ST"@[4] == '2');
    reveal_strlit("TI-82ST.fr"); assert("TI-82ST.fr"@.len() == 10); assert("TI-82ST.fr"@[4] == '2');
    reveal_strlit("TI-76.fr"); assert("TI-76.fr"@.len() == 8); assert("TI-76.fr"@[3] == '7');
    reveal_strlit("TI-83+"); assert("TI-83+"@.len() == 6); assert("TI-83+"@[0] == 'T'); assert("TI-83+"@[4] == '3');
    reveal_strlit("TI-83+SE"); assert("TI-83+SE"@.len() == 8); assert("TI-83+SE"@[3] == '8'); assert("TI-83+SE"@[4] == '3'); assert("TI-83+SE"@[5] == '+');
    reveal_strlit("TI-83+.fr"); assert("TI-83+.fr"@.len() == 9); assert("TI-83+.fr"@[4] == '3');
    reveal_strlit("TI-82+"); assert("TI-82+"@.len() == 6); assert("TI-82+"@[0] == 'T'); assert("TI-82+"@[4] == '2'); assert("TI-82+"@[5] == '+');
    reveal_strlit("TI-84+"); assert("TI-84+"@.len() == 6); assert("TI-84+"@[0] == 'T'); assert("TI-84+"@[4] == '4');
    reveal_strlit("TI-84+SE"); assert("TI-84+SE"@.len() == 8); assert("TI-84+SE"@[3] == '8'); assert("TI-84+SE"@[4] == '4'); assert("TI-84+SE"@[6] == 'S');
    reveal_strlit("TI-83+.fr:USB"); assert("TI-83+.fr:USB"@.len() == 13);
    reveal_strlit("TI-84P.fr"); assert("TI-84P.fr"@.len() == 9); assert("TI-84P.fr"@[4] == '4'); assert("TI-84P.fr"@[5] == 'P');
    reveal_strlit("TI-84+PSE"); assert("TI-84+PSE"@.len() == 9); assert("TI-84+PSE"@[4] == '4'); assert("TI-84+PSE"@[5] == '+'); assert("TI-84+PSE"@[6] == 'P');
    reveal_strlit("TI-82A"); assert("TI-82A"@.len() == 6); assert("TI-82A"@[0] == 'T'); assert("TI-82A"@[4] == '2'); assert("TI-82A"@[5] == 'A');
    reveal_strlit("TI-84+T"); assert("TI-84+T"@.len() == 7); assert("TI-84+T"@[4] == '4');
    reveal_strlit("TI-84+CSE"); assert("TI-84+CSE"@.len() == 9); assert("TI-84+CSE"@[4] == '4'); assert("TI-84+CSE"@[5] == '+'); assert("TI-84+CSE"@[6] == 'C'); assert("TI-84+CSE"@[7] == 'S');
    reveal_strlit("TI-84+CE"); assert("TI-84+CE"@.len() == 8); assert("TI-84+CE"@[3] == '8'); assert("TI-84+CE"@[4] == '4'); assert("TI-84+CE"@[6] == 'C');
    reveal_strlit("TI-84+CET"); assert("TI-84+CET"@.len() == 9); assert("TI-84+CET"@[4] == '4'); assert("TI-84+CET"@[5] == '+'); assert("TI-84+CET"@[6] == 'C'); assert("TI-84+CET"@[7] == 'E');
    reveal_strlit("TI-83PCE"); assert("TI-83PCE"@.len() == 8); assert("TI-83PCE"@[3] == '8'); assert("TI-83PCE"@[4] == '3'); assert("TI-83PCE"@[5] == 'P');
    reveal_strlit("TI-83PCEEP"); assert("TI-83PCEEP"@.len() == 10); assert("TI-83PCEEP"@[4] == '3');
    reveal_strlit("TI-84+CEPY"); assert("TI-84+CEPY"@.len() == 10); assert("TI-84+CEPY"@[4] == '4');
    reveal_strlit("TI-84+CETPE"); assert("TI-84+CETPE"@.len() == 11);
    reveal_strlit("TI-82AEP"); assert("TI-82AEP"@.len() == 8); assert("TI-82AEP"@[3] == '8'); assert("TI-82AEP"@[4] == '2');
    reveal_strlit("latest"); assert("latest"@.len() == 6); assert("latest"@[0] == 'l');
}
pub proof fn lemma_model_names_distinct(a: Model, b: Model)
    ensures model_name(a) == model_name(b) ==> a == b
{
    lemma_model_name(a);
    lemma_model_name(b);
}
/// the model a file header (product id and signature) stands for
pub open spec fn details_of(id: u8, sig: Seq<char>) -> Option<Model> {
    if id == 0 { if sig == "**TI83F*"@ { Some(Model::Latest) } else if sig == "**TI83**"@ { Some(Model::TI83) } else { Some(Model::TI82) } }
    else if id == 0x04 { Some(Model::TI83Plus) } else if id == 0x0A { Some(Model::TI84Plus) } else if id == 0x0B { Some(Model::TI82A) }
    else if id == 0x0F { Some(Model::TI84PlusCSE) } else if id == 0x13 { Some(Model::TI84PlusCE) } else if id == 0x1B { Some(Model::TI84PlusT) }
    else { None }
}
pub open spec fn details_ok(d: ModelDetails) -> bool {
    d.signature@ == model_sig(d.model) && d.product_id == model_id(d.model) && d.language@ == model_lang(d.model)
}
/// C15: reading back the header written for a model gives a model with that product id and signature
pub proof fn lemma_header_identity(m: Model)
    ensures details_of(model_id(m), model_sig(m)) is Some,
        model_id(details_of(model_id(m), model_sig(m)).unwrap()) == model_id(m),
        model_sig(details_of(model_id(m), model_sig(m)).unwrap()) == model_sig(m),
{
    reveal_strlit("**TI82**"); reveal_strlit("**TI83**"); reveal_strlit("**TI83F*");
}


// ------------------------------------------------------------------ programs and their file layouts
/// what every loader guarantees about the sections of a program
pub open spec fn prog_wf(p: Program) -> bool {
    p.header.bytes@.len() == 55 && p.metadata.bytes@.len() == 19 && p.body.bytes@.len() + 19 <= 65535
}
pub open spec fn byte_sum(s: Seq<u8>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { byte_sum(s.drop_last()) + s.last() as int } }
pub open spec fn checksum_of(meta: Seq<u8>, body: Seq<u8>) -> u16 { ((byte_sum(meta) + byte_sum(body)) % 65536) as u16 }
pub open spec fn zero_pad(s: Seq<u8>, n: int) -> Seq<u8> { s + Seq::new((n - s.len()) as nat, |i: int| 0u8) }
pub open spec fn nonzero(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { let r = nonzero(s.drop_last()); if s.last() != 0 { r.push(s.last()) } else { r } } }
pub open spec fn chars_of(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i] as char) }
/// metadata of 82p and 83p files
pub open spec fn short_meta(m: Seq<u8>, n: int) -> Seq<u8> {
    seq![0x0Bu8, 0x00u8] + le16((n + 2) as u16) + m.subrange(4, 13) + le16((n + 2) as u16) + le16(n as u16)
}
pub open spec fn calc_file(h: Seq<u8>, m: Seq<u8>, b: Seq<u8>) -> Seq<u8> {
    h.take(53) + le16((m.len() + b.len()) as u16) + m + b + le16(checksum_of(m, b))
}
pub open spec fn txt_file(p: Program) -> Seq<char> {
    p.metadata.name@ + "\n"@ + p.header.comment@ + "\n"@ + ftype_name(p.metadata.file_type) + "\n"@ + dest_name(p.metadata.destination) + "\n"@
        + dmode_name(p.display_mode) + "\n"@ + model_name(p.model.model) + "\n"@ + p.body.translation@
}
/// the content of the file a program is saved to
pub open spec fn saved_bytes(p: Program, k: ProgramFileType) -> Seq<u8> {
    match k {
        ProgramFileType::XP => calc_file(p.header.bytes@, p.metadata.bytes@, p.body.bytes@),
        ProgramFileType::XPTwo | ProgramFileType::XPThree =>
            calc_file(p.header.bytes@, short_meta(p.metadata.bytes@, p.body.bytes@.len() as int), p.body.bytes@),
        ProgramFileType::TXT => encode_utf8(txt_file(p)),
        ProgramFileType::JSON => encode_utf8(p.jv()),
    }
}

// ------------------------------------------------------------------ loading calculator files
pub open spec fn is_calc(k: ProgramFileType) -> bool { k is XP || k is XPTwo || k is XPThree }
pub open spec fn meta_len(k: ProgramFileType) -> int { if k is XPTwo || k is XPThree { 17 } else { 19 } }
pub open spec fn file_body(s: Seq<u8>, k: ProgramFileType) -> Seq<u8> { s.subrange(55 + meta_len(k), s.len() - 2) }
pub open spec fn file_model(s: Seq<u8>) -> Option<Model> { details_of(s[10], chars_of(s.take(8))) }
pub open spec fn file_text(s: Seq<u8>, k: ProgramFileType, mode: DisplayMode) -> Option<Seq<char>> {
    match file_model(s) { Some(m) => dec(table(m, "latest"@), "en"@, mode, file_body(s, k)), None => None }
}
/// exactly the files that can be loaded
pub open spec fn loadable(s: Seq<u8>, k: ProgramFileType, mode: DisplayMode) -> bool {
    &&& is_calc(k)
    &&& s.len() >= 57 + meta_len(k)
    &&& s.len() - 57 - meta_len(k) + 19 <= 65535
    &&& file_model(s) is Some
    &&& ftype_from(s[59]) is Some
    &&& (k is XP ==> dest_from(s[69]) is Some)
    &&& file_text(s, k, mode) is Some
}
/// the 19 byte metadata of a program read from the 17 byte form
pub open spec fn widened(s: Seq<u8>, n: int) -> Seq<u8> {
    seq![0x0Du8, 0x00u8] + le16((n + 2) as u16) + seq![s[59]] + s.subrange(60, 68) + seq![0x00u8, 0x00u8] + le16((n + 2) as u16) + le16(n as u16)
}
pub open spec fn header_is(s: Seq<u8>, h: Header) -> bool {
    &&& h.bytes@ =~= s.take(55)
    &&& h.signature@ =~= chars_of(s.take(8))
    &&& h.signature_extra@ =~= s.subrange(8, 10)
    &&& h.product_id == s[10]
    &&& h.comment@ =~= chars_of(nonzero(s.subrange(11, 53)))
    &&& h.metadata_and_body_length == from_le(s[53], s[54])
}
pub open spec fn metadata_is(s: Seq<u8>, k: ProgramFileType, m: Metadata) -> bool {
    let n = file_body(s, k).len() as int;
    &&& Some(m.file_type) == ftype_from(s[59])
    &&& m.name@ =~= chars_of(nonzero(s.subrange(60, 68)))
    &&& k is XP ==> m.bytes@ =~= s.subrange(55, 74) && m.flag == s[55] && m.unknown_byte == s[56] && m.body_and_checksum_length == from_le(s[57], s[58])
        && m.version == s[68] && Some(m.destination) == dest_from(s[69]) && m.body_and_checksum_length_copy == from_le(s[70], s[71]) && m.body_length == from_le(s[72], s[73])
    &&& !(k is XP) ==> m.bytes@ =~= widened(s, n) && m.flag == 0x0D && m.unknown_byte == 0 && m.body_and_checksum_length == (n + 2) as u16
        && m.version == 0 && m.destination is RAM && m.body_and_checksum_length_copy == (n + 2) as u16 && m.body_length == n as u16
}
pub open spec fn body_is(s: Seq<u8>, k: ProgramFileType, mode: DisplayMode, b: Body) -> bool {
    b.bytes@ =~= file_body(s, k) && Some(b.translation@) == file_text(s, k, mode)
}
pub open spec fn checksum_is(s: Seq<u8>, c: Checksum) -> bool {
    c.bytes@ =~= s.skip(s.len() - 2) && c.value == from_le(s[s.len() - 2], s[s.len() - 1])
}
pub open spec fn loaded(s: Seq<u8>, k: ProgramFileType, mode: DisplayMode, p: Program) -> bool {
    &&& loadable(s, k, mode)
    &&& header_is(s, p.header) && metadata_is(s, k, p.metadata) && body_is(s, k, mode, p.body) && checksum_is(s, p.checksum)
    &&& Some(p.model.model) == file_model(s) && details_ok(p.model)
    &&& p.display_mode == mode
}
/// reading bytes as characters
pub broadcast proof fn lemma_chars(q: Seq<char>, r: String, b: Seq<u8>)
    requires #[trigger] <String as VxFrom<char>>::from_ok(q, r), q.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] q[i] == b[i] as char
    ensures r@ == #[trigger] chars_of(b)
{ assert(r@ =~= chars_of(b)); }
/// keeping the bytes that are not zero
pub broadcast proof fn lemma_nonzero(r: Seq<&u8>, g: spec_fn(&u8) -> bool, s: Seq<u8>)
    requires #[trigger] is_refs(r, s), forall|i: int| 0 <= i < r.len() ==> g(#[trigger] r[i]) == (*r[i] != 0)
    ensures is_refs(#[trigger] filt(r, g), nonzero(s))
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies *(#[trigger] r.drop_last()[i]) == s.drop_last()[i] by { assert(*r[i] == s[i]); }
        assert(is_refs(r.drop_last(), s.drop_last()));
        assert forall|i: int| 0 <= i < r.drop_last().len() implies g(#[trigger] r.drop_last()[i]) == (*r.drop_last()[i] != 0) by { assert(r.drop_last()[i] == r[i]); }
        lemma_nonzero(r.drop_last(), g, s.drop_last());
        assert(*r[r.len() - 1] == s[s.len() - 1]);
        assert(g(r[r.len() - 1]) == (s.last() != 0));
    }
}

// ------------------------------------------------------------------ the edits
pub open spec fn valid_name(s: Seq<char>) -> bool { blen(s) <= 8 && all_alpha(s) }
pub open spec fn renamed(a: Metadata, n: Seq<char>, b: Metadata) -> bool {
    &&& b.bytes@ =~= a.bytes@.take(5) + zero_pad(encode_utf8(upper(n)), 8) + a.bytes@.skip(13)
    &&& b.name@ == upper(n)
    &&& b == (Metadata { bytes: b.bytes, name: b.name, ..a })
}
pub open spec fn commented(a: Header, c: Seq<char>, b: Header) -> bool {
    &&& b.bytes@ =~= a.bytes@.take(11) + zero_pad(encode_utf8(c), 42) + a.bytes@.skip(53)
    &&& b.comment@ == c
    &&& b == (Header { bytes: b.bytes, comment: b.comment, ..a })
}
pub open spec fn with_type(a: Metadata, t: FileType, b: Metadata) -> bool {
    b.bytes@ == a.bytes@.update(4, ftype_byte(t)) && b == (Metadata { bytes: b.bytes, file_type: t, ..a })
}
pub open spec fn with_dest(a: Metadata, t: Destination, b: Metadata) -> bool {
    b.bytes@ == a.bytes@.update(14, dest_byte(t)) && b == (Metadata { bytes: b.bytes, destination: t, ..a })
}

// ------------------------------------------------------------------ lemmas
pub proof fn lemma_sum_step(s: Seq<u8>, i: int)
    requires 0 < i <= s.len()
    ensures byte_sum(s.take(i)) == byte_sum(s.take(i - 1)) + s[i - 1] as int, byte_sum(s.take(i - 1)) >= 0
    decreases i
{
    assert(s.take(i).drop_last() =~= s.take(i - 1));
    if i > 1 { lemma_sum_step(s, i - 1); }
}
/// letters take one byte each
pub proof fn lemma_ascii_len(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 127
    ensures encode_utf8(s).len() == s.len()
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_first().len() implies (#[trigger] s.drop_first()[i]) as u32 <= 127 by { assert(s.drop_first()[i] == s[i + 1]); }
        lemma_ascii_len(s.drop_first());
        assert(s[0] as u32 <= 127);
        assert(encode_scalar(s[0] as u32).len() == 1);
    }
}
pub proof fn lemma_name_len(s: Seq<char>)
    requires all_alpha(s)
    ensures encode_utf8(s).len() == s.len(), encode_utf8(upper(s)).len() == s.len(), all_alpha(upper(s))
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] upper(s)[i]) as u32 <= 127 && is_alpha(upper(s)[i]) by { assert(is_alpha(s[i])); }
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) as u32 <= 127 by { assert(is_alpha(s[i])); }
    lemma_ascii_len(s);
    lemma_ascii_len(upper(s));
}
impl PartialEqSpecImpl for Model {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Model) -> bool { *self == *o }
}
}
