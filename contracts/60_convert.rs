// Converting: what is loaded, what is written, and where.
use vstd::prelude::*;
use crate::vx::*;
use crate::spec::*;
use crate::calculator::{DisplayMode, EncodeMode};
use crate::calculator::program::*;
verus! {
broadcast use crate::vx::group_vx;

/// the program the input stands for
pub open spec fn convert_loaded(f0: Map<FileId, Seq<u8>>, input: PathV, k: ProgramFileType, dm: DisplayMode, em: EncodeMode, p: Program) -> bool {
    &&& f0.contains_key(file_at(input)) && kind_of(input) == Some(k) && prog_wf(p)
    &&& match k {
            ProgramFileType::TXT => text_loaded(file_text_of(f0[file_at(input)]), em, p),
            ProgramFileType::JSON => json_parse::<Program>(file_text_of(f0[file_at(input)])) == Some(p),
            _ => loaded(f0[file_at(input)], k, dm, p),
        }
}
/// one file was converted: the output holds the program the input stands for, and nothing else changed
pub open spec fn converted(w0: WV, w1: WV, input: PathV, output: Option<String>, ds: Seq<char>, es: Seq<char>, content: bool, preview: bool) -> bool {
    &&& exists|k: ProgramFileType, dm: DisplayMode, em: EncodeMode, p: Program| #[trigger] convert_loaded(w0.fs, input, k, dm, em, p)
            && dmode_of(ds) == Some(dm) && emode_of(es) == Some(em) && convert_saved(w0.fs, w1.fs, output, p) && (content_shown(k, content, preview) ==> reports(w1.out, p) && shows(w1.out, p.body.translation@))
            && (bytes_shown(k, content, preview) ==> shows(w1.out, dump(all_bytes(p))))
    &&& output is Some && w0.fs.contains_key(file_at(path_of(output.unwrap()@))) ==> said_yes(w1)
}
pub open spec fn convert_saved(f0: Map<FileId, Seq<u8>>, f1: Map<FileId, Seq<u8>>, output: Option<String>, p: Program) -> bool {
    match output {
        Some(o) => kind_of(path_of(o@)) is Some && f1 == f0.insert(file_at(path_of(o@)), saved_bytes(p, kind_of(path_of(o@)).unwrap())),
        None => f1 == f0,
    }
}
/// every byte of a program's calculator file
pub open spec fn all_bytes(p: Program) -> Seq<u8> { p.header.bytes@ + p.metadata.bytes@ + p.body.bytes@ + p.checksum.bytes@ }
/// bytes in hexadecimal, sixteen on a line
#[verifier::opaque]
pub open spec fn dump(b: Seq<u8>) -> Seq<char>
    decreases b.len()
{
    if b.len() == 0 { Seq::empty() }
    else { dump(b.drop_last()) + hex2(b.last()) + (if b.len() % 16 == 0 { "\n"@ } else { ", "@ }) }
}
pub proof fn lemma_dump(all: Seq<u8>, i: int)
    requires 0 <= i < all.len()
    ensures dump(all.take(i + 1)) == dump(all.take(i)) + hex2(all[i]) + (if (i + 1) % 16 == 0 { "\n"@ } else { ", "@ }), dump(all.take(0)) == Seq::<char>::empty(),
{
    reveal(dump);
    assert(all.take(i + 1).drop_last() =~= all.take(i));
}
/// the options ask for the bytes
pub open spec fn bytes_shown(k: ProgramFileType, content: bool, preview: bool) -> bool { if k is XP || k is XPTwo || k is XPThree { content } else { preview } }
/// the options ask for the text of a program read from this kind of file
pub open spec fn content_shown(k: ProgramFileType, content: bool, preview: bool) -> bool { if k is TXT { content } else { preview } }
/// C19: only files directly in directory d differ
#[verifier::opaque]
pub open spec fn only_in(f0: Map<FileId, Seq<u8>>, f1: Map<FileId, Seq<u8>>, d: PathV) -> bool {
    forall|f: FileId| #![trigger f1.contains_key(f)] (f0.contains_key(f) != f1.contains_key(f) || (f1.contains_key(f) && f0[f] != f1[f]))
        ==> exists|p: PathV| #[trigger] direct_child(d, p) && file_at(p) == f
}
pub proof fn lemma_only_none(f: Map<FileId, Seq<u8>>, d: PathV)
    ensures only_in(f, f, d)
{ reveal(only_in); }
/// writing one more file in the directory
pub broadcast proof fn lemma_only_one(f0: Map<FileId, Seq<u8>>, f1: Map<FileId, Seq<u8>>, f2: Map<FileId, Seq<u8>>, d: PathV, p: PathV)
    requires #[trigger] only_in(f0, f1, d), direct_child(d, p), #[trigger] f2.remove(file_at(p)) == f1.remove(file_at(p))
    ensures only_in(f0, f2, d)
{
    reveal(only_in);
    let x = file_at(p);
    assert forall|f: FileId| #![trigger f2.contains_key(f)] (f0.contains_key(f) != f2.contains_key(f) || (f2.contains_key(f) && f0[f] != f2[f]))
        implies exists|q: PathV| #[trigger] direct_child(d, q) && file_at(q) == f by {
        if f == x { assert(direct_child(d, p)); }
        else {
            assert(f2.remove(x).contains_key(f) == f2.contains_key(f));
            assert(f1.remove(x).contains_key(f) == f1.contains_key(f));
            if f1.contains_key(f) { assert(f2.remove(x)[f] == f2[f]); assert(f1.remove(x)[f] == f1[f]); }
        }
    }
}
/// what one attempt to save does to the files
pub open spec fn save_step(w0: WV, w1: WV, t: PathV, p: Program, ok: bool) -> bool {
    if ok {
        kind_of(t) is Some && w1.fs =~= w0.fs.insert(file_at(t), saved_bytes(p, kind_of(t).unwrap())) && w1.spoiled =~= w0.spoiled.remove(file_at(t))
    } else {
        w1.fs.remove(file_at(t)) =~= w0.fs.remove(file_at(t)) && ((w1.fs =~= w0.fs && w1.spoiled =~= w0.spoiled) || w1.spoiled =~= w0.spoiled.insert(file_at(t)))
    }
}
/// where mass conversion into directory d saves program p read from a file of kind k
pub open spec fn mass_target(d: PathV, k: ProgramFileType, p: Program, t: PathV) -> bool {
    ||| !(k is TXT) && t == with_ext_of(join_of(d, p.metadata.name@), "txt"@)
    ||| (k is TXT || k is JSON) && t == with_ext_of(join_of(d, p.metadata.name@), "8xp"@)
}
/// these bytes are what mass conversion makes of some program it read
#[verifier::opaque]
pub open spec fn mass_one(f0: Map<FileId, Seq<u8>>, d: PathV, ds: Seq<char>, es: Seq<char>, f: FileId, bytes: Seq<u8>) -> bool {
    exists|g: Map<FileId, Seq<u8>>, input: PathV, k: ProgramFileType, dm: DisplayMode, em: EncodeMode, p: Program, t: PathV|
        #[trigger] convert_loaded(g, input, k, dm, em, p) && #[trigger] mass_target(d, k, p, t)
        && only_in(f0, g, d) && dmode_of(ds) == Some(dm) && emode_of(es) == Some(em)
        && file_at(t) == f && kind_of(t) is Some && bytes == saved_bytes(p, kind_of(t).unwrap())
}
/// every file that changed holds a converted program, unless saving it failed
#[verifier::opaque]
pub open spec fn mass_done(f0: Map<FileId, Seq<u8>>, f1: Map<FileId, Seq<u8>>, spoiled: Set<FileId>, d: PathV, ds: Seq<char>, es: Seq<char>) -> bool {
    forall|f: FileId| #![trigger f1.contains_key(f)] (f0.contains_key(f) != f1.contains_key(f) || (f1.contains_key(f) && f0[f] != f1[f])) && !spoiled.contains(f)
        ==> f1.contains_key(f) && mass_one(f0, d, ds, es, f, f1[f])
}
pub proof fn lemma_mass_none(f: Map<FileId, Seq<u8>>, sp: Set<FileId>, d: PathV, ds: Seq<char>, es: Seq<char>)
    ensures mass_done(f, f, sp, d, ds, es)
{ reveal(mass_done); }
/// one more program saved
pub broadcast proof fn lemma_mass_saved(f0: Map<FileId, Seq<u8>>, d: PathV, ds: Seq<char>, es: Seq<char>, w1: WV, w2: WV, t: PathV, p: Program, f1: Map<FileId, Seq<u8>>, sp: Set<FileId>, g: Map<FileId, Seq<u8>>, input: PathV, k: ProgramFileType, dm: DisplayMode, em: EncodeMode)
    requires
        #[trigger] mass_done(f0, f1, sp, d, ds, es), #[trigger] save_step(w1, w2, t, p, true), #[trigger] convert_loaded(g, input, k, dm, em, p),
        f1 == w1.fs, sp == w1.spoiled, mass_target(d, k, p, t), only_in(f0, g, d), dmode_of(ds) == Some(dm), emode_of(es) == Some(em),
    ensures mass_done(f0, w2.fs, w2.spoiled, d, ds, es)
{
    reveal(mass_done);
    reveal(mass_one);
    assert forall|f: FileId| #![trigger w2.fs.contains_key(f)] (f0.contains_key(f) != w2.fs.contains_key(f) || (w2.fs.contains_key(f) && f0[f] != w2.fs[f])) && !w2.spoiled.contains(f)
        implies w2.fs.contains_key(f) && mass_one(f0, d, ds, es, f, w2.fs[f]) by {
        if f == file_at(t) {
            assert(convert_loaded(g, input, k, dm, em, p) && mass_target(d, k, p, t));
        } else {
            assert(w1.fs.contains_key(f) == w2.fs.contains_key(f) && (w1.fs.contains_key(f) ==> w1.fs[f] == w2.fs[f]));
        }
    }
}
/// one more save failed
pub broadcast proof fn lemma_mass_failed(f0: Map<FileId, Seq<u8>>, d: PathV, ds: Seq<char>, es: Seq<char>, w1: WV, w2: WV, t: PathV, p: Program, f1: Map<FileId, Seq<u8>>, sp: Set<FileId>)
    requires #[trigger] mass_done(f0, f1, sp, d, ds, es), #[trigger] save_step(w1, w2, t, p, false), f1 == w1.fs, sp == w1.spoiled,
    ensures mass_done(f0, w2.fs, w2.spoiled, d, ds, es)
{
    reveal(mass_done);
    let x = file_at(t);
    assert forall|f: FileId| #![trigger w2.fs.contains_key(f)] (f0.contains_key(f) != w2.fs.contains_key(f) || (w2.fs.contains_key(f) && f0[f] != w2.fs[f])) && !w2.spoiled.contains(f)
        implies w2.fs.contains_key(f) && mass_one(f0, d, ds, es, f, w2.fs[f]) by {
        if w2.fs != w1.fs {
            assert(f != x);
            assert(w2.fs.remove(x).contains_key(f) == w2.fs.contains_key(f));
            assert(w1.fs.remove(x).contains_key(f) == w1.fs.contains_key(f));
            if w1.fs.contains_key(f) { assert(w2.fs.remove(x)[f] == w2.fs[f]); assert(w1.fs.remove(x)[f] == w1.fs[f]); }
        }
    }
}
/// trusted: a list read from JSON has no more elements than the text has characters
pub broadcast axiom fn ax_json_size(f: Seq<char>)
    ensures match #[trigger] json_parse::<Program>(f) { Some(p) => p.checksum.bytes@.len() <= f.len(), None => true };
pub open spec fn small(p: Program) -> bool { p.checksum.bytes@.len() <= 0x4000_0000 }

// ------------------------------------------------------------------ what is shown
/// s is part of o
#[verifier::opaque]
pub open spec fn shows(o: Seq<char>, s: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| o == #[trigger] ((a + s) + b) }
pub broadcast proof fn lemma_shows_self(s: Seq<char>)
    ensures #[trigger] shows(s, s)
{
    reveal(shows);
    let e = Seq::<char>::empty();
    assert((e + s) + e =~= s);
}
pub broadcast proof fn lemma_shows_part(o: Seq<char>, t: Seq<char>, s: Seq<char>)
    requires shows(o, s) || shows(t, s)
    ensures #[trigger] shows(o + t, s)
{
    reveal(shows);
    if shows(o, s) {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| o == #[trigger] ((a + s) + b);
        assert((a + s) + (b + t) =~= o + t);
    } else {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| t == #[trigger] ((a + s) + b);
        assert(((o + a) + s) + b =~= o + t);
    }
}
/// o holds everything there is to report about a program
pub open spec fn reports(o: Seq<char>, p: Program) -> bool {
    &&& shows(o, p.metadata.name@) && shows(o, p.header.comment@)
    &&& shows(o, num_text(p.body.bytes@.len() as int)) && shows(o, num_text(p.header.bytes@.len() + p.metadata.bytes@.len() + p.body.bytes@.len() + 2int))
    &&& shows(o, model_name(p.model.model)) && shows(o, p.model.language@)
    &&& shows(o, dest_name(p.metadata.destination)) && shows(o, ftype_name(p.metadata.file_type))
}
/// o, line by line, with what each value is
pub open spec fn reports_lines(o: Seq<char>, p: Program) -> bool {
    &&& reports(o, p)
    &&& shows(o, "model: "@ + model_name(p.model.model)) && shows(o, "language: "@ + p.model.language@)
    &&& shows(o, "Destination: "@ + dest_name(p.metadata.destination)) && shows(o, "File Type: "@ + ftype_name(p.metadata.file_type))
}
/// the details of the program in a file
pub open spec fn details_shown(f: Map<FileId, Seq<u8>>, input: PathV, o: Seq<char>) -> bool {
    exists|p: Program| #[trigger] loaded(f[file_at(input)], kind_of(input).unwrap(), DisplayMode::Accessible, p) && reports_lines(o, p)
}
/// the message names what the error is about
pub open spec fn tells(e: crate::calculator::errors::TiToolsError, o: Seq<char>) -> bool {
    use crate::calculator::errors::TiToolsError::*;
    match e {
        FileRead(x) | FileWrite(x) | Json(x) | InvalidExtension(x) | TokenNotFound(x) | InvalidByteLength(x) | MissingProgramInfo(x)
            | FailedToFindFile(x) | FailedToDeleteFile(x) | Quit(x) | MassConversionInputNotDirectory(x) | MassConversionOutputNotDirectory(x)
            | FailedToReadDirectory(x) | FailedToSerializeJson(x) | FailedToReadFile(x) | FailedToDeserializeJson(x) => shows(o, x@),
        Match(x, y) | IncompatibleFileType(x, y) | FailedToWriteFile(x, y) => shows(o, x@) && shows(o, y@),
        MissingExtension | InvalidNameLength | InvalidNameCharacters | InvalidCommentLength => true,
    }
}
/// what was shown stays shown after a styled message
pub broadcast proof fn lemma_shows_printed(b: Seq<char>, m: Seq<char>, a: Seq<char>, s: Seq<char>)
    requires #[trigger] printed(b, m, a), shows(b, s)
    ensures #[trigger] shows(a, s)
{
    let r = choose|r: Seq<char>| #[trigger] shown(m, r) && starts(a, b + r) && a.len() > b.len();
    let n = (b + r).len() as int;
    assert(a =~= a.take(n) + a.skip(n));
    lemma_shows_part(b, r, s);
    lemma_shows_part(b + r, a.skip(n), s);
}
pub broadcast group group_shows { lemma_shows_self, lemma_shows_part, lemma_shows_printed }
}
