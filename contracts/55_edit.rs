// Editing commands: what they leave on disk.
use vstd::prelude::*;
use crate::vx::*;
use crate::spec::*;
use crate::calculator::DisplayMode;
use crate::calculator::program::*;
verus! {
broadcast use crate::vx::group_vx;

/// where an edit is saved
pub open spec fn target_of(input: PathV, new: Option<String>) -> PathV {
    match new { Some(s) => path_of(s@), None => input }
}
/// the files after an edited program was saved: the target holds the program; the input is gone, when that was
/// asked for, another file was named, and it really is another file (it may stay when the system cannot tell);
/// nothing else has changed
pub open spec fn edit_saved(f0: Map<FileId, Seq<u8>>, f1: Map<FileId, Seq<u8>>, input: PathV, new: Option<String>, del: bool, p: Program) -> bool {
    let t = target_of(input, new);
    let files = f0.insert(file_at(t), saved_bytes(p, kind_of(t).unwrap()));
    let other = new is Some && file_at(input) != file_at(t);
    &&& kind_of(t) is Some
    &&& (f1 == files && !(del && other && !unresolvable(input) && !unresolvable(t))) || (del && other && f1 == files.remove(file_at(input)))
}
/// an existing file was replaced only after a yes, and nothing else about the world changed
pub open spec fn edit_asked(w0: WV, w1: WV, t: PathV) -> bool {
    &&& w0.fs.contains_key(file_at(t)) ==> said_yes(w1)
    &&& w1.dirs == w0.dirs && w1.outdir == w0.outdir
}
pub open spec fn same_files(a: Map<FileId, Seq<u8>>, b: Map<FileId, Seq<u8>>) -> bool { a == b }
pub open spec fn edit_loaded(f0: Map<FileId, Seq<u8>>, input: PathV, p: Program) -> bool {
    &&& f0.contains_key(file_at(input)) && kind_of(input) is Some
    &&& loaded(f0[file_at(input)], kind_of(input).unwrap(), DisplayMode::Accessible, p)
}
/// an edit: some program p0 was loaded from the input, p1 = p0 with the change was saved
pub open spec fn edited(w0: WV, w1: WV, input: PathV, new: Option<String>, del: bool, change: spec_fn(Program, Program) -> bool) -> bool {
    &&& edit_asked(w0, w1, target_of(input, new))
    &&& w1.pending == w0.pending
    &&& exists|p0: Program, p1: Program| #![trigger edit_loaded(w0.fs, input, p0), edit_saved(w0.fs, w1.fs, input, new, del, p1)]
            edit_loaded(w0.fs, input, p0) && edit_saved(w0.fs, w1.fs, input, new, del, p1) && change(p0, p1)
}
pub open spec fn a_rename(name: Seq<char>) -> spec_fn(Program, Program) -> bool {
    |p0: Program, p1: Program| renamed(p0.metadata, name, p1.metadata) && p1 == (Program { metadata: p1.metadata, ..p0 })
}
pub open spec fn a_comment(text: Seq<char>) -> spec_fn(Program, Program) -> bool {
    |p0: Program, p1: Program| commented(p0.header, text, p1.header) && p1 == (Program { header: p1.header, ..p0 })
}
pub open spec fn a_type(t: FileType) -> spec_fn(Program, Program) -> bool {
    |p0: Program, p1: Program| with_type(p0.metadata, t, p1.metadata) && p1 == (Program { metadata: p1.metadata, ..p0 })
}
pub open spec fn a_dest(d: Destination) -> spec_fn(Program, Program) -> bool {
    |p0: Program, p1: Program| with_dest(p0.metadata, d, p1.metadata) && p1 == (Program { metadata: p1.metadata, ..p0 })
}
pub open spec fn a_lock() -> spec_fn(Program, Program) -> bool { a_type(FileType::LockedProgram) }
pub open spec fn an_unlock() -> spec_fn(Program, Program) -> bool { a_type(FileType::Program) }
pub open spec fn an_archive() -> spec_fn(Program, Program) -> bool { a_dest(Destination::Archive) }
pub open spec fn an_unarchive() -> spec_fn(Program, Program) -> bool { a_dest(Destination::RAM) }
}
