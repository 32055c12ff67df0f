// What the contracts of the single functions add up to.
use vstd::prelude::*;
use crate::vx::*;
use crate::spec::*;
use crate::calculator::{DisplayMode, EncodeMode};
use crate::calculator::models::*;
use crate::calculator::program::*;
use crate::calculator::tokens::*;
use vstd::imap::IMap;
use core::cmp::Ordering;
verus! {
broadcast use crate::vx::group_vx;

// ------------------------------------------------------------------ sums
pub proof fn lemma_sum_add(a: Seq<u8>, b: Seq<u8>)
    ensures byte_sum(a + b) == byte_sum(a) + byte_sum(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_sum_add(a, b.drop_last());
    }
}
pub proof fn lemma_le16(n: u16)
    ensures le16(n).len() == 2, from_le(le16(n)[0], le16(n)[1]) == n
{
    assert(n == 256 * (n / 256) + n % 256) by (nonlinear_arith);
}
pub proof fn lemma_from_le(a: u8, b: u8)
    ensures le16(from_le(a, b) as u16) =~= seq![a, b], 0 <= from_le(a, b) <= 65535
{
    let n = from_le(a, b) as u16;
    assert(n % 256 == a && n / 256 == b) by (nonlinear_arith) requires n == a + 256 * b, 0 <= a < 256, 0 <= b < 256;
}

// ------------------------------------------------------------------ C06
/// lengths and checksum of a calculator file agree with its content
pub open spec fn consistent(f: Seq<u8>) -> bool {
    &&& f.len() >= 57
    &&& from_le(f[53], f[54]) == f.len() - 57
    &&& from_le(f[f.len() - 2], f[f.len() - 1]) == byte_sum(f.subrange(55, f.len() - 2)) % 65536
}
pub proof fn lemma_calc_file(h: Seq<u8>, m: Seq<u8>, b: Seq<u8>)
    requires h.len() == 55, m.len() + b.len() <= 65535
    ensures consistent(calc_file(h, m, b)), calc_file(h, m, b).len() == 57 + m.len() + b.len(),
        calc_file(h, m, b).take(53) =~= h.take(53),
        calc_file(h, m, b).subrange(55, 55 + m.len() as int) =~= m,
        calc_file(h, m, b).subrange(55 + m.len() as int, calc_file(h, m, b).len() - 2) =~= b,
{
    let f = calc_file(h, m, b);
    lemma_le16((m.len() + b.len()) as u16);
    lemma_le16(checksum_of(m, b));
    assert(f.subrange(55, f.len() - 2) =~= m + b);
    lemma_sum_add(m, b);
    lemma_sum_bound(m); lemma_sum_bound(b);
}
pub proof fn lemma_short_meta(m: Seq<u8>, n: int)
    requires m.len() == 19, 0 <= n, n + 2 <= 65535
    ensures short_meta(m, n).len() == 17, short_meta(m, n)[0] == 0x0B, short_meta(m, n)[1] == 0,
        from_le(short_meta(m, n)[2], short_meta(m, n)[3]) == n + 2, short_meta(m, n).subrange(4, 13) =~= m.subrange(4, 13),
        from_le(short_meta(m, n)[13], short_meta(m, n)[14]) == n + 2, from_le(short_meta(m, n)[15], short_meta(m, n)[16]) == n,
{
    lemma_le16((n + 2) as u16);
    lemma_le16(n as u16);
}
pub proof fn lemma_widened(s: Seq<u8>, n: int)
    requires s.len() >= 74, 0 <= n, n + 2 <= 65535
    ensures widened(s, n).len() == 19, widened(s, n)[0] == 0x0D, widened(s, n)[1] == 0,
        from_le(widened(s, n)[2], widened(s, n)[3]) == n + 2, widened(s, n).subrange(4, 13) =~= s.subrange(59, 68),
        widened(s, n)[13] == 0, widened(s, n)[14] == 0,
        from_le(widened(s, n)[15], widened(s, n)[16]) == n + 2, from_le(widened(s, n)[17], widened(s, n)[18]) == n,
{
    lemma_le16((n + 2) as u16);
    lemma_le16(n as u16);
}
/// where the metadata is in the file
pub proof fn lemma_meta_at(f: Seq<u8>, m: Seq<u8>, j: int)
    requires 0 <= j < m.len(), f.len() >= 55 + m.len(), f.subrange(55, 55 + m.len() as int) == m
    ensures f[55 + j] == m[j]
{ assert(f.subrange(55, 55 + m.len() as int)[j] == f[55 + j]); }
/// every calculator file the tool saves
pub proof fn thm_c06_saved_is_consistent(p: Program, k: ProgramFileType)
    requires prog_wf(p), is_calc(k)
    ensures consistent(saved_bytes(p, k)), saved_bytes(p, k).len() == 57 + meta_len(k) + p.body.bytes@.len()
{
    hide(calc_file);
    hide(consistent);
    let n = p.body.bytes@.len() as int;
    lemma_short_meta(p.metadata.bytes@, n);
    if k is XP { lemma_calc_file(p.header.bytes@, p.metadata.bytes@, p.body.bytes@); }
    else { lemma_calc_file(p.header.bytes@, short_meta(p.metadata.bytes@, n), p.body.bytes@); }
}
/// one edit of a program
pub ghost enum Step { Name(Seq<char>), Text(Seq<char>), Type(FileType), Dest(Destination) }
pub open spec fn stepped(p: Program, s: Step, q: Program) -> bool {
    match s {
        Step::Name(n) => valid_name(n) && a_rename(n)(p, q),
        Step::Text(c) => blen(c) <= 42 && a_comment(c)(p, q),
        Step::Type(t) => a_type(t)(p, q),
        Step::Dest(d) => a_dest(d)(p, q),
    }
}
/// any sequence of edits
pub open spec fn history(p: Program, s: Seq<Step>, q: Program) -> bool
    decreases s.len()
{
    if s.len() == 0 { q == p } else { exists|m: Program| history(p, s.drop_last(), m) && #[trigger] stepped(m, s.last(), q) }
}
pub proof fn lemma_step_wf(p: Program, s: Step, q: Program)
    requires prog_wf(p), stepped(p, s, q)
    ensures prog_wf(q), q.body == p.body
{
    match s {
        Step::Name(n) => { lemma_name_len(n); },
        _ => {},
    }
}
pub proof fn thm_c06_after_any_history(p: Program, s: Seq<Step>, q: Program, k: ProgramFileType)
    requires prog_wf(p), history(p, s, q), is_calc(k)
    ensures prog_wf(q), q.body == p.body, consistent(saved_bytes(q, k))
    decreases s.len()
{
    if s.len() > 0 {
        let m = choose|m: Program| history(p, s.drop_last(), m) && #[trigger] stepped(m, s.last(), q);
        thm_c06_after_any_history(p, s.drop_last(), m, k);
        lemma_step_wf(m, s.last(), q);
    }
    thm_c06_saved_is_consistent(q, k);
}

// ------------------------------------------------------------------ C07
pub proof fn thm_c07_saved_unchanged(s: Seq<u8>, mode: DisplayMode, p: Program)
    requires loaded(s, ProgramFileType::XP, mode, p), consistent(s)
    ensures saved_bytes(p, ProgramFileType::XP) =~= s
{
    let n = s.len() as int;
    let (m, b) = (p.metadata.bytes@, p.body.bytes@);
    assert(m =~= s.subrange(55, 74));
    assert(b =~= s.subrange(74, n - 2));
    assert(s.subrange(55, n - 2) =~= m + b);
    lemma_sum_add(m, b);
    lemma_from_le(s[53], s[54]);
    lemma_from_le(s[n - 2], s[n - 1]);
    assert(le16((m.len() + b.len()) as u16) =~= seq![s[53], s[54]]);
    lemma_sum_bound(m); lemma_sum_bound(b);
    assert(checksum_of(m, b) == from_le(s[n - 2], s[n - 1]));
    assert(le16(checksum_of(m, b)) =~= seq![s[n - 2], s[n - 1]]);
    assert(p.header.bytes@.take(53) =~= s.take(53));
    assert(saved_bytes(p, ProgramFileType::XP) =~= s);
}

// ------------------------------------------------------------------ C13
/// the fixed parts of a well-formed 82p or 83p file
pub open spec fn short_ok(s: Seq<u8>) -> bool {
    let n = s.len() - 74;
    &&& s.len() >= 74 && n + 2 <= 65535
    &&& consistent(s)
    &&& s[55] == 0x0B && s[56] == 0
    &&& from_le(s[57], s[58]) == n + 2 && from_le(s[68], s[69]) == n + 2 && from_le(s[70], s[71]) == n
}
pub proof fn thm_c13_survives(s: Seq<u8>, k: ProgramFileType, mode: DisplayMode, p: Program)
    requires k is XPTwo || k is XPThree, loaded(s, k, mode, p), short_ok(s)
    ensures saved_bytes(p, k) =~= s
{
    let n = s.len() - 74;
    let (m, b) = (p.metadata.bytes@, p.body.bytes@);
    assert(b =~= s.subrange(72, s.len() - 2));
    lemma_le16((n + 2) as u16);
    assert(m =~= widened(s, n));
    assert(m.subrange(4, 13) =~= s.subrange(59, 68));
    lemma_from_le(s[57], s[58]); lemma_from_le(s[68], s[69]); lemma_from_le(s[70], s[71]);
    let sm = short_meta(m, n);
    assert(sm =~= s.subrange(55, 72));
    lemma_from_le(s[53], s[54]);
    lemma_from_le(s[s.len() - 2], s[s.len() - 1]);
    assert(s.subrange(55, s.len() - 2) =~= sm + b);
    lemma_sum_add(sm, b); lemma_sum_bound(sm); lemma_sum_bound(b);
    assert(le16(checksum_of(sm, b)) =~= seq![s[s.len() - 2], s[s.len() - 1]]);
    assert(p.header.bytes@.take(53) =~= s.take(53));
    assert(saved_bytes(p, k) =~= s);
}
/// the 8xp file saved from an 82p or 83p file is well-formed: 19 bytes of metadata, right lengths, same name, type and body
pub open spec fn long_ok(f: Seq<u8>, n: int) -> bool {
    &&& f.len() == 76 + n && consistent(f)
    &&& f[55] == 0x0D && f[56] == 0
    &&& from_le(f[57], f[58]) == n + 2 && from_le(f[70], f[71]) == n + 2 && from_le(f[72], f[73]) == n
}
pub proof fn thm_c13_as_8xp(s: Seq<u8>, k: ProgramFileType, mode: DisplayMode, p: Program)
    requires k is XPTwo || k is XPThree, loaded(s, k, mode, p), s.len() - 74 + 19 <= 65535
    ensures ({
        let f = saved_bytes(p, ProgramFileType::XP);
        &&& long_ok(f, s.len() - 74)
        &&& f.subrange(59, 68) =~= s.subrange(59, 68)
        &&& f[68] == 0 && f[69] == 0
        &&& f.subrange(74, f.len() - 2) =~= s.subrange(72, s.len() - 2)
        &&& f.take(53) =~= s.take(53)
    })
{
    hide(calc_file);
    hide(widened);
    let n = s.len() - 74;
    let f = saved_bytes(p, ProgramFileType::XP);
    let (m, b) = (p.metadata.bytes@, p.body.bytes@);
    assert(m =~= widened(s, n));
    lemma_widened(s, n);
    lemma_calc_file(p.header.bytes@, m, b);
    assert(b =~= s.subrange(72, s.len() - 2));
    assert(f.subrange(55, 55 + m.len() as int) == m);
    lemma_meta_at(f, m, 0); lemma_meta_at(f, m, 1); lemma_meta_at(f, m, 2); lemma_meta_at(f, m, 3); lemma_meta_at(f, m, 13); lemma_meta_at(f, m, 14);
    lemma_meta_at(f, m, 15); lemma_meta_at(f, m, 16); lemma_meta_at(f, m, 17); lemma_meta_at(f, m, 18);
    assert forall|i: int| 0 <= i < 9 implies #[trigger] f[59 + i] == s[59 + i] by {
        lemma_meta_at(f, m, 4 + i);
        assert(m.subrange(4, 13)[i] == s.subrange(59, 68)[i]);
    }
    assert(f.subrange(59, 68) =~= s.subrange(59, 68));
    assert(f.subrange(74, f.len() - 2) =~= b);
    assert(f.take(53) =~= s.take(55).take(53));
    assert(s.take(55).take(53) =~= s.take(53));
}
/// saving any program as 82p or 83p
pub proof fn thm_c13_short_form(p: Program, k: ProgramFileType)
    requires prog_wf(p), k is XPTwo || k is XPThree
    ensures ({
        let f = saved_bytes(p, k);
        let n = p.body.bytes@.len() as int;
        &&& short_ok(f) && f.len() == 74 + n
        &&& f.subrange(59, 68) =~= p.metadata.bytes@.subrange(4, 13)
        &&& f.subrange(72, f.len() - 2) =~= p.body.bytes@
    })
{
    hide(calc_file);
    hide(short_meta);
    let n = p.body.bytes@.len() as int;
    let f = saved_bytes(p, k);
    let m = short_meta(p.metadata.bytes@, n);
    lemma_short_meta(p.metadata.bytes@, n);
    lemma_calc_file(p.header.bytes@, m, p.body.bytes@);
    assert(f.subrange(55, 55 + m.len() as int) == m);
    lemma_meta_at(f, m, 0); lemma_meta_at(f, m, 1); lemma_meta_at(f, m, 2); lemma_meta_at(f, m, 3); lemma_meta_at(f, m, 13); lemma_meta_at(f, m, 14);
    lemma_meta_at(f, m, 15); lemma_meta_at(f, m, 16);
    assert forall|i: int| 0 <= i < 9 implies #[trigger] f[59 + i] == p.metadata.bytes@[4 + i] by {
        lemma_meta_at(f, m, 4 + i);
        assert(m.subrange(4, 13)[i] == p.metadata.bytes@.subrange(4, 13)[i]);
    }
    assert(f.subrange(59, 68) =~= p.metadata.bytes@.subrange(4, 13));
    assert(f.subrange(72, f.len() - 2) =~= p.body.bytes@);
}

// ------------------------------------------------------------------ C10
pub ghost enum Flag { Type(FileType), Dest(Destination) }
pub open spec fn flagged(a: Metadata, s: Flag, b: Metadata) -> bool {
    match s { Flag::Type(t) => with_type(a, t, b), Flag::Dest(d) => with_dest(a, d, b) }
}
pub open spec fn flags(a: Metadata, s: Seq<Flag>, b: Metadata) -> bool
    decreases s.len()
{
    if s.len() == 0 { a == b } else { exists|m: Metadata| flags(a, s.drop_last(), m) && #[trigger] flagged(m, s.last(), b) }
}
/// the last lock or unlock of a sequence
pub open spec fn last_type(s: Seq<Flag>) -> Option<FileType>
    decreases s.len()
{ if s.len() == 0 { None } else { match s.last() { Flag::Type(t) => Some(t), _ => last_type(s.drop_last()) } } }
pub open spec fn last_dest(s: Seq<Flag>) -> Option<Destination>
    decreases s.len()
{ if s.len() == 0 { None } else { match s.last() { Flag::Dest(t) => Some(t), _ => last_dest(s.drop_last()) } } }
pub open spec fn set_type(b: Seq<u8>, t: Option<FileType>) -> Seq<u8> { match t { Some(t) => b.update(4, ftype_byte(t)), None => b } }
pub open spec fn set_dest(b: Seq<u8>, t: Option<Destination>) -> Seq<u8> { match t { Some(t) => b.update(14, dest_byte(t)), None => b } }
pub open spec fn or_type(o: Option<FileType>, d: FileType) -> FileType { match o { Some(x) => x, None => d } }
pub open spec fn or_dest(o: Option<Destination>, d: Destination) -> Destination { match o { Some(x) => x, None => d } }
/// whatever the sequence, only the last of each pair counts and nothing else changes
pub proof fn thm_c10_last_wins(a: Metadata, s: Seq<Flag>, b: Metadata)
    requires a.bytes@.len() == 19, flags(a, s, b)
    ensures b.bytes@ =~= set_dest(set_type(a.bytes@, last_type(s)), last_dest(s)),
        b.file_type == or_type(last_type(s), a.file_type), b.destination == or_dest(last_dest(s), a.destination),
        b == (Metadata { bytes: b.bytes, file_type: b.file_type, destination: b.destination, ..a }),
    decreases s.len()
{
    if s.len() > 0 {
        let m = choose|m: Metadata| flags(a, s.drop_last(), m) && #[trigger] flagged(m, s.last(), b);
        thm_c10_last_wins(a, s.drop_last(), m);
    }
}
pub proof fn thm_c10_commute_and_idempotent(a: Metadata, s: Seq<Flag>, b: Metadata, t: Seq<Flag>, c: Metadata)
    requires a.bytes@.len() == 19, flags(a, s, b), flags(a, t, c), last_type(s) == last_type(t), last_dest(s) == last_dest(t)
    ensures b == c
{
    thm_c10_last_wins(a, s, b);
    thm_c10_last_wins(a, t, c);
    assert(b.bytes@ =~= c.bytes@);
    assert(vec_with(b.bytes@) == b.bytes && vec_with(c.bytes@) == c.bytes);
}

// ------------------------------------------------------------------ C14
/// what is saved as JSON is accepted again and is the same program, so every later export is the same
pub proof fn thm_c14_round_trip(p: Program, k: ProgramFileType)
    requires prog_wf(p), crate::vx_env::json_symmetric()
    ensures json_ok(file_text_of(saved_bytes(p, ProgramFileType::JSON))),
        json_parse::<Program>(file_text_of(saved_bytes(p, ProgramFileType::JSON))) == Some(p),
        saved_bytes(json_parse::<Program>(file_text_of(saved_bytes(p, ProgramFileType::JSON))).unwrap(), k) == saved_bytes(p, k),
{
    broadcast use crate::txt::ax_json;
    lemma_file_text(p.jv());
}

// ------------------------------------------------------------------ C17
pub open spec fn no_break(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' && s[i] != '\r' }
pub proof fn lemma_first_line(l: Seq<char>, rest: Seq<char>)
    requires forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] != '\n'
    ensures str_lines(l + seq!['\n'] + rest) =~= seq![strip_cr(l)] + str_lines(rest)
{
    let s = l + seq!['\n'] + rest;
    let n = l.len() as int;
    assert(s.subrange(n, n + 1) =~= seq!['\n']);
    assert forall|i: int| 0 <= i < n implies #[trigger] s[i] != '\n' by { assert(s[i] == l[i]); }
    lemma_find_at(s, seq!['\n'], n);
    assert(s.take(n) =~= l);
    assert(s.skip(n + 1) =~= rest);
}
/// a text without its final newline
pub open spec fn chomp(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\n' { s.drop_last() } else { s } }
pub proof fn lemma_find_range(s: Seq<char>, p: Seq<char>)
    ensures match str_find(s, p) { Some(i) => 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) =~= p, None => true },
    decreases s.len()
{
    if starts(s, p) { assert(s.subrange(0, p.len() as int) =~= s.take(p.len() as int)); }
    else if s.len() > 0 {
        lemma_find_range(s.drop_first(), p);
        match str_find(s.drop_first(), p) {
            Some(i) => { assert(s.subrange(i + 1, i + 1 + p.len()) =~= s.drop_first().subrange(i, i + p.len())); },
            None => {},
        }
    }
}
pub proof fn lemma_join_first(x: Seq<char>, v: Seq<Seq<char>>, sep: Seq<char>)
    requires v.len() > 0
    ensures str_join(seq![x] + v, sep) =~= x + sep + str_join(v, sep)
    decreases v.len()
{
    let w = seq![x] + v;
    assert(w.last() == v.last());
    if v.len() == 1 {
        assert(w.drop_last() =~= seq![x]);
        assert(str_join(w.drop_last(), sep) =~= x);
    } else {
        assert(w.drop_last() =~= seq![x] + v.drop_last());
        lemma_join_first(x, v.drop_last(), sep);
    }
}
/// splitting a text into lines and joining them again
#[verifier::rlimit(60)]
pub proof fn lemma_lines_join(s: Seq<char>)
    requires no_cr(s)
    ensures str_join(str_lines(s), seq!['\n']) =~= chomp(s), s.len() > 0 ==> str_lines(s).len() > 0
    decreases s.len()
{
    if s.len() > 0 {
        lemma_find_range(s, seq!['\n']);
        match str_find(s, seq!['\n']) {
            Some(i) => {
                let (l, t) = (s.take(i), s.skip(i + 1));
                assert(s.subrange(i, i + 1)[0] == s[i]);
                if l.len() > 0 { assert(l.last() == s[i - 1]); }
                assert(strip_cr(l) == l);
                assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] != '\r' by { assert(t[j] == s[i + 1 + j]); }
                lemma_lines_join(t);
                if t.len() == 0 {
                    assert(str_lines(t) =~= Seq::empty());
                    assert(str_lines(s) =~= seq![l]);
                    assert(s =~= l.push('\n'));
                } else {
                    assert(str_lines(s) =~= seq![l] + str_lines(t));
                    lemma_join_first(l, str_lines(t), seq!['\n']);
                    assert(s =~= l + seq!['\n'] + t);
                    assert(s.last() == t.last());
                    if t.last() == '\n' { assert(chomp(s) =~= l + seq!['\n'] + t.drop_last()); }
                }
            },
            None => {
                assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] != '\n' by { lemma_find_none(s, j); }
                assert(str_lines(s) =~= seq![s]);
            },
        }
    }
}
pub proof fn lemma_find_none(s: Seq<char>, j: int)
    requires 0 <= j < s.len(), str_find(s, seq!['\n']) is None
    ensures s[j] != '\n'
    decreases s.len()
{
    if j == 0 {
        if s[0] == '\n' { assert(s.take(1) =~= seq!['\n']); }
    } else {
        assert(s.drop_first()[j - 1] == s[j]);
        lemma_find_none(s.drop_first(), j - 1);
    }
}
pub proof fn lemma_plain_names(t: FileType, d: Destination, m: DisplayMode, x: Model)
    ensures no_break(ftype_name(t)), no_break(dest_name(d)), no_break(dmode_name(m)), no_break(model_name(x)),
        ftype_of(ftype_name(t)) == Some(t), dest_of(dest_name(d)) == Some(d), dmode_of(dmode_name(m)) == Some(m), model_from(model_name(x)) == x,
{
    reveal_strlit("Program"); reveal_strlit("Locked Program"); reveal_strlit("Group"); reveal_strlit("Flash Application");
    assert("Program"@.len() == 7); assert("Locked Program"@.len() == 14); assert("Group"@.len() == 5); assert("Flash Application"@.len() == 17);
    reveal_strlit("RAM"); reveal_strlit("Archive"); assert("RAM"@.len() == 3); assert("Archive"@.len() == 7);
    reveal_strlit("pretty"); reveal_strlit("accessible"); reveal_strlit("ti");
    assert("pretty"@.len() == 6); assert("accessible"@.len() == 10); assert("ti"@.len() == 2);
    lemma_model_name(x);
    lemma_model_plain(x);
}
pub proof fn lemma_model_plain(x: Model)
    ensures no_break(model_name(x))
{
    reveal_strlit("TI-82"); reveal_strlit("TI-83"); reveal_strlit("TI-82ST"); reveal_strlit("TI-82ST.fr"); reveal_strlit("TI-76.fr");
    reveal_strlit("TI-83+"); reveal_strlit("TI-83+SE"); reveal_strlit("TI-83+.fr"); reveal_strlit("TI-82+"); reveal_strlit("TI-84+");
    reveal_strlit("TI-84+SE"); reveal_strlit("TI-83+.fr:USB"); reveal_strlit("TI-84P.fr"); reveal_strlit("TI-84+PSE"); reveal_strlit("TI-82A");
    reveal_strlit("TI-84+T"); reveal_strlit("TI-84+CSE"); reveal_strlit("TI-84+CE"); reveal_strlit("TI-84+CET"); reveal_strlit("TI-83PCE");
    reveal_strlit("TI-83PCEEP"); reveal_strlit("TI-84+CEPY"); reveal_strlit("TI-84+CETPE"); reveal_strlit("TI-82AEP"); reveal_strlit("latest");
}
/// the lines of an exported text
#[verifier::rlimit(60)]
pub proof fn lemma_txt_lines(p: Program)
    requires no_break(p.metadata.name@), no_break(p.header.comment@)
    ensures str_lines(txt_file(p)) =~= seq![p.metadata.name@, p.header.comment@, ftype_name(p.metadata.file_type), dest_name(p.metadata.destination),
        dmode_name(p.display_mode), model_name(p.model.model)] + str_lines(p.body.translation@)
{
    reveal_strlit("\n");
    let nl = seq!['\n'];
    assert("\n"@ =~= nl);
    lemma_plain_names(p.metadata.file_type, p.metadata.destination, p.display_mode, p.model.model);
    let (a, b, c, d, e, f, g) = (p.metadata.name@, p.header.comment@, ftype_name(p.metadata.file_type), dest_name(p.metadata.destination),
        dmode_name(p.display_mode), model_name(p.model.model), p.body.translation@);
    let r5 = f + nl + g;
    let r4 = e + nl + r5;
    let r3 = d + nl + r4;
    let r2 = c + nl + r3;
    let r1 = b + nl + r2;
    assert(txt_file(p) =~= a + nl + r1);
    lemma_first_line(f, g); lemma_first_line(e, r5); lemma_first_line(d, r4); lemma_first_line(c, r3); lemma_first_line(b, r2); lemma_first_line(a, r1);
    lemma_strip(a); lemma_strip(b); lemma_strip(c); lemma_strip(d); lemma_strip(e); lemma_strip(f);
}
pub proof fn lemma_strip(s: Seq<char>)
    requires no_break(s)
    ensures strip_cr(s) == s
{ if s.len() > 0 { assert(s.last() == s[s.len() - 1]); } }
/// reading an exported text back gives the same name, type, destination, display mode, model and text (final newline aside);
/// it is refused only when its text cannot be encoded or does not fit
pub proof fn thm_c17_read_back(p: Program, e: EncodeMode)
    requires valid_name(p.metadata.name@), no_break(p.header.comment@), no_cr(p.body.translation@)
    ensures ({
        let f = file_text_of(saved_bytes(p, ProgramFileType::TXT));
        let code = enc(table(p.model.model, "latest"@), p.display_mode, e, true, chomp(p.body.translation@));
        &&& txt_body(f) == chomp(p.body.translation@)
        &&& txt_ok(f, e) <==> code is Some && code.unwrap().len() + 19 <= 65535
        &&& forall|q: Program| #[trigger] text_loaded(f, e, q) ==> q.metadata.name@ == p.metadata.name@ && q.metadata.file_type == p.metadata.file_type
            && q.metadata.destination == p.metadata.destination && q.display_mode == p.display_mode && q.model.model == p.model.model
            && q.body.translation@ == chomp(p.body.translation@) && Some(q.body.bytes@) == code
    })
{
    reveal_strlit("\n");
    assert("\n"@ =~= seq!['\n']);
    lemma_file_text(txt_file(p));
    let f = txt_file(p);
    assert forall|i: int| 0 <= i < p.metadata.name@.len() implies #[trigger] p.metadata.name@[i] != '\n' && p.metadata.name@[i] != '\r' by { assert(is_alpha(p.metadata.name@[i])); }
    lemma_txt_lines(p);
    lemma_plain_names(p.metadata.file_type, p.metadata.destination, p.display_mode, p.model.model);
    lemma_lines_join(p.body.translation@);
    assert(str_lines(f).skip(6) =~= str_lines(p.body.translation@));
    assert(txt_line(f, 0) == p.metadata.name@ && txt_line(f, 2) == ftype_name(p.metadata.file_type) && txt_line(f, 3) == dest_name(p.metadata.destination));
    assert(txt_line(f, 4) == dmode_name(p.display_mode) && txt_line(f, 5) == model_name(p.model.model));
}

/// the text is what the body bytes spell: true of every program loaded from a calculator file
/// (`loaded`)
pub open spec fn spelled(p: Program) -> bool {
    dec(table(p.model.model, "latest"@), "en"@, p.display_mode, p.body.bytes@) == Some(p.body.translation@)
}
/// C17 for every program that was loaded from a calculator file
pub proof fn thm_c17_spelled(p: Program, e: EncodeMode)
    requires valid_name(p.metadata.name@), no_break(p.header.comment@), spelled(p)
    ensures ({
        let f = file_text_of(saved_bytes(p, ProgramFileType::TXT));
        let code = enc(table(p.model.model, "latest"@), p.display_mode, e, true, chomp(p.body.translation@));
        &&& txt_body(f) == chomp(p.body.translation@)
        &&& txt_ok(f, e) <==> code is Some && code.unwrap().len() + 19 <= 65535
        &&& forall|q: Program| #[trigger] text_loaded(f, e, q) ==> q.metadata.name@ == p.metadata.name@ && q.metadata.file_type == p.metadata.file_type
            && q.metadata.destination == p.metadata.destination && q.display_mode == p.display_mode && q.model.model == p.model.model
            && q.body.translation@ == chomp(p.body.translation@) && Some(q.body.bytes@) == code
    })
{
    ax_table(p.model.model);
    lemma_dec_no_cr(table(p.model.model, "latest"@), "en"@, p.display_mode, p.body.bytes@);
    thm_c17_read_back(p, e);
}
pub proof fn lemma_loaded_spelled(s: Seq<u8>, k: ProgramFileType, mode: DisplayMode, p: Program)
    requires loaded(s, k, mode, p)
    ensures spelled(p)
{}

// ------------------------------------------------------------------ C01
/// one token of a body: a byte that is a token, or two bytes that are one and whose first is none
pub open spec fn token_bytes(t: IMap<Seq<char>, Translation>, c: Seq<u8>) -> bool {
    ||| c.len() == 1 && t.contains_key(key_en(key1(c[0])))
    ||| c.len() == 2 && !t.contains_key(key_en(key1(c[0]))) && t.contains_key(key_en(key2(c[0], c[1])))
}
pub open spec fn token_text(t: IMap<Seq<char>, Translation>, m: DisplayMode, c: Seq<u8>) -> Seq<char> {
    rep(t[if c.len() == 1 { key_en(key1(c[0])) } else { key_en(key2(c[0], c[1])) }], m)
}
pub open spec fn all_bytes(cs: Seq<Seq<u8>>) -> Seq<u8>
    decreases cs.len()
{ if cs.len() == 0 { Seq::empty() } else { cs[0] + all_bytes(cs.skip(1)) } }
pub open spec fn all_text(t: IMap<Seq<char>, Translation>, m: DisplayMode, cs: Seq<Seq<u8>>) -> Seq<char>
    decreases cs.len()
{ if cs.len() == 0 { Seq::empty() } else { token_text(t, m, cs[0]) + all_text(t, m, cs.skip(1)) } }
/// the bytes fall apart into these tokens
pub open spec fn spells(t: IMap<Seq<char>, Translation>, s: Seq<u8>, cs: Seq<Seq<u8>>) -> bool {
    all_bytes(cs) == s && forall|i: int| 0 <= i < cs.len() ==> token_bytes(t, #[trigger] cs[i])
}
pub proof fn lemma_spells_tail(t: IMap<Seq<char>, Translation>, s: Seq<u8>, cs: Seq<Seq<u8>>)
    requires spells(t, s, cs), cs.len() > 0
    ensures token_bytes(t, cs[0]), s.len() >= cs[0].len(), s.take(cs[0].len() as int) == cs[0], spells(t, s.skip(cs[0].len() as int), cs.skip(1))
{
    let n = cs[0].len() as int;
    assert(s.take(n) =~= cs[0]);
    assert(s.skip(n) =~= all_bytes(cs.skip(1)));
    assert forall|i: int| 0 <= i < cs.skip(1).len() implies token_bytes(t, #[trigger] cs.skip(1)[i]) by { assert(cs.skip(1)[i] == cs[i + 1]); }
}
/// bytes that fall apart into tokens decode to the texts of those tokens, and they fall apart in one way only
pub proof fn thm_c01_spelled_text(t: IMap<Seq<char>, Translation>, m: DisplayMode, s: Seq<u8>, cs: Seq<Seq<u8>>)
    requires spells(t, s, cs)
    ensures dec(t, "en"@, m, s) == Some(all_text(t, m, cs))
    decreases cs.len()
{
    reveal_with_fuel(dec, 2);
    if cs.len() > 0 {
        let n = cs[0].len() as int;
        lemma_spells_tail(t, s, cs);
        thm_c01_spelled_text(t, m, s.skip(n), cs.skip(1));
        assert(s.take(n)[0] == s[0]);
        if n == 2 { assert(s.take(n)[1] == s[1]); }
    }
}
pub proof fn thm_c01_one_spelling(t: IMap<Seq<char>, Translation>, s: Seq<u8>, cs: Seq<Seq<u8>>, ds: Seq<Seq<u8>>)
    requires spells(t, s, cs), spells(t, s, ds)
    ensures cs == ds
    decreases cs.len()
{
    if cs.len() > 0 { lemma_spells_tail(t, s, cs); }
    if ds.len() > 0 { lemma_spells_tail(t, s, ds); }
    if cs.len() > 0 && ds.len() > 0 {
        let (a, b) = (cs[0], ds[0]);
        assert(s.take(a.len() as int)[0] == s[0] && s.take(b.len() as int)[0] == s[0]);
        assert(a.len() == b.len());
        thm_c01_one_spelling(t, s.skip(a.len() as int), cs.skip(1), ds.skip(1));
        assert(cs =~= seq![cs[0]] + cs.skip(1));
        assert(ds =~= seq![ds[0]] + ds.skip(1));
    } else {
        assert(cs =~= ds);
    }
}
/// and whatever decodes falls apart into tokens
pub proof fn thm_c01_decoded_is_spelled(t: IMap<Seq<char>, Translation>, m: DisplayMode, s: Seq<u8>) -> (cs: Seq<Seq<u8>>)
    requires dec(t, "en"@, m, s) is Some
    ensures spells(t, s, cs)
    decreases s.len()
{
    reveal_with_fuel(dec, 2);
    if s.len() == 0 {
        let cs = Seq::<Seq<u8>>::empty();
        assert(all_bytes(cs) =~= s);
        cs
    } else {
        let n: int = if t.contains_key(key_en(key1(s[0]))) { 1 } else { 2 };
        let r = thm_c01_decoded_is_spelled(t, m, s.skip(n));
        let cs = seq![s.take(n)] + r;
        assert(cs.skip(1) =~= r);
        assert(all_bytes(cs) =~= s);
        assert forall|i: int| 0 <= i < cs.len() implies token_bytes(t, #[trigger] cs[i]) by { if i > 0 { assert(cs[i] == r[i - 1]); } }
        cs
    }
}
/// a loaded calculator file: its text is that of the tokens its body spells on its model, and a body that spells no tokens is refused
pub proof fn thm_c01_loaded_text(s: Seq<u8>, k: ProgramFileType, mode: DisplayMode, p: Program)
    requires loaded(s, k, mode, p)
    ensures exists|cs: Seq<Seq<u8>>| #[trigger] spells(table(p.model.model, "latest"@), file_body(s, k), cs)
        && p.body.translation@ == all_text(table(p.model.model, "latest"@), mode, cs)
{
    let t = table(p.model.model, "latest"@);
    let cs = thm_c01_decoded_is_spelled(t, mode, file_body(s, k));
    thm_c01_spelled_text(t, mode, file_body(s, k), cs);
}
pub proof fn thm_c01_refused(s: Seq<u8>, k: ProgramFileType, mode: DisplayMode)
    requires file_model(s) is Some, forall|cs: Seq<Seq<u8>>| !(#[trigger] spells(table(file_model(s).unwrap(), "latest"@), file_body(s, k), cs))
    ensures !loadable(s, k, mode)
{
    if file_text(s, k, mode) is Some {
        let cs = thm_c01_decoded_is_spelled(table(file_model(s).unwrap(), "latest"@), mode, file_body(s, k));
    }
}

// ------------------------------------------------------------------ C05
pub proof fn lemma_zero_pad(s: Seq<u8>, n: int)
    requires s.len() <= n
    ensures zero_pad(s, n).len() == n, zero_pad(s, n).take(s.len() as int) =~= s, forall|i: int| s.len() <= i < n ==> #[trigger] zero_pad(s, n)[i] == 0
{}
/// the layout of the 8xp file saved from a program that was built from a text
pub open spec fn layout(f: Seq<u8>, sig: Seq<char>, id: u8, comment: Seq<char>, name: Seq<char>, t: FileType, d: Destination, body: Seq<u8>) -> bool {
    let n = body.len() as int;
    &&& f.len() == 76 + n
    &&& f.take(8) =~= encode_utf8(sig)
    &&& f[8] == 0x1A && f[9] == 0x0A && f[10] == id
    &&& f.subrange(11, 53) =~= zero_pad(encode_utf8(comment), 42)
    &&& from_le(f[53], f[54]) == 19 + n
    &&& f[55] == 0x0D && f[56] == 0 && from_le(f[57], f[58]) == n + 2
    &&& f[59] == ftype_byte(t)
    &&& f.subrange(60, 68) =~= zero_pad(encode_utf8(name), 8)
    &&& f[68] == 0 && f[69] == dest_byte(d) && from_le(f[70], f[71]) == n + 2 && from_le(f[72], f[73]) == n
    &&& f.subrange(74, 74 + n) =~= body
    &&& from_le(f[74 + n], f[75 + n]) == (byte_sum(f.subrange(55, 74)) + byte_sum(body)) % 65536
}
pub proof fn lemma_text_header(p: Program, n: int)
    requires txt_header(p.model.model, n, p.header), 0 <= n, n + 19 <= 65535
    ensures ({
        let h = p.header.bytes@;
        &&& h.len() == 55 && h.take(8) =~= encode_utf8(model_sig(p.model.model)) && h[8] == 0x1A && h[9] == 0x0A && h[10] == model_id(p.model.model)
        &&& h.subrange(11, 53) =~= zero_pad(encode_utf8(p.header.comment@), 42)
        &&& blen(p.header.comment@) <= 42
        &&& from_le(h[53], h[54]) == 19 + n && h.subrange(53, 55) =~= le16((n + 19) as u16)
    })
{
    hide(zero_pad);
    lemma_sig_len(p.model.model);
    lemma_zero_pad(encode_utf8(p.header.comment@), 42);
    lemma_le16((n + 19) as u16);
}
pub proof fn lemma_text_meta(name: Seq<char>, t: FileType, d: Destination, n: int, m: Metadata)
    requires txt_metadata(name, t, d, n, m), 0 <= n, n + 2 <= 65535, valid_name(name)
    ensures ({
        let b = m.bytes@;
        &&& b.len() == 19 && b[0] == 0x0D && b[1] == 0 && from_le(b[2], b[3]) == n + 2 && b[4] == ftype_byte(t)
        &&& b.subrange(5, 13) =~= zero_pad(encode_utf8(name), 8)
        &&& b[13] == 0 && b[14] == dest_byte(d) && from_le(b[15], b[16]) == n + 2 && from_le(b[17], b[18]) == n
    })
{
    hide(zero_pad);
    lemma_name_len(name);
    lemma_zero_pad(encode_utf8(name), 8);
    lemma_le16((n + 2) as u16);
    lemma_le16(n as u16);
}
pub proof fn thm_c05_layout(f: Seq<char>, e: EncodeMode, p: Program)
    requires text_loaded(f, e, p)
    ensures layout(saved_bytes(p, ProgramFileType::XP), model_sig(p.model.model), model_id(p.model.model), p.header.comment@, txt_line(f, 0),
        ftype_of(txt_line(f, 2)).unwrap(), dest_of(txt_line(f, 3)).unwrap(), p.body.bytes@),
        blen(p.header.comment@) <= 42, p.model.model == txt_model(f), Some(p.body.bytes@) == txt_code(f, e), consistent(saved_bytes(p, ProgramFileType::XP))
{
    hide(calc_file);
    hide(zero_pad);
    hide(txt_header);
    hide(txt_metadata);
    lemma_text_wf(f, e, p);
    let n = p.body.bytes@.len() as int;
    let (h, m, b) = (p.header.bytes@, p.metadata.bytes@, p.body.bytes@);
    let g = saved_bytes(p, ProgramFileType::XP);
    lemma_text_header(p, n);
    lemma_text_meta(txt_line(f, 0), ftype_of(txt_line(f, 2)).unwrap(), dest_of(txt_line(f, 3)).unwrap(), n, p.metadata);
    lemma_calc_file(h, m, b);
    assert(g.len() == 76 + n);
    assert(g.take(53) == h.take(53));
    assert forall|i: int| 0 <= i < 53 implies #[trigger] g[i] == h[i] by { assert(g.take(53)[i] == h.take(53)[i]); }
    assert(g.take(8) =~= h.take(8));
    assert(g.subrange(11, 53) =~= h.subrange(11, 53));
    assert(g.subrange(55, 74) == m);
    lemma_meta_at(g, m, 0);
    lemma_meta_at(g, m, 1);
    lemma_meta_at(g, m, 2);
    lemma_meta_at(g, m, 3);
    lemma_meta_at(g, m, 4);
    lemma_meta_at(g, m, 13);
    lemma_meta_at(g, m, 14);
    lemma_meta_at(g, m, 15);
    lemma_meta_at(g, m, 16);
    lemma_meta_at(g, m, 17);
    lemma_meta_at(g, m, 18);
    assert(g.subrange(60, 68) =~= m.subrange(5, 13)) by {
        assert forall|i: int| 0 <= i < 8 implies #[trigger] g.subrange(60, 68)[i] == m.subrange(5, 13)[i] by { lemma_meta_at(g, m, 5 + i); }
    }
    assert(g.subrange(74, 74 + n) =~= b);
    assert(g.subrange(55, g.len() - 2) =~= m + b);
    lemma_sum_add(m, b);
}

// ------------------------------------------------------------------ C02
/// the bytes of a program built from a text decode to that text: its lines, with theta unified, joined by the newline token
pub proof fn thm_c02_decodes_to_the_text(f: Seq<char>, e: EncodeMode, p: Program)
    requires text_loaded(f, e, p)
    ensures ({
        let t = table(p.model.model, "latest"@);
        dec(t, "en"@, p.display_mode, p.body.bytes@) == Some(str_join(enc_text_lines(true, txt_body(f)), newline(t, p.display_mode)))
    })
{
    let t = table(p.model.model, "latest"@);
    ax_table(p.model.model);
    lemma_round_trip(t, p.display_mode, e, true, txt_body(f));
}
/// and so does the calculator file saved from it, whenever its header stands for the same model
pub proof fn thm_c02_from_file(f: Seq<char>, e: EncodeMode, p: Program, q: Program)
    requires text_loaded(f, e, p), loaded(saved_bytes(p, ProgramFileType::XP), ProgramFileType::XP, p.display_mode, q), q.model.model == p.model.model
    ensures q.body.bytes@ == p.body.bytes@,
        q.body.translation@ == str_join(enc_text_lines(true, txt_body(f)), newline(table(p.model.model, "latest"@), p.display_mode)),
{
    hide(layout);
    hide(calc_file);
    let g = saved_bytes(p, ProgramFileType::XP);
    thm_c05_layout(f, e, p);
    thm_c02_decodes_to_the_text(f, e, p);
    reveal(layout);
    assert(file_body(g, ProgramFileType::XP) =~= p.body.bytes@);
}

// ------------------------------------------------------------------ C15
/// a model goes to its name and back, no two models share a name, and its header is read back to a model with the same header
pub proof fn thm_c15_identity(m: Model, n: Model)
    ensures model_from(model_name(m)) == m, model_name(m) == model_name(n) ==> m == n,
        details_of(model_id(m), model_sig(m)) is Some,
        model_id(details_of(model_id(m), model_sig(m)).unwrap()) == model_id(m), model_sig(details_of(model_id(m), model_sig(m)).unwrap()) == model_sig(m),
{
    lemma_model_names_distinct(m, n);
    lemma_model_name(m);
    lemma_header_identity(m);
}
/// product ids that belong to no model
pub proof fn thm_c15_unsupported(id: u8, sig: Seq<char>)
    requires forall|m: Model| model_id(m) != id
    ensures details_of(id, sig) is None
{
    assert(model_id(Model::TI82) != id && model_id(Model::TI83Plus) != id && model_id(Model::TI84Plus) != id && model_id(Model::TI82A) != id);
    assert(model_id(Model::TI84PlusCSE) != id && model_id(Model::TI84PlusCE) != id && model_id(Model::TI84PlusT) != id);
}
/// the file written for a program built from text is read back as a model with that product id and signature
pub proof fn thm_c15_file_model(f: Seq<char>, e: EncodeMode, p: Program)
    requires text_loaded(f, e, p)
    ensures ({
        let g = saved_bytes(p, ProgramFileType::XP);
        file_model(g) is Some && model_id(file_model(g).unwrap()) == model_id(p.model.model) && model_sig(file_model(g).unwrap()) == model_sig(p.model.model)
    })
{
    hide(calc_file);
    let g = saved_bytes(p, ProgramFileType::XP);
    thm_c05_layout(f, e, p);
    lemma_sig_chars(model_sig(p.model.model));
    lemma_sig_known(p.model.model);
    assert(chars_of(g.take(8)) == model_sig(p.model.model));
    lemma_header_identity(p.model.model);
}
pub proof fn lemma_sig_known(m: Model)
    ensures model_sig(m).len() == 8, forall|i: int| 0 <= i < 8 ==> (#[trigger] model_sig(m)[i]) as u32 <= 127
{ reveal_strlit("**TI82**"); reveal_strlit("**TI83**"); reveal_strlit("**TI83F*"); }
/// ASCII text as bytes, read as characters again
pub proof fn lemma_sig_chars(s: Seq<char>)
    ensures (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 127) ==> chars_of(encode_utf8(s)) =~= s
    decreases s.len()
{
    if s.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 127) {
        let r = s.drop_first();
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) as u32 <= 127 by { assert(r[i] == s[i + 1]); }
        lemma_sig_chars(r);
        lemma_ascii_len(s); lemma_ascii_len(r);
        assert(s[0] as u32 <= 127);
        let one = encode_scalar(s[0] as u32);
        assert(one.len() == 1);
        assert(encode_utf8(s) =~= one + encode_utf8(r));
        let n = s[0] as u32;
        assert(n & 0x7F == n) by (bit_vector) requires n <= 127;
        assert(one[0] == s[0] as u8);
        assert(one[0] as char == s[0]);
        assert(chars_of(encode_utf8(s)) =~= seq![s[0]] + chars_of(encode_utf8(r)));
        assert(s =~= seq![s[0]] + r);
    }
}

// ------------------------------------------------------------------ C16
/// a token sits in the table exactly when a version of it exists on this model and OS version, under its own code
pub open spec fn variants(d: IMap<Seq<char>, TokenData>, c: Seq<u8>) -> Option<Seq<Token>> {
    if c.len() == 1 {
        if d.contains_key(key1(c[0])) { match d[key1(c[0])] { TokenData::Single(ts) => Some(ts@), _ => None } } else { None }
    } else if d.contains_key(key1(c[0])) {
        match d[key1(c[0])] { TokenData::Nested(n) => if n@.contains_key(key1(c[1])) { Some(n@[key1(c[1])]@) } else { None }, _ => None }
    } else { None }
}
pub proof fn lemma_last_live(ts: Seq<Token>, m: Model, v: Seq<char>)
    ensures
        last_live(ts, m, v) is Some <==> exists|i: int| 0 <= i < ts.len() && live(#[trigger] ts[i], m, v),
        last_live(ts, m, v) is Some ==> exists|i: int| 0 <= i < ts.len() && live(#[trigger] ts[i], m, v) && last_live(ts, m, v) == Some(ts[i].langs@["en"@])
            && forall|j: int| i < j < ts.len() ==> !live(#[trigger] ts[j], m, v),
    decreases ts.len()
{
    reveal_with_fuel(last_live, 2);
    if ts.len() > 0 {
        let n = ts.len() - 1;
        if live(ts.last(), m, v) { assert(live(ts[n], m, v)); }
        else {
            let d = ts.drop_last();
            lemma_last_live(d, m, v);
            assert forall|i: int| 0 <= i < n implies d[i] == #[trigger] ts[i] by {}
            if last_live(d, m, v) is Some {
                let i = choose|i: int| 0 <= i < d.len() && live(#[trigger] d[i], m, v) && last_live(d, m, v) == Some(d[i].langs@["en"@])
                    && forall|j: int| i < j < d.len() ==> !live(#[trigger] d[j], m, v);
                assert(live(ts[i], m, v));
                assert forall|j: int| i < j < ts.len() implies !live(#[trigger] ts[j], m, v) by { if j < n { assert(d[j] == ts[j]); } }
            } else {
                assert forall|i: int| 0 <= i < ts.len() implies !live(#[trigger] ts[i], m, v) by { if i < n { assert(!live(d[i], m, v)); } }
            }
        }
    }
}
pub proof fn thm_c16_table(c: Seq<u8>, m: Model, v: Seq<char>)
    requires c.len() == 1 || c.len() == 2
    ensures ({
        let k = if c.len() == 1 { key_en(key1(c[0])) } else { key_en(key2(c[0], c[1])) };
        let ts = variants(sheet().unwrap()@, c);
        &&& table(m, v).contains_key(k) <==> ts is Some && exists|i: int| 0 <= i < ts.unwrap().len() && live(#[trigger] ts.unwrap()[i], m, v)
        &&& table(m, v).contains_key(k) ==> exists|i: int| 0 <= i < ts.unwrap().len() && live(#[trigger] ts.unwrap()[i], m, v)
            && table(m, v)[k] == ts.unwrap()[i].langs@["en"@] && forall|j: int| i < j < ts.unwrap().len() ==> !live(#[trigger] ts.unwrap()[j], m, v)
    })
{
    reveal_strlit("$");
    reveal(expected);
    let d = sheet().unwrap()@;
    if c.len() == 1 {
        let k = key_en(key1(c[0]));
        lemma_key_en(key1(c[0]), key1(c[0]));
        assert(k.take(3) == key1(c[0]));
        if let Some(ts) = variants(d, c) { lemma_last_live(ts, m, v); }
    } else {
        let k = key_en(key2(c[0], c[1]));
        lemma_key_en(key2(c[0], c[1]), key2(c[0], c[1]));
        assert(key2(c[0], c[1]).len() == 6);
        assert(k.take(6) == key2(c[0], c[1]));
        assert(k.take(3) =~= key1(c[0])) by { assert(k.take(3) =~= k.take(6).take(3)); }
        assert(k.subrange(3, 6) =~= key1(c[1])) by { assert(k.subrange(3, 6) =~= k.take(6).subrange(3, 6)); }
        if let Some(ts) = variants(d, c) { lemma_last_live(ts, m, v); }
    }
}
/// the comparison of models and versions is a total order
pub proof fn thm_c16_total_order(a: OsVersion, b: OsVersion, c: OsVersion)
    ensures os_le(a, a), os_le(a, b) || os_le(b, a), os_le(a, b) && os_le(b, c) ==> os_le(a, c),
        os_cmp(b.model, b.version@, a.model, a.version@) == flip(os_cmp(a.model, a.version@, b.model, b.version@)),
{ lemma_os_order(a, b, c); }
/// which orders by generation first, puts no version before any and "latest" after any other version
pub proof fn thm_c16_extremes(m: Model, n: Model, v: Seq<char>, w: Seq<char>)
    ensures
        model_rank(m) < model_rank(n) ==> os_cmp(m, v, n, w) == Ordering::Less,
        model_rank(m) == model_rank(n) && v.len() == 0 && w.len() > 0 ==> os_cmp(m, v, n, w) == Ordering::Less,
        model_rank(m) == model_rank(n) && w == "latest"@ && v != "latest"@ ==> os_cmp(m, v, n, w) == Ordering::Less,
        model_rank(m) == model_rank(n) && v.len() > 0 && w.len() > 0 && v != "latest"@ && w != "latest"@ ==>
            os_cmp(m, v, n, w) == lex_u32(ver_parts(v), ver_parts(w)),
{
    reveal_strlit("latest");
    lemma_lex_refl(ver_parts(v));
}

// ------------------------------------------------------------------ C20
/// text without brackets is shown as it is
pub proof fn thm_c20_plain(s: Seq<char>, r: Seq<char>)
    requires shown(s, r), forall|i: int| 0 <= i < s.len() ==> s[i] != '['
    ensures r == s
{ lemma_plain(s, r); }
}
