// The command line: what the arguments ask for.
use vstd::prelude::*;
use crate::vx::*;
use crate::spec::*;
use crate::cli::*;
verus! {
broadcast use crate::vx::group_vx;

/// -c or --long
pub open spec fn is_flag(c: char, l: Seq<char>, s: Seq<char>) -> bool { s == "-"@ + seq![c] || s == "--"@ + l }
/// the position of the first argument that is the flag
pub open spec fn first_flag(a: Seq<Seq<char>>, c: char, l: Seq<char>) -> Option<int>
    decreases a.len()
{
    if a.len() == 0 { None }
    else if first_flag(a.drop_last(), c, l) is Some { first_flag(a.drop_last(), c, l) }
    else if is_flag(c, l, a.last()) { Some(a.len() - 1) }
    else { None }
}
/// the flag is on the command line
pub open spec fn given(c: char, l: Seq<char>) -> bool { first_flag(args(), c, l) is Some }
/// what follows the flag
pub open spec fn value(c: char, l: Seq<char>) -> Option<Seq<char>> {
    match first_flag(args(), c, l) { Some(i) if 0 <= i && i + 1 < args().len() => Some(args()[i + 1]), _ => None }
}
pub open spec fn value_or(c: char, l: Seq<char>, d: Seq<char>) -> Seq<char> { match value(c, l) { Some(v) => v, None => d } }
pub open spec fn text_opt(v: Option<Seq<char>>) -> Option<String> { match v { Some(t) => Some(string_with(t)), None => None } }
pub open spec fn command_is(n: Seq<char>) -> bool { args().len() > 1 && args()[1] == n }
/// the directory mass conversion may write in
pub open spec fn named_dir() -> Option<PathV> {
    if command_is("convert"@) && given('m', "mass"@) && value('o', "output"@) is Some { Some(path_of(value('o', "output"@).unwrap())) } else { None }
}

/// an editing command as given on the command line; deleting the old file is possible only together with a new one
pub open spec fn edits(w0: WV, w1: WV, change: spec_fn(crate::calculator::program::Program, crate::calculator::program::Program) -> bool) -> bool {
    &&& args().len() > 2
    &&& edited(w0, w1, path_of(args()[2]), text_opt(value('f', "new-file"@)), given('d', "delete-old"@), change)
    &&& given('d', "delete-old"@) ==> given('f', "new-file"@)
}

pub proof fn lemma_first_flag(a: Seq<Seq<char>>, c: char, l: Seq<char>)
    ensures
        first_flag(a, c, l) is Some <==> exists|i: int| 0 <= i < a.len() && is_flag(c, l, #[trigger] a[i]),
        first_flag(a, c, l) is Some ==> 0 <= first_flag(a, c, l).unwrap() < a.len() && is_flag(c, l, a[first_flag(a, c, l).unwrap()])
            && forall|j: int| 0 <= j < first_flag(a, c, l).unwrap() ==> !is_flag(c, l, #[trigger] a[j]),
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last();
        lemma_first_flag(b, c, l);
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == a[i] by {}
        assert(a.last() == a[a.len() - 1]);
        if first_flag(b, c, l) is Some {
            let i = first_flag(b, c, l).unwrap();
            assert(is_flag(c, l, a[i]));
            assert forall|j: int| 0 <= j < i implies !is_flag(c, l, #[trigger] a[j]) by { assert(b[j] == a[j]); }
        }
        else { assert forall|j: int| 0 <= j < b.len() implies !is_flag(c, l, #[trigger] a[j]) by { assert(b[j] == a[j]); } }
    }
}
/// the first element with a name
pub open spec fn arg_of(s: Seq<Arg>, n: Seq<char>) -> Option<Arg>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if arg_of(s.drop_last(), n) is Some { arg_of(s.drop_last(), n) }
    else if s.last().name@ == n { Some(s.last()) }
    else { None }
}
pub open spec fn opt_of(s: Seq<CmdOption>, n: Seq<char>) -> Option<int>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if opt_of(s.drop_last(), n) is Some { opt_of(s.drop_last(), n) }
    else if s.last().name@ == n { Some(s.len() - 1) }
    else { None }
}
pub open spec fn command_of(s: Seq<Command>, n: Seq<char>) -> Option<Command>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if command_of(s.drop_last(), n) is Some { command_of(s.drop_last(), n) }
    else if s.last().name@ == n { Some(s.last()) }
    else { None }
}
pub broadcast proof fn lemma_arg_push(s: Seq<Arg>, a: Arg, n: Seq<char>)
    ensures #[trigger] arg_of(s.push(a), n) == (if arg_of(s, n) is Some { arg_of(s, n) } else if a.name@ == n { Some(a) } else { None })
{ assert(s.push(a).drop_last() == s); }
pub broadcast proof fn lemma_opt_push(s: Seq<CmdOption>, a: CmdOption, n: Seq<char>)
    ensures #[trigger] opt_of(s.push(a), n) == (if opt_of(s, n) is Some { opt_of(s, n) } else if a.name@ == n { Some(s.len() as int) } else { None })
{ assert(s.push(a).drop_last() == s); }
pub broadcast proof fn lemma_command_push(s: Seq<Command>, a: Command, n: Seq<char>)
    ensures #[trigger] command_of(s.push(a), n) == (if command_of(s, n) is Some { command_of(s, n) } else if a.name@ == n { Some(a) } else { None })
{ assert(s.push(a).drop_last() == s); }
pub broadcast proof fn lemma_arg_of(s: Seq<Arg>, it: Seq<&Arg>, n: Seq<char>)
    requires is_refs(it, s),
    ensures
        #![trigger is_refs(it, s), arg_of(s, n)]
        forall|i: int| 0 <= i < it.len() && (#[trigger] it[i]).name@ == n && (forall|j: int| 0 <= j < i ==> (#[trigger] it[j]).name@ != n) ==> arg_of(s, n) == Some(*it[i]),
        (forall|i: int| 0 <= i < it.len() ==> (#[trigger] it[i]).name@ != n) ==> arg_of(s, n) is None,
    decreases s.len()
{
    if s.len() > 0 {
        let t = it.drop_last();
        assert(is_refs(t, s.drop_last()));
        lemma_arg_of(s.drop_last(), t, n);
        assert forall|i: int| 0 <= i < it.len() && (#[trigger] it[i]).name@ == n && (forall|j: int| 0 <= j < i ==> (#[trigger] it[j]).name@ != n) implies arg_of(s, n) == Some(*it[i]) by {
            if i < s.len() - 1 {
                assert(t[i] == it[i]);
                assert forall|j: int| 0 <= j < i implies (#[trigger] t[j]).name@ != n by { assert(t[j] == it[j]); }
            } else {
                assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).name@ != n by { assert(t[j] == it[j]); }
                assert(*it[i] == s[i]);
            }
        }
        if forall|i: int| 0 <= i < it.len() ==> (#[trigger] it[i]).name@ != n {
            assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).name@ != n by { assert(t[j] == it[j]); }
            assert(*it[s.len() - 1] == s[s.len() - 1]);
        }
    }
}
pub broadcast proof fn lemma_opt_of(s: Seq<CmdOption>, it: Seq<&CmdOption>, n: Seq<char>)
    requires is_refs(it, s),
    ensures
        #![trigger is_refs(it, s), opt_of(s, n)]
        forall|i: int| 0 <= i < it.len() && (#[trigger] it[i]).name@ == n && (forall|j: int| 0 <= j < i ==> (#[trigger] it[j]).name@ != n) ==> opt_of(s, n) == Some(i),
        (forall|i: int| 0 <= i < it.len() ==> (#[trigger] it[i]).name@ != n) ==> opt_of(s, n) is None,
    decreases s.len()
{
    if s.len() > 0 {
        let t = it.drop_last();
        assert(is_refs(t, s.drop_last()));
        lemma_opt_of(s.drop_last(), t, n);
        assert forall|i: int| 0 <= i < it.len() && (#[trigger] it[i]).name@ == n && (forall|j: int| 0 <= j < i ==> (#[trigger] it[j]).name@ != n) implies opt_of(s, n) == Some(i) by {
            if i < s.len() - 1 {
                assert(t[i] == it[i]);
                assert forall|j: int| 0 <= j < i implies (#[trigger] t[j]).name@ != n by { assert(t[j] == it[j]); }
            } else {
                assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).name@ != n by { assert(t[j] == it[j]); }
                assert(*it[i] == s[i]);
            }
        }
        if forall|i: int| 0 <= i < it.len() ==> (#[trigger] it[i]).name@ != n {
            assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).name@ != n by { assert(t[j] == it[j]); }
            assert(*it[s.len() - 1] == s[s.len() - 1]);
        }
    }
}
pub broadcast proof fn lemma_command_of(s: Seq<Command>, it: Seq<&Command>, n: Seq<char>)
    requires is_refs(it, s),
    ensures
        #![trigger is_refs(it, s), command_of(s, n)]
        forall|i: int| 0 <= i < it.len() && (#[trigger] it[i]).name@ == n && (forall|j: int| 0 <= j < i ==> (#[trigger] it[j]).name@ != n) ==> command_of(s, n) == Some(*it[i]),
        (forall|i: int| 0 <= i < it.len() ==> (#[trigger] it[i]).name@ != n) ==> command_of(s, n) is None,
    decreases s.len()
{
    if s.len() > 0 {
        let t = it.drop_last();
        assert(is_refs(t, s.drop_last()));
        lemma_command_of(s.drop_last(), t, n);
        assert forall|i: int| 0 <= i < it.len() && (#[trigger] it[i]).name@ == n && (forall|j: int| 0 <= j < i ==> (#[trigger] it[j]).name@ != n) implies command_of(s, n) == Some(*it[i]) by {
            if i < s.len() - 1 {
                assert(t[i] == it[i]);
                assert forall|j: int| 0 <= j < i implies (#[trigger] t[j]).name@ != n by { assert(t[j] == it[j]); }
            } else {
                assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).name@ != n by { assert(t[j] == it[j]); }
                assert(*it[i] == s[i]);
            }
        }
        if forall|i: int| 0 <= i < it.len() ==> (#[trigger] it[i]).name@ != n {
            assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).name@ != n by { assert(t[j] == it[j]); }
            assert(*it[s.len() - 1] == s[s.len() - 1]);
        }
    }
}
/// the same for options numbered by their place
pub broadcast proof fn lemma_opt_at(s: Seq<CmdOption>, it: Seq<&CmdOption>, e: Seq<(usize, &CmdOption)>, n: Seq<char>)
    requires is_refs(it, s), is_enum(e, it), s.len() < 0x1000_0000
    ensures
        #![trigger is_refs(it, s), is_enum(e, it), opt_of(s, n)]
        forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]).1.name@ == n && (forall|j: int| 0 <= j < i ==> (#[trigger] e[j]).1.name@ != n) ==> opt_of(s, n) == Some(i) && e[i].0 == i && *e[i].1 == s[i],
        (forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).1.name@ != n) ==> opt_of(s, n) is None,
{
    lemma_opt_of(s, it, n);
    assert forall|i: int| 0 <= i < e.len() && (#[trigger] e[i]).1.name@ == n && (forall|j: int| 0 <= j < i ==> (#[trigger] e[j]).1.name@ != n) implies opt_of(s, n) == Some(i) && e[i].0 == i && *e[i].1 == s[i] by {
        assert forall|j: int| 0 <= j < i implies (#[trigger] it[j]).name@ != n by { assert(e[j].1 == it[j]); }
        assert(*it[i] == s[i]);
    }
    if forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).1.name@ != n {
        assert forall|j: int| 0 <= j < it.len() implies (#[trigger] it[j]).name@ != n by { assert(e[j].1 == it[j]); }
    }
}
/// looking through the collected arguments is looking through the command line
pub broadcast proof fn lemma_flags(v: Seq<String>, it: Seq<&String>, c: char, l: Seq<char>)
    requires is_refs(it, v), texts_are(v, args())
    ensures
        #![trigger is_refs(it, v), first_flag(args(), c, l)]
        first_flag(args(), c, l) is Some <==> exists|i: int| 0 <= i < it.len() && is_flag(c, l, (#[trigger] it[i])@),
        forall|i: int| 0 <= i < it.len() && is_flag(c, l, (#[trigger] it[i])@) && (forall|j: int| 0 <= j < i ==> !is_flag(c, l, (#[trigger] it[j])@)) ==> first_flag(args(), c, l) == Some(i),
{
    let a = args();
    lemma_first_flag(a, c, l);
    assert forall|i: int| 0 <= i < it.len() implies (#[trigger] it[i])@ == a[i] by { assert(*it[i] == v[i]); }
    if first_flag(a, c, l) is Some { let i = first_flag(a, c, l).unwrap(); assert(it[i]@ == a[i]); }
    assert forall|i: int| 0 <= i < it.len() && is_flag(c, l, (#[trigger] it[i])@) implies first_flag(a, c, l) is Some by { assert(is_flag(c, l, a[i])); }
    assert forall|i: int| 0 <= i < it.len() && is_flag(c, l, (#[trigger] it[i])@) && (forall|j: int| 0 <= j < i ==> !is_flag(c, l, (#[trigger] it[j])@)) implies first_flag(a, c, l) == Some(i) by {
        assert(is_flag(c, l, a[i]));
        let k = first_flag(a, c, l).unwrap();
        if k < i { assert(it[k]@ == a[k]); }
    }
}
/// the flags a flag requires are flags of the command
pub open spec fn args_wf(s: Seq<Arg>, a: Arg) -> bool {
    a.requires is Some ==> forall|j: int| 0 <= j < a.requires.unwrap()@.len() ==> arg_of(s, (#[trigger] a.requires.unwrap()@[j])@) is Some
}
pub open spec fn has_flag(s: Seq<Arg>, n: Seq<char>) -> bool {
    match arg_of(s, n) { Some(a) => given(a.short, a.long@), None => false }
}
/// every flag a flag requires is given
pub open spec fn required_given(s: Seq<Arg>, a: Arg) -> bool {
    a.requires is Some ==> forall|j: int| 0 <= j < a.requires.unwrap()@.len() ==> has_flag(s, (#[trigger] a.requires.unwrap()@[j])@)
}
pub open spec fn value_is(v: Value, t: Option<Seq<char>>) -> bool {
    match t { Some(x) => v is Present && v->Present_0@ == x, None => v is Missing }
}
/// the value of a flag, or its default
pub open spec fn flag_value(a: Arg) -> Option<Seq<char>> {
    if value(a.short, a.long@) is Some { value(a.short, a.long@) } else { match a.default_value { Some(d) => Some(d@), None => None } }
}
pub open spec fn arg_value(s: Seq<Arg>, n: Seq<char>) -> Option<Seq<char>> {
    match arg_of(s, n) {
        Some(a) => flag_value(a),
        None => None,
    }
}
/// what stands in the i-th place after the command
pub open spec fn at_place(i: int, required: bool) -> Option<Seq<char>> {
    if 2 + i < args().len() && !(args()[2 + i] == "--"@ && required) { Some(args()[2 + i]) } else { None }
}
pub open spec fn option_value(s: Seq<CmdOption>, n: Seq<char>) -> Option<Seq<char>> {
    match opt_of(s, n) {
        Some(i) => at_place(i, s[i].required),
        None => None,
    }
}
pub open spec fn flag_arg(n: Seq<char>, l: Seq<char>, c: char, r: Arg) -> bool {
    r.name@ == n && r.long@ == l && r.short == c && r.default_value is None && r.requires is None
}
pub broadcast group group_cli { lemma_arg_push, lemma_opt_push, lemma_command_push, lemma_arg_of, lemma_command_of, lemma_opt_at, lemma_flags }
}
