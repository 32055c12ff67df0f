// Styled messages.
use vstd::prelude::*;
use crate::vx::*;
use crate::spec::*;
verus! {
broadcast use crate::vx::group_vx;

/// r shows the message s: text outside brackets stays, a directive in brackets becomes some code (or
/// nothing), and an opening bracket that is never closed is text
#[verifier::opaque]
pub open spec fn shown(s: Seq<char>, r: Seq<char>) -> bool
    decreases s.len()
{
    if s.len() == 0 { r.len() == 0 }
    else if s[0] == '[' {
        match str_find(s, "]"@) {
            Some(e) if 0 <= e < s.len() => exists|a: int| #![trigger r.skip(a)] 0 <= a <= r.len() && shown(s.skip(e + 1), r.skip(a)),
            _ => r == s,
        }
    } else {
        match str_find(s, "["@) {
            Some(e) if 0 < e < s.len() => starts(r, s.take(e)) && shown(s.skip(e), r.skip(e)),
            _ => r == s,
        }
    }
}
pub proof fn lemma_find_char(s: Seq<char>, p: Seq<char>)
    requires p.len() == 1
    ensures match str_find(s, p) {
        Some(e) => 0 <= e < s.len() && s[e] == p[0] && forall|i: int| 0 <= i < e ==> s[i] != p[0],
        None => forall|i: int| 0 <= i < s.len() ==> s[i] != p[0],
    }
    decreases s.len()
{
    if s.len() > 0 {
        assert(starts(s, p) <==> s[0] == p[0]) by { if s[0] == p[0] { assert(s.take(1) =~= p); } else if starts(s, p) { assert(s.take(1)[0] == p[0]); } }
        if !starts(s, p) {
            let t = s.drop_first();
            lemma_find_char(t, p);
            assert forall|i: int| 1 <= i < s.len() implies s[i] == t[i - 1] by {}
            match str_find(t, p) {
                Some(e) => { assert(s[e + 1] == t[e]); assert forall|i: int| 0 <= i < e + 1 implies s[i] != p[0] by { if i > 0 { assert(t[i - 1] != p[0]); } } }
                None => { assert forall|i: int| 0 <= i < s.len() implies s[i] != p[0] by { if i > 0 { assert(t[i - 1] != p[0]); } } }
            }
        }
    } else { assert(!starts(s, p)); }
}
/// C20: text without brackets is shown unchanged
pub proof fn lemma_plain(s: Seq<char>, r: Seq<char>)
    requires shown(s, r), forall|i: int| 0 <= i < s.len() ==> s[i] != '['
    ensures r == s
{
    reveal_with_fuel(shown, 2);
    reveal_strlit("[");
    lemma_find_char(s, "["@);
    assert(r =~= s);
}
/// res shows the first k characters: whatever shows the rest completes it
#[verifier::opaque]
pub open spec fn so_far(msg: Seq<char>, k: int, res: Seq<char>) -> bool {
    forall|r: Seq<char>| shown(msg.skip(k), r) ==> #[trigger] shown(msg, res + r)
}
/// what the byte positions of the next brackets are
pub open spec fn pos(s: Seq<char>, k: int, i: int) -> bool { 0 <= k <= s.len() && i == blen(s.take(k)) }
pub proof fn lemma_pos(s: Seq<char>, k: int, i: int)
    requires pos(s, k, i)
    ensures
        is_boundary(s, i), char_at(s, i) == k, is_boundary(s, blen(s) as int), char_at(s, blen(s) as int) == s.len(), i <= blen(s),
        s.subrange(k, s.len() as int) == s.skip(k), i < blen(s) <==> k < s.len(),
{
    lemma_char_at(s, k);
    lemma_char_at(s, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    assert(s.subrange(k, s.len() as int) =~= s.skip(k));
    if k < s.len() { lemma_blen_take(s, k, s.len() as int); }
}
pub proof fn lemma_pos_add(s: Seq<char>, k: int, i: int, e: int)
    requires pos(s, k, i), 0 <= e <= s.len() - k
    ensures pos(s, k + e, i + blen(s.skip(k).take(e))), e == 0 ==> blen(s.skip(k).take(e)) == 0
{
    lemma_blen_add(s.take(k), s.skip(k).take(e));
    assert(s.take(k) + s.skip(k).take(e) =~= s.take(k + e));
    if e == 0 { assert(s.skip(k).take(0) =~= Seq::empty()); }
}
pub proof fn lemma_pos_one(s: Seq<char>, k: int, i: int)
    requires pos(s, k, i), k < s.len(), s[k] as u32 <= 127
    ensures pos(s, k + 1, i + 1)
{
    lemma_pos_add(s, k, i, 1);
    assert(s.skip(k).take(1) =~= seq![s[k]]);
    lemma_ascii_len(seq![s[k]]);
}
pub open spec fn next(s: Seq<char>, k: int, p: Seq<char>) -> Option<int> { str_find(s.skip(k), p) }
/// everything one round of the scanner needs about positions
pub proof fn lemma_round(s: Seq<char>, k: int, i: int)
    requires pos(s, k, i), k < s.len()
    ensures
        starts(s.skip(k), "["@) <==> s[k] == '[',
        match next(s, k, "["@) { Some(e) => 0 <= e < s.len() - k && s[k + e] == '[' && (s[k] != '[' ==> e > 0) && pos(s, k + e, i + blen(s.skip(k).take(e))), None => true },
        match next(s, k, "]"@) { Some(e) => 0 <= e < s.len() - k && s[k + e] == ']' && pos(s, k + e, i + blen(s.skip(k).take(e))) && pos(s, k + e + 1, i + blen(s.skip(k).take(e)) + 1) && (s[k] == '[' ==> e > 0), None => true },
        s[k] == '[' ==> pos(s, k + 1, i + 1),
        pos(s, s.len() as int, blen(s) as int),
{
    reveal_strlit("["); reveal_strlit("]");
    let q = s.skip(k);
    assert(q[0] == s[k]);
    if s[k] == '[' { assert(q.take(1) =~= "["@); lemma_pos_one(s, k, i); } else if starts(q, "["@) { assert(q.take(1)[0] == '['); }
    lemma_find_char(q, "["@);
    lemma_find_char(q, "]"@);
    match next(s, k, "["@) { Some(e) => { assert(q[e] == s[k + e]); lemma_pos_add(s, k, i, e); } None => {} }
    match next(s, k, "]"@) { Some(e) => { assert(q[e] == s[k + e]); lemma_pos_add(s, k, i, e); lemma_pos_one(s, k + e, i + blen(s.skip(k).take(e))); } None => {} }
    assert(s.take(s.len() as int) =~= s);
}
/// byte order of positions
pub proof fn lemma_pos_le(s: Seq<char>, j: int, a: int, k: int, b: int)
    requires pos(s, j, a), pos(s, k, b), j <= k
    ensures a <= b, is_boundary(s, a), is_boundary(s, b), char_at(s, a) == j, char_at(s, b) == k
{
    lemma_char_at(s, j); lemma_char_at(s, k);
    if j < k { lemma_blen_take(s, j, k); }
}
pub proof fn lemma_start(msg: Seq<char>)
    ensures so_far(msg, 0, Seq::empty())
{
    reveal(so_far);
    assert(msg.skip(0) =~= msg);
    assert forall|r: Seq<char>| shown(msg.skip(0), r) implies #[trigger] shown(msg, Seq::<char>::empty() + r) by { assert(Seq::<char>::empty() + r =~= r); }
}
pub proof fn lemma_intro(q: Seq<char>, cr: Seq<char>, a: int)
    requires q.len() > 0, q[0] == '[', str_find(q, "]"@) is Some, 0 <= str_find(q, "]"@).unwrap() < q.len(),
        0 <= a <= cr.len(), shown(q.skip(str_find(q, "]"@).unwrap() + 1), cr.skip(a))
    ensures shown(q, cr)
{
    reveal_with_fuel(shown, 2);
}
/// a closed directive: any code may stand for it
pub proof fn lemma_directive(msg: Seq<char>, k: int, res: Seq<char>, code: Seq<char>)
    requires so_far(msg, k, res), 0 <= k < msg.len(), msg[k] == '[', next(msg, k, "]"@) is Some
    ensures ({ let e = next(msg, k, "]"@).unwrap(); 0 <= e < msg.len() - k && so_far(msg, k + e + 1, res + code) })
{
    reveal(so_far);
    reveal_strlit("]");
    let q = msg.skip(k);
    lemma_find_char(q, "]"@);
    let e = str_find(q, "]"@).unwrap();
    assert(q[0] == msg[k]);
    assert(q.skip(e + 1) =~= msg.skip(k + e + 1));
    assert forall|r: Seq<char>| shown(msg.skip(k + e + 1), r) implies #[trigger] shown(msg, (res + code) + r) by {
        assert((code + r).skip(code.len() as int) =~= r);
        let cr = code + r;
        assert(shown(q.skip(e + 1), cr.skip(code.len() as int)));
        lemma_intro(q, cr, code.len() as int);
        assert((res + code) + r =~= res + (code + r));
    }
}
/// text up to the next opening bracket or the end
pub proof fn lemma_text(msg: Seq<char>, k: int, res: Seq<char>)
    requires so_far(msg, k, res), 0 <= k < msg.len(), msg[k] != '['
    ensures ({ let e = match next(msg, k, "["@) { Some(e) => e, None => msg.len() - k }; 0 < e <= msg.len() - k && so_far(msg, k + e, res + msg.subrange(k, k + e)) })
{
    reveal(so_far);
    reveal_strlit("[");
    let q = msg.skip(k);
    assert(q[0] == msg[k]);
    lemma_find_char(q, "["@);
    let e = match str_find(q, "["@) { Some(e) => e, None => msg.len() - k };
    let t = msg.subrange(k, k + e);
    assert(q.skip(e) =~= msg.skip(k + e));
    assert(q.take(e) =~= t);
    assert forall|r: Seq<char>| shown(msg.skip(k + e), r) implies #[trigger] shown(msg, (res + t) + r) by {
        assert((t + r).skip(e) =~= r);
        assert((t + r).take(e) =~= t);
        reveal_with_fuel(shown, 2);
        if str_find(q, "["@) is None { assert(r.len() == 0); assert(t + r =~= q); }
        assert(shown(q, t + r));
        assert((res + t) + r =~= res + (t + r));
    }
}
/// an opening bracket that is never closed
pub proof fn lemma_open(msg: Seq<char>, k: int, res: Seq<char>)
    requires so_far(msg, k, res), 0 <= k < msg.len(), msg[k] == '[', next(msg, k, "]"@) is None
    ensures shown(msg, res + msg.skip(k))
{
    reveal(so_far);
    reveal_with_fuel(shown, 2);
    assert(msg.skip(k)[0] == msg[k]);
    assert(shown(msg.skip(k), msg.skip(k)));
}
pub proof fn lemma_done(msg: Seq<char>, res: Seq<char>)
    requires so_far(msg, msg.len() as int, res)
    ensures shown(msg, res)
{
    reveal(so_far);
    reveal_with_fuel(shown, 2);
    assert(msg.skip(msg.len() as int) =~= Seq::empty());
    assert(shown(msg.skip(msg.len() as int), Seq::empty()));
    assert(res + Seq::<char>::empty() =~= res);
}
/// a message in the colour of success: it starts with "[color:bright-green]"
pub open spec fn success(s: Seq<char>) -> bool {
    s.len() >= 20 && s[0] == '[' && s[1] == 'c' && s[2] == 'o' && s[3] == 'l' && s[4] == 'o' && s[5] == 'r' && s[6] == ':'
    && s[7] == 'b' && s[8] == 'r' && s[9] == 'i' && s[10] == 'g' && s[11] == 'h' && s[12] == 't' && s[13] == '-'
    && s[14] == 'g' && s[15] == 'r' && s[16] == 'e' && s[17] == 'e' && s[18] == 'n' && s[19] == ']'
}
/// what was printed: the message and a reset
pub open spec fn printed(before: Seq<char>, msg: Seq<char>, after: Seq<char>) -> bool {
    exists|r: Seq<char>| #[trigger] shown(msg, r) && starts(after, before + r) && after.len() > before.len()
}
/// the files saved and not yet reported, after a message
pub open spec fn owed(before: int, msg: Seq<char>) -> int { if success(msg) { before - 1 } else { before } }
}
