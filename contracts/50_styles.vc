@fn styles_prints::prints_message
@rlimit 40
@attr #[verifier::allow_complex_invariants]
@requires
    success(vx_message@) ==> old(vx_w)@.pending > 0, //#C22
@ensures
    final(vx_w)@ == (WV { out: final(vx_w)@.out, pending: owed(old(vx_w)@.pending, vx_message@), ..old(vx_w)@ }), //#C20 C22 C12 C11 C19
    printed(old(vx_w)@.out, vx_message@, final(vx_w)@.out), //#C20
@begin
    let ghost msg = vx_message@;
    let ghost mut k: int = 0;
    proof { reveal_strlit("["); reveal_strlit("]"); lemma_start(msg); assert(msg.take(0) =~= Seq::empty()); }
@loop 0 except_break
    so_far(msg, k, result@), //#C20
@loop 0
    pos(msg, k, i as int), //#C20
    len == blen(msg), //#C20
    styled_string@ == msg, //#C20
    vx_w@ == old(vx_w)@, //#C20
@loop 0 ensures
    shown(msg, result@), //#C20
@loop 0 decreases
    msg.len() - k
@loop 0 begin
    let ghost (k0, i0, res0) = (k, i as int, result@);
    proof {
        lemma_pos(msg, k, i as int);
        lemma_round(msg, k, i as int);
        if msg[k] == '[' {
            match next(msg, k, "]"@) {
                Some(e) => { lemma_pos_le(msg, k + 1, i + 1, k + e, i + blen(msg.skip(k).take(e))); lemma_pos(msg, k + e + 1, i + blen(msg.skip(k).take(e)) + 1); }
                None => { lemma_open(msg, k, result@); }
            }
        } else {
            lemma_text(msg, k, result@);
            match next(msg, k, "["@) {
                Some(e) => { let b = i + blen(msg.skip(k).take(e)); lemma_pos_le(msg, k, i as int, k + e, b); lemma_pos_le(msg, k + e, b, msg.len() as int, blen(msg) as int); }
                None => { lemma_pos_le(msg, k, i as int, msg.len() as int, blen(msg) as int); }
            }
        }
    }
@loop 0 after
    proof { lemma_pos(msg, k, i as int); if k >= msg.len() { lemma_done(msg, result@); } }
@loop 0 end
    proof {
        if msg[k0] == '[' {
            let code = result@.skip(res0.len() as int);
            assert(result@ =~= res0 + code);
            lemma_directive(msg, k0, res0, code);
            k = k0 + next(msg, k0, "]"@).unwrap() + 1;
        } else {
            k = k0 + match next(msg, k0, "["@) { Some(e) => e, None => msg.len() - k0 };
        }
    }
@end
    proof {
        let o = old(vx_w)@.out;
        assert(vx_w@.out.take((o + result@).len() as int) =~= o + result@);
        vx_set_pending(vx_w, owed(old(vx_w)@.pending, msg));
    }
