@fn calculator::models::Model::display_models
@ensures
    final(vx_w)@ == (WV { out: final(vx_w)@.out, ..old(vx_w)@ }), //#C11 C12 C22
@fn commands::search::SearchTokenType::from_string
@ensures
    ret is Ok && ret->Ok_0 is Accessible <==> search_token_type@ == "accessible"@, //#C21
    ret is Ok && ret->Ok_0 is Pretty <==> search_token_type@ == "pretty"@, //#C21
    ret is Ok && ret->Ok_0 is Byte <==> search_token_type@ == "byte"@, //#C21
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@begin
    proof { reveal_strlit("accessible"); reveal_strlit("pretty"); reveal_strlit("byte"); }
@fn commands::search::fix_byte_format
@requires
    has_code(byte@),
@ensures
    ret@ == def_key(byte@), //#C21
@begin
    broadcast use crate::search::lemma_views_remove;
    proof { lemma_def_key(byte@); }
@fn commands::search::search_command
@ensures
    final(vx_w)@ == (WV { out: final(vx_w)@.out, err: final(vx_w)@.err, ..old(vx_w)@ }), //#C11 C12 C22
    wanted(token@, token_type_string@) is Some, //#C21
    explains(old(vx_w)@.out, final(vx_w)@.out, wanted(token@, token_type_string@).unwrap()), //#C21
@begin
    let ghost t = table(crate::calculator::models::Model::Latest, "latest"@);
    proof {
        reveal_strlit("accessible"); reveal_strlit("pretty"); reveal_strlit("byte"); reveal_strlit("\n");
        assert(table_ok(t));
        assert forall|k: Seq<char>| #[trigger] t.contains_key(k) implies has_code(k) by { lemma_has_code(t, k); }
    }
@loop 0 before
    let ghost (o0, all) = (vx_w@.out, token_definition@);
    proof { assert(o0 + entries(all, 0) =~= o0); }
@loop 0
    vx_w@ == (WV { out: o0 + entries(all, vx_i0), ..vx_w@ }), //#C21
    vx_w@ == (WV { out: vx_w@.out, err: vx_w@.err, ..old(vx_w)@ }), //#C21 C22
@loop 0 begin
    proof { assert(*vx_all0[vx_i0 - 1] == all[vx_i0 - 1]); }
@loop 0 end
    proof { assert(vx_w@.out =~= o0 + entries(all, vx_i0)); }
