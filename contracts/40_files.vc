@fn calculator::file::decode::decode
@rlimit 60
@ensures
    ok_is_text(ret, dec(map.map@, lang@, *mode, bytestream@)), //#C01 C02
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@begin
    let ghost (t, all) = (map.map@, bytestream@);
    proof { reveal_strlit("$"); reveal_strlit(" "); assert(all.skip(0) =~= all); }
@loop 0
    index <= all.len(), //#C01
    current_bytes@.len() <= 2 && current_bytes@.len() <= index, //#C01
    current_bytes@ =~= all.subrange(index - current_bytes@.len(), index as int), //#C01
    current_bytes@.len() >= 1 ==> !t.contains_key(key1(current_bytes@[0]) + " "@ + lang@), //#C01
    current_bytes@.len() == 2 ==> !t.contains_key(key2(current_bytes@[0], current_bytes@[1]) + " "@ + lang@), //#C01
    dec(t, lang@, *mode, all) == prepend(decoded_program@, dec(t, lang@, *mode, all.skip(index - current_bytes@.len()))), //#C01
@loop 0 decreases
    all.len() - index
@loop 0 begin
    let ghost (d0, j0) = (decoded_program@, index - current_bytes@.len());
    proof {
        lemma_dec_step(t, lang@, *mode, all, j0);
        if current_bytes@.len() >= 1 { assert(current_bytes@[0] == all[j0]); }
        if current_bytes@.len() == 2 { assert(current_bytes@[1] == all[j0 + 1]); }
    }
@loop 0 end
    proof { if current_bytes@.len() == 0 { lemma_prepend(d0, decoded_program@.skip(d0.len() as int), dec(t, lang@, *mode, all.skip(index as int))); assert(d0 + decoded_program@.skip(d0.len() as int) =~= decoded_program@); } }
@loop 0 after
    proof { if current_bytes@.len() > 0 { lemma_dec_step(t, lang@, *mode, all, index - current_bytes@.len()); } else { lemma_dec_step(t, lang@, *mode, all, index as int); assert(decoded_program@ + Seq::<char>::empty() =~= decoded_program@); } }
@fn calculator::file::from_8xp::create_from_8xp
@rlimit 60
@ensures
    final(vx_w)@ == old(vx_w)@, //#C11 C12 C22
    ret is Ok ==> old(vx_w)@.fs.contains_key(file_at(path@)), //#C07 C22
    ret is Ok ==> loadable(old(vx_w)@.fs[file_at(path@)], file_type, *display_mode), //#C01 C07 C18
    ret is Ok ==> header_is(old(vx_w)@.fs[file_at(path@)], ret->Ok_0.0), //#C07 C13
    ret is Ok ==> metadata_is(old(vx_w)@.fs[file_at(path@)], file_type, ret->Ok_0.1), //#C07 C13
    ret is Ok ==> body_is(old(vx_w)@.fs[file_at(path@)], file_type, *display_mode, ret->Ok_0.2), //#C01 C07 C13
    ret is Ok ==> checksum_is(old(vx_w)@.fs[file_at(path@)], ret->Ok_0.3), //#C07 C13
    ret is Ok ==> Some(ret->Ok_0.4.model) == file_model(old(vx_w)@.fs[file_at(path@)]) && details_ok(ret->Ok_0.4), //#C15 C01
    ret is Err ==> ret->Err_0 is FileRead || !loadable(old(vx_w)@.fs[file_at(path@)], file_type, *display_mode), //#C01 C07 C13
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@begin
    broadcast use crate::spec::lemma_nonzero;
    broadcast use crate::spec::lemma_chars;
    let ghost s = vx_w@.fs[file_at(path@)];
    proof {
        if s.len() >= 57 + meta_len(file_type) {
            let r = s.subrange(55, s.len() as int);
            assert(s.subrange(0, 55) =~= s.take(55));
            assert(s.subrange(0, 55).subrange(0, 8) =~= s.take(8));
            assert(s.subrange(0, 55).subrange(11, 53) =~= s.subrange(11, 53));
            assert(r.subrange(0, meta_len(file_type)) =~= s.subrange(55, 55 + meta_len(file_type)));
            assert(s.subrange(55, 55 + meta_len(file_type)).subrange(5, 13) =~= s.subrange(60, 68));
            let q = r.subrange(meta_len(file_type), r.len() as int);
            assert(q =~= s.subrange(55 + meta_len(file_type), s.len() as int));
            assert(q.subrange(0, q.len() - 2) =~= file_body(s, file_type));
            assert(q.subrange(q.len() - 2, q.len() as int) =~= s.skip(s.len() - 2));
        }
    }
@fn calculator::program::Program::load_from_8xp
@ensures
    final(vx_w)@ == old(vx_w)@, //#C11 C12 C22
    ret is Ok ==> old(vx_w)@.fs.contains_key(file_at(path@)) && kind_of(path@) is Some, //#C07 C22
    ret is Ok ==> loaded(old(vx_w)@.fs[file_at(path@)], kind_of(path@).unwrap(), display_mode, ret->Ok_0), //#C01 C07 C13 C15
    ret is Ok ==> prog_wf(ret->Ok_0), //#C06 C18
    ret is Err && old(vx_w)@.fs.contains_key(file_at(path@)) && kind_of(path@) is Some ==> ret->Err_0 is FileRead || !loadable(old(vx_w)@.fs[file_at(path@)], kind_of(path@).unwrap(), display_mode), //#C01 C07 C13
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@fn calculator::file::encode::EncodeState::new
@ensures
    ret.current_mode == mode && ret.default_mode == mode && ret.last_token_key@.len() == 0, //#C03
@fn calculator::file::encode::EncodeState::default_is_smart
@ensures
    ret == (*self.default_mode is Smart), //#C03
@fn calculator::file::encode::EncodeState::reset
@ensures
    final(self).current_mode == old(self).default_mode && final(self).default_mode == old(self).default_mode && final(self).last_token_key@.len() == 0, //#C03
@fn calculator::file::encode::normalize
@ensures
    ret@ == normal(string@), //#C02
@begin
    broadcast use crate::enc::lemma_normal;
    broadcast use crate::enc::lemma_normal_set;
    proof { reveal_strlit("θ"); assert("θ"@ =~= seq!['θ']);
        assert(['\u{0398}', '\u{03F4}', '\u{1DBF}']@[0] == '\u{0398}');
    }
@fn calculator::file::encode::convert_key_to_bytes
@requires
    has_code(key@), //#C02 C18
@ensures
    ret@ == code_of(key@), //#C02 C03
@begin
    let ghost k0 = key@;
    let ghost parts = str_split(k0.take(k0.len() - 3), "$"@);
    proof { lemma_key_parts(key@); assert(is_code(k0, code_of(k0))); reveal_strlit(""); }
@loop 0
    bytes@ =~= code_of(k0).take(vx_i0), //#C02 C03
@loop 0 begin
    proof {
        let i = vx_i0 - 1;
        assert(parts[i + 1] == hex2(code_of(k0)[i]));
        assert(strs(vx_all0)[i] == parts[i + 1]);
    }
@fn calculator::file::encode::encode
@rlimit 60
@requires
    table_ok(tokens.map@), //#C02 C18
@ensures
    ret is Ok ==> enc(tokens.map@, display_mode, *encode_mode, perform_normalize, decoded_program@) == Some(ret->Ok_0@), //#C03 C02
    ret is Ok ==> dec(tokens.map@, "en"@, display_mode, ret->Ok_0@) == Some(str_join(enc_text_lines(perform_normalize, decoded_program@), newline(tokens.map@, display_mode))), //#C02
    ret is Err ==> enc(tokens.map@, display_mode, *encode_mode, perform_normalize, decoded_program@) is None, //#C02 C03
    ret is Err ==> some_stuck(tokens.map@, display_mode, enc_text_lines(perform_normalize, decoded_program@)), //#C02
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@begin
    let ghost (t, dm, e, ls) = (tokens.map@, display_mode, *encode_mode, enc_text_lines(perform_normalize, decoded_program@));
    proof { if enc(t, dm, e, perform_normalize, decoded_program@) is Some { lemma_round_trip(t, dm, e, perform_normalize, decoded_program@); } }
@loop 0 before
    proof { reveal_with_fuel(enc_lines, 1); }
@loop 0
    enc_lines(t, dm, e, ls, vx_i0) == Some(encoded_program@), //#C02 C03
    state.current_mode == encode_mode && state.default_mode == encode_mode && state.last_token_key@.len() == 0, //#C03
@loop 0 begin
    let ghost (line0, gline) = (encoded_program@, ls[vx_i0 - 1]);
    proof {
        assert(strs(vx_all0)[vx_i0 - 1] == line@);
        assert(gline.skip(0) =~= gline);
        assert(state.last_token_key@ =~= Seq::<u8>::empty());
        lemma_enc_line_end(t, dm, e, ls, vx_i0 - 1, line0);
        if line_code(t, dm, e, gline) is None { lemma_enc_none(t, dm, e, ls, vx_i0 - 1, ls.len() as int); }
    }
@loop 0 end
    proof { assert(encoded_program@ =~= line0 + line_code(t, dm, e, gline).unwrap() + seq![0x3Fu8]); }
@loop 1 before
    let ghost mut done: int = 0;
    proof { assert(line0 + Seq::<u8>::empty() =~= line0); }
@loop 1
    0 <= done <= gline.len(), //#C02
    temp_line@ =~= gline.skip(done), //#C02
    before(line0, line_code(t, dm, e, gline)) == before(encoded_program@, enc_line(t, dm, e, *state.current_mode, state.last_token_key@, temp_line@)), //#C02 C03
    state.default_mode == encode_mode, //#C03
@loop 1 decreases
    temp_line@.len()
@loop 1 begin
    let ghost (s0, cur0, last0, enc0) = (temp_line@, *state.current_mode, state.last_token_key@, encoded_program@);
    proof {
        lemma_enc_step(t, dm, e, cur0, last0, s0);
        if pick(t, dm, cur0, s0) is Some {
            let k = pick(t, dm, cur0, s0).unwrap();
            if fits(t, dm, s0, k) {
                lemma_cut(s0, rep(t[k], dm));
                lemma_one(last0, 0x5F); lemma_one(last0, 0xEB); lemma_one(code_of(k), 0x2A); lemma_one(code_of(k), 0x04);
                lemma_dec_code(t, dm, k, Seq::empty());
                lemma_before(enc0, code_of(k), enc_line(t, dm, e, mode_after(e, cur0, last0, code_of(k), rep(t[k], dm)), code_of(k), s0.skip(rep(t[k], dm).len() as int)));
            }
        }
        if none_fits(t, dm, s0) { lemma_stuck(t, dm, ls, vx_i0 - 1, done); }
    }
@loop 1 end
    proof { done = gline.len() - temp_line@.len(); }
@loop 1 after
    proof { lemma_enc_step(t, dm, e, *state.current_mode, state.last_token_key@, temp_line@); }
@fn calculator::file::from_txt::create_comment
@ensures
    blen(ret@) <= 42, //#C05 C18
    ret@ == created_by(), //#C05
@begin
    broadcast use crate::tab::lemma_blen_add;
    proof { reveal_strlit("Created by TI-Tools "); lemma_ascii_len("Created by TI-Tools "@); }
@fn calculator::file::from_txt::create_from_txt
@rlimit 60
@ensures
    final(vx_w)@ == old(vx_w)@, //#C11 C12 C22
    ret is Ok ==> old(vx_w)@.fs.contains_key(file_at(path@)), //#C05 C22
    ret is Ok ==> txt_ok(file_text_of(old(vx_w)@.fs[file_at(path@)]), *encode_mode), //#C05 C02 C03
    ret is Ok ==> from_text(file_text_of(old(vx_w)@.fs[file_at(path@)]), *encode_mode, ret->Ok_0.0, ret->Ok_0.1, ret->Ok_0.2, ret->Ok_0.3, ret->Ok_0.4, ret->Ok_0.5), //#C05 C15 C17
    ret is Err ==> ret->Err_0 is FileRead || !txt_ok(file_text_of(old(vx_w)@.fs[file_at(path@)]), *encode_mode), //#C05 C02
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@begin
    broadcast use crate::txt::lemma_sum_q;
    broadcast use crate::txt::lemma_le32;
    broadcast use crate::txt::lemma_views;
    broadcast use crate::txt::lemma_strs_skip;
    broadcast use crate::txt::lemma_file_text;
@loop 0 before
    let ghost comment0 = comment@;
@loop 0
    comment0.len() <= comment@.len() <= 42, //#C05
    comment@ =~= zero_pad(comment0, comment@.len() as int), //#C05
@loop 0 decreases
    42 - comment@.len()
@loop 1
    encode_utf8(name@).len() <= name_bytes@.len() <= 8, //#C05
    name_bytes@ =~= zero_pad(encode_utf8(name@), name_bytes@.len() as int), //#C05
@loop 1 decreases
    8 - name_bytes@.len()
