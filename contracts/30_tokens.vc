@fn calculator::tokens::OsVersion::new
@ensures
    ret.model == model && ret.version == version, //#C16
@fn calculator::tokens::OsVersion::latest
@ensures
    ret.model == Model::Latest && ret.version@ == "latest"@, //#C16 C21
@fn calculator::tokens::OsVersion::Ord::cmp
@closure 0
 ensures same(vx_r, ver_cmp(self.version@, other.version@))
@closure 1
 ensures same(vx_r, part_of(s@))
@closure 2
 ensures same(vx_r, part_of(s@))
@begin
    broadcast use crate::tab::lemma_lex_parts;
    proof { reveal_strlit("latest"); reveal_strlit(""); }
@fn calculator::tokens::Map::new
@ensures
    ret.map@ == vstd::imap::IMap::<Seq<char>, Translation>::empty(), //#C16
@fn calculator::tokens::Map::insert
@ensures
    final(self).map@ == old(self).map@.insert(key@, value), //#C16
@fn calculator::tokens::Map::get_value
@ensures
    ret is Some <==> self.map@.contains_key(key@), //#C01 C16
    ret is Some ==> *ret.unwrap() == self.map@[key@], //#C01 C16
@fn calculator::tokens::load_token_definitions
@ensures
    ok_is(ret, json_parse::<HashMap<String, Vec<TokenDefinition>>>(included("src/calculator/tokens/token_definitions.json"@))), //#C21
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@fn calculator::tokens::load_tokens
@rlimit 60
@ensures
    ret is Ok <==> sheet() is Some, //#C16 C01 C18
    ret is Ok ==> ret->Ok_0.map@ == table(target.model, target.version@), //#C16 C01 C02 C03 C21
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@begin
    let ghost (tm, tv) = (target.model, target.version@);
@closure 0
 ensures same(vx_r, since_ok(*token, tm, tv))
@closure 1
 ensures same(vx_r, until_ok(*token, tm, tv))
@closure 2
 ensures same(vx_r, since_ok(*token, tm, tv))
@closure 3
 ensures same(vx_r, until_ok(*token, tm, tv))
@loop 0 before
    proof { lemma_part0(sheet().unwrap()@, tm, tv, vx_all0); }
@loop 0
    map.map@ == part1(sheet().unwrap()@, tm, tv, vx_all0, vx_i0), //#C16
@loop 0 begin
    let ghost m0 = map.map@;
    let ghost (k0, d0) = vx_all0[vx_i0 - 1];
    proof { lemma_part1(sheet().unwrap()@, tm, tv, vx_all0, vx_i0); assert(key == k0 && token_data == d0); }
@loop 0 after
    proof { lemma_part_all(tm, tv, vx_all0); }
@loop 1 before
    proof { lemma_filters_any(d0->Single_0@, vx_all1, tm, tv); lemma_ins(m0, key_en(key@), vx_all1, 0); }
@loop 1
    map.map@ == ins(m0, key_en(key@), last_of(vx_all1, vx_i1)), //#C16
@loop 1 begin
    let ghost m1 = map.map@;
    let ghost l1 = token.langs@;
    proof { lemma_ins(m0, key_en(key@), vx_all1, vx_i1); assert(token == vx_all1[vx_i1 - 1]); }
@loop 2
    map.map@ == (if vx_i2 == 0 { m1 } else { m1.insert(key_en(key@), l1["en"@]) }), //#C16
@loop 2 begin
    proof { lemma_one_lang(vx_all2, l1); }
@loop 2 after
    proof { lemma_one_lang(vx_all2, l1); }
@loop 3 before
    proof { lemma_part2(sheet().unwrap()@, tm, tv, vx_all0, vx_i0, vx_all3, 0); }
@loop 3
    map.map@ == part2(sheet().unwrap()@, tm, tv, vx_all0, vx_i0 - 1, key@, vx_all3, vx_i3), //#C16
@loop 3 begin
    let ghost m3 = map.map@;
    let ghost (k3, ts3) = vx_all3[vx_i3 - 1];
    proof { lemma_part2(sheet().unwrap()@, tm, tv, vx_all0, vx_i0, vx_all3, vx_i3); assert(sub_key == k3 && tokens == ts3); }
@loop 3 after
    proof { lemma_part2(sheet().unwrap()@, tm, tv, vx_all0, vx_i0, vx_all3, vx_i3); }
@loop 4 before
    proof { lemma_filters_any(ts3@, vx_all4, tm, tv); lemma_ins(m3, key_en(full_key@), vx_all4, 0); }
@loop 4
    map.map@ == ins(m3, key_en(full_key@), last_of(vx_all4, vx_i4)), //#C16
@loop 4 begin
    let ghost m4 = map.map@;
    let ghost l4 = token.langs@;
    proof { lemma_ins(m3, key_en(full_key@), vx_all4, vx_i4); assert(token == vx_all4[vx_i4 - 1]); }
@loop 5
    map.map@ == (if vx_i5 == 0 { m4 } else { m4.insert(key_en(full_key@), l4["en"@]) }), //#C16
@loop 5 begin
    proof { lemma_one_lang(vx_all5, l4); }
@loop 5 after
    proof { lemma_one_lang(vx_all5, l4); }
@fn calculator::tokens::Map::get_longest_matching_token
@requires
    texts_ok(self.map@), //#C02 C18
@ensures
    ret is None ==> longest(self.map@, *display_mode, value@) is None && none_fits(self.map@, *display_mode, value@), //#C03 C02
    ret is Some ==> longest(self.map@, *display_mode, value@) == Some(ret.unwrap().0@), //#C03 C02 C21
    ret is Some ==> fits(self.map@, *display_mode, value@, ret.unwrap().0@), //#C02 C03 C21 C18
    ret is Some ==> ret.unwrap().1@ == rep(self.map@[ret.unwrap().0@], *display_mode), //#C02 C03
@loop 0
    longest_key@.len() == 0 ==> longest_length == 0 && forall|j: int| 0 <= j < vx_i0 ==> !fits(self.map@, *display_mode, value@, (#[trigger] vx_all0[j]).0@), //#C03
    longest_key@.len() > 0 ==> fits(self.map@, *display_mode, value@, longest_key@), //#C03 C02
    longest_key@.len() > 0 ==> longest_value@ == rep(self.map@[longest_key@], *display_mode), //#C03 C02
    longest_key@.len() > 0 ==> longest_length == tlen(self.map@, *display_mode, longest_key@), //#C03 C02
    longest_key@.len() > 0 ==> forall|j: int| 0 <= j < vx_i0 && fits(self.map@, *display_mode, value@, (#[trigger] vx_all0[j]).0@) ==> longer(self.map@, *display_mode, longest_key@, vx_all0[j].0@), //#C03
@loop 0 begin
    let ghost (kk, old_key) = (vx_all0[vx_i0 - 1].0@, longest_key@);
    proof {
        assert(token@ == kk && self.map@.contains_key(kk) && *translation == self.map@[kk]);
        assert(rep(self.map@[kk], *display_mode).len() > 0);
        lemma_blen_pos(rep(self.map@[kk], *display_mode));
        lemma_seq_cmp(kk, old_key);
        assert forall|j: int| 0 <= j < vx_i0 && seq_cmp(kk, old_key) == Ordering::Less implies seq_cmp(old_key, (#[trigger] vx_all0[j]).0@) == Ordering::Less ==> seq_cmp(kk, vx_all0[j].0@) == Ordering::Less by {
            if seq_cmp(old_key, vx_all0[j].0@) == Ordering::Less { lemma_seq_cmp_trans(kk, old_key, vx_all0[j].0@); }
        }
        lemma_seq_cmp_refl(kk);
        assert forall|j: int| 0 <= j < vx_i0 implies (seq_cmp(old_key, (#[trigger] vx_all0[j]).0@) == Ordering::Equal ==> old_key == vx_all0[j].0@) by { lemma_seq_cmp(old_key, vx_all0[j].0@); }
    }
@loop 0 after
    proof {
        assert forall|k: Seq<char>| #[trigger] fits(self.map@, *display_mode, value@, k) implies exists|j: int| 0 <= j < vx_all0.len() && (#[trigger] vx_all0[j]).0@ == k by { assert(self.map@.contains_key(k)); }
        if longest_key@.len() > 0 {
            assert forall|k: Seq<char>| #[trigger] fits(self.map@, *display_mode, value@, k) implies longer(self.map@, *display_mode, longest_key@, k) by {
                let j = choose|j: int| 0 <= j < vx_all0.len() && (#[trigger] vx_all0[j]).0@ == k;
                assert(vx_all0[j].0@ == k);
            }
            lemma_longest(self.map@, *display_mode, value@, longest_key@);
        } else { lemma_none_fits(self.map@, *display_mode, value@); }
    }
@begin
    proof { reveal_strlit(""); }
@fn calculator::tokens::Map::get_shortest_matching_token
@requires
    texts_ok(self.map@), //#C02 C18
@ensures
    ret is None ==> shortest(self.map@, *display_mode, value@) is None && none_fits(self.map@, *display_mode, value@), //#C03 C02
    ret is Some ==> shortest(self.map@, *display_mode, value@) == Some(ret.unwrap().0@), //#C03 C02 C21
    ret is Some ==> fits(self.map@, *display_mode, value@, ret.unwrap().0@), //#C02 C03 C21 C18
    ret is Some ==> ret.unwrap().1@ == rep(self.map@[ret.unwrap().0@], *display_mode), //#C02 C03
@loop 0
    shortest_key@.len() == 0 ==> shortest_length == 9999 && forall|j: int| 0 <= j < vx_i0 ==> !fits(self.map@, *display_mode, value@, (#[trigger] vx_all0[j]).0@), //#C03
    shortest_key@.len() > 0 ==> fits(self.map@, *display_mode, value@, shortest_key@), //#C03 C02
    shortest_key@.len() > 0 ==> shortest_value@ == rep(self.map@[shortest_key@], *display_mode), //#C03 C02
    shortest_key@.len() > 0 ==> shortest_length == tlen(self.map@, *display_mode, shortest_key@), //#C03 C02
    shortest_key@.len() > 0 ==> forall|j: int| 0 <= j < vx_i0 && fits(self.map@, *display_mode, value@, (#[trigger] vx_all0[j]).0@) ==> shorter(self.map@, *display_mode, shortest_key@, vx_all0[j].0@), //#C03
@loop 0 begin
    let ghost (kk, old_key) = (vx_all0[vx_i0 - 1].0@, shortest_key@);
    proof {
        assert(token@ == kk && self.map@.contains_key(kk) && *translation == self.map@[kk]);
        assert(rep(self.map@[kk], *display_mode).len() > 0);
        lemma_blen_pos(rep(self.map@[kk], *display_mode));
        lemma_seq_cmp(kk, old_key);
        assert forall|j: int| 0 <= j < vx_i0 && seq_cmp(kk, old_key) == Ordering::Less implies seq_cmp(old_key, (#[trigger] vx_all0[j]).0@) == Ordering::Less ==> seq_cmp(kk, vx_all0[j].0@) == Ordering::Less by {
            if seq_cmp(old_key, vx_all0[j].0@) == Ordering::Less { lemma_seq_cmp_trans(kk, old_key, vx_all0[j].0@); }
        }
        lemma_seq_cmp_refl(kk);
        assert forall|j: int| 0 <= j < vx_i0 implies (seq_cmp(old_key, (#[trigger] vx_all0[j]).0@) == Ordering::Equal ==> old_key == vx_all0[j].0@) by { lemma_seq_cmp(old_key, vx_all0[j].0@); }
    }
@loop 0 after
    proof {
        assert forall|k: Seq<char>| #[trigger] fits(self.map@, *display_mode, value@, k) implies exists|j: int| 0 <= j < vx_all0.len() && (#[trigger] vx_all0[j]).0@ == k by { assert(self.map@.contains_key(k)); }
        if shortest_key@.len() > 0 {
            assert forall|k: Seq<char>| #[trigger] fits(self.map@, *display_mode, value@, k) implies shorter(self.map@, *display_mode, shortest_key@, k) by {
                let j = choose|j: int| 0 <= j < vx_all0.len() && (#[trigger] vx_all0[j]).0@ == k;
                assert(vx_all0[j].0@ == k);
            }
            lemma_shortest(self.map@, *display_mode, value@, shortest_key@);
        } else { lemma_none_fits(self.map@, *display_mode, value@); }
    }
@begin
    proof { reveal_strlit(""); }
