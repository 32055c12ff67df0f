@fn calculator::EncodeMode::from_string
@ensures
    ok_is(ret, emode_of(encode_mode@)), //#C22 C03
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@fn calculator::DisplayMode::from_string
@ensures
    ok_is(ret, dmode_of(display_mode@)), //#C17 C22
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@fn calculator::DisplayMode::to_string
@ensures
    ret@ == dmode_name(*self), //#C17

@fn calculator::errors::TiToolsError::print
@ensures
    ret == self, //#C22
    final(vx_w)@ == (WV { err: final(vx_w)@.err, ..old(vx_w)@ }), //#C22 C12 C11 C19
    final(vx_w)@.err.len() > 0, //#C22
    tells(self, final(vx_w)@.err), //#C22
@fn calculator::errors::TiToolsError::to_string
@ensures
    tells(*self, ret@), //#C22
@fn calculator::errors::TiToolsError::exit
@requires
    self is Quit ==> declined(old(vx_w)@), //#C22
    !(self is Quit) ==> old(vx_w)@.out.len() + old(vx_w)@.err.len() > 0, //#C22

@fn calculator::models::ModelDetails::new
@ensures
    ret.model == model, //#C15
    ret.signature@ == signature@, //#C15
    ret.product_id == product_id, //#C15
    ret.language@ == language@, //#C15
@fn calculator::models::ModelDetails::from_byte
@ensures
    ret is Ok <==> details_of(byte, signature@) is Some, //#C15 C07
    ret is Ok ==> Some(ret->Ok_0.model) == details_of(byte, signature@) && details_ok(ret->Ok_0) && ret->Ok_0.product_id == byte, //#C15 C07 C01
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@begin
    proof { reveal_strlit("**TI82**"); reveal_strlit("**TI83**"); reveal_strlit("**TI83F*"); }
@fn calculator::models::ModelDetails::from_model
@ensures
    ret.model == *model, //#C15 C05
    details_ok(ret), //#C15 C05
@fn calculator::models::Model::PartialEq::eq
@begin
    proof { lemma_model_names_distinct(*self, *other); }
@fn calculator::models::Model::from_string
@ensures
    ret == model_from(model@), //#C15 C05 C17 C14
@fn calculator::models::Model::to_string
@ensures
    ret@ == model_name(*self), //#C15 C17 C14
@fn calculator::models::Model::model_order
@ensures
    ret == model_rank(*self), //#C16

@fn calculator::program::ProgramFileType::is_8xp
@ensures
    ret == !(*self is TXT),
@fn calculator::program::ProgramFileType::is_txt
@ensures
    ret == (*self is TXT),
@fn calculator::program::ProgramFileType::is_json
@ensures
    ret == (*self is JSON),
@fn calculator::program::get_file_type
@ensures
    ok_is(ret, kind_of(path@)), //#C11 C13 C22
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@fn calculator::program::FileType::from_byte
@ensures
    ok_is(ret, ftype_from(byte)), //#C07
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@fn calculator::program::FileType::to_byte
@ensures
    ret == ftype_byte(*self), //#C10 C05
@fn calculator::program::FileType::from_string
@ensures
    ok_is(ret, ftype_of(file_type@)), //#C05 C17
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@fn calculator::program::FileType::to_string
@ensures
    ret@ == ftype_name(*self), //#C17
@fn calculator::program::Destination::from_byte
@ensures
    ok_is(ret, dest_from(byte)), //#C07
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@fn calculator::program::Destination::to_byte
@ensures
    ret == dest_byte(*self), //#C10 C05 C13
@fn calculator::program::Destination::from_string
@ensures
    ok_is(ret, dest_of(archived@)), //#C05 C17
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@fn calculator::program::Destination::to_string
@ensures
    ret@ == dest_name(*self), //#C17

@fn calculator::program::Checksum::calculate
@ensures
    ret == checksum_of(metadata_bytes@, body_bytes@), //#C06
@loop 0
    sum as int == byte_sum(metadata_bytes@.take(vx_i0)) % 65536, //#C06
@loop 0 begin
    proof { lemma_sum_step(metadata_bytes@, vx_i0); }
@loop 0 after
    proof { assert(metadata_bytes@.take(metadata_bytes@.len() as int) =~= metadata_bytes@); assert(byte_sum(body_bytes@.take(0)) == 0); }
@loop 1
    sum as int == (byte_sum(metadata_bytes@) + byte_sum(body_bytes@.take(vx_i1))) % 65536, //#C06
@loop 1 begin
    proof { lemma_sum_step(body_bytes@, vx_i1); }
@loop 1 after
    proof { assert(body_bytes@.take(body_bytes@.len() as int) =~= body_bytes@); }
@fn calculator::program::Checksum::new
@ensures
    ret.bytes == bytes,
    ret.value == value,
@fn calculator::program::Body::new
@ensures
    ret.bytes == bytes,
    ret.translation == translation,
@fn calculator::program::Metadata::new
@ensures
    ret == (Metadata { bytes, flag, unknown_byte, body_and_checksum_length, file_type, name, version, destination, body_and_checksum_length_copy, body_length }), //#C07 C05 C13
@fn calculator::program::Header::new
@ensures
    ret == (Header { bytes, signature, signature_extra, product_id, comment, metadata_and_body_length }), //#C07 C05

@fn calculator::program::Header::comment
@requires
    old(self).bytes@.len() == 55,
@ensures
    ret is Ok <==> blen(comment@) <= 42, //#C09
    ret is Ok ==> commented(*old(self), comment@, *final(self)), //#C09
    ret is Err ==> *final(self) == *old(self), //#C09
    final(self).bytes@.len() == 55, //#C09 C06
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@loop 0
    encode_utf8(comment@).len() <= comment_bytes@.len() <= 42, //#C09
    comment_bytes@ =~= zero_pad(encode_utf8(comment@), comment_bytes@.len() as int), //#C09
@loop 0 decreases
    42 - comment_bytes@.len()
@fn calculator::program::Metadata::rename
@requires
    old(self).bytes@.len() == 19,
@ensures
    ret is Ok <==> valid_name(name@), //#C08
    ret is Ok ==> renamed(*old(self), name@, *final(self)), //#C08
    ret is Err ==> *final(self) == *old(self), //#C08
    final(self).bytes@.len() == 19, //#C08 C06
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@begin
    proof { let n0 = name@; if all_alpha(name@) { lemma_name_len(name@); } }
@loop 0
    encode_utf8(name@).len() <= name_bytes@.len() <= 8, //#C08
    name_bytes@ =~= zero_pad(encode_utf8(name@), name_bytes@.len() as int), //#C08
@loop 0 decreases
    8 - name_bytes@.len()
@fn calculator::program::Metadata::to_short_bytes
@requires
    self.bytes@.len() == 19,
    body_length + 2 <= 65535,
@ensures
    ret@ == short_meta(self.bytes@, body_length as int), //#C13 C06
@fn calculator::program::Metadata::lock
@requires
    old(self).bytes@.len() == 19,
@ensures
    with_type(*old(self), FileType::LockedProgram, *final(self)), //#C10
    final(self).bytes@.len() == 19, //#C10 C06
@fn calculator::program::Metadata::unlock
@requires
    old(self).bytes@.len() == 19,
@ensures
    with_type(*old(self), FileType::Program, *final(self)), //#C10
    final(self).bytes@.len() == 19, //#C10 C06
@fn calculator::program::Metadata::archive
@requires
    old(self).bytes@.len() == 19,
@ensures
    with_dest(*old(self), Destination::Archive, *final(self)), //#C10
    final(self).bytes@.len() == 19, //#C10 C06
@fn calculator::program::Metadata::unarchive
@requires
    old(self).bytes@.len() == 19,
@ensures
    with_dest(*old(self), Destination::RAM, *final(self)), //#C10
    final(self).bytes@.len() == 19, //#C10 C06

@fn calculator::program::write_to_file
@requires
    may_write(old(vx_w)@, path@), //#C11 C19
@ensures
    ret is Ok ==> final(vx_w)@ == (WV { fs: old(vx_w)@.fs.insert(file_at(path@), content.bv()), spoiled: old(vx_w)@.spoiled.remove(file_at(path@)), pending: old(vx_w)@.pending + 1, saved: Some(file_at(path@)), ..old(vx_w)@ }), //#C11 C22 C12
    ret is Err ==> final(vx_w)@ == (WV { fs: final(vx_w)@.fs, spoiled: old(vx_w)@.spoiled.insert(file_at(path@)), ..old(vx_w)@ }), //#C11 C22
    ret is Err ==> final(vx_w)@.fs.remove(file_at(path@)) == old(vx_w)@.fs.remove(file_at(path@)), //#C11
    ret is Err ==> !(ret->Err_0 is Quit), //#C22

@fn calculator::program::Program::save_to
@requires
    prog_wf(*self),
    old(vx_w)@.outdir is Some && kind_of(path@) is Some ==> direct_child(old(vx_w)@.outdir.unwrap(), path@), //#C19
@ensures
    ret is Ok ==> kind_of(path@) is Some && final(vx_w)@.fs == old(vx_w)@.fs.insert(file_at(path@), saved_bytes(*self, kind_of(path@).unwrap())), //#C06 C07 C11 C13 C14 C17
    ret is Ok && old(vx_w)@.fs.contains_key(file_at(path@)) ==> final(vx_w)@.answers.len() > old(vx_w)@.answers.len() && said_yes(final(vx_w)@), //#C11
    ret is Ok ==> final(vx_w)@.pending == old(vx_w)@.pending + 1 && final(vx_w)@.saved == Some(file_at(path@)), //#C22 C12
    ret is Err ==> final(vx_w)@.pending == old(vx_w)@.pending, //#C22
    final(vx_w)@.fs.remove(file_at(path@)) == old(vx_w)@.fs.remove(file_at(path@)), //#C11
    old(vx_w)@.fs.contains_key(file_at(path@)) && final(vx_w)@.fs != old(vx_w)@.fs ==> final(vx_w)@.answers.len() > old(vx_w)@.answers.len() && said_yes(final(vx_w)@), //#C11
    kind_of(path@) is None ==> ret is Err && final(vx_w)@.fs == old(vx_w)@.fs && final(vx_w)@.answers == old(vx_w)@.answers, //#C11
    ret is Err && ret->Err_0 is Quit ==> declined(final(vx_w)@), //#C22
    save_step(old(vx_w)@, final(vx_w)@, path@, *self, ret is Ok), //#C17 C14 C07 C13 C22
    forall|s: Seq<char>| shows(old(vx_w)@.out, s) ==> #[trigger] shows(final(vx_w)@.out, s), //#C07
    final(vx_w)@.dirs == old(vx_w)@.dirs && final(vx_w)@.outdir == old(vx_w)@.outdir && final(vx_w)@.err == old(vx_w)@.err, //#C11 C19 C22
@begin
    proof { reveal_strlit("y"); reveal_strlit("Y"); vx_set_target(vx_w, file_at(path@)); }
@fn calculator::models::Model::Serialize::serialize
@ensures
    ret is Ok ==> S::wrote(ret->Ok_0, model_name(*self)), //#C14
@fn calculator::tokens::Model::Deserialize::deserialize
@ensures
    ret is Ok ==> deserializer.held() is Some && ret->Ok_0 == model_from(deserializer.held().unwrap()), //#C14 C16
