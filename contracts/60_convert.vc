@fn calculator::program::Body::display
@ensures
    shows(ret@, self.translation@), //#C01
@fn calculator::program::Checksum::display
@ensures
    shows(ret@, num_text(self.value as int)), //#C07
@fn calculator::program::Program::to_string
@requires
    prog_wf(*self),
@ensures
    reports(ret@, *self), //#C07
    shows(ret@, self.body.translation@), //#C01 C07
@fn commands::convert::print_bytes
@requires
    bytes@.len() <= 0x7fff_0000, //#C18
@ensures
    final(vx_w)@ == (WV { out: final(vx_w)@.out, ..old(vx_w)@ }), //#C11 C12 C22
    final(vx_w)@.out == old(vx_w)@.out + dump(bytes@), //#C07
@begin
    proof { reveal(dump); reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); assert(bytes@.take(0) =~= Seq::empty()); assert(old(vx_w)@.out + dump(bytes@.take(0)) =~= old(vx_w)@.out); assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
@loop 0
    i == vx_i0, //#C18
    vx_all0 == bytes@, //#C18
    vx_w@ == (WV { out: vx_w@.out, ..old(vx_w)@ }), //#C11 C12 C22
    vx_w@.out == old(vx_w)@.out + dump(bytes@.take(vx_i0)), //#C07
@loop 0 begin
    proof { lemma_dump(bytes@, vx_i0 - 1); reveal_strlit(""); assert(""@ =~= Seq::empty()); }
@loop 0 end
    assert(vx_w@.out =~= old(vx_w)@.out + dump(bytes@.take(vx_i0 as int))); //#C07
@fn commands::convert::convert_program
@requires
    kind_of(input_path@) == Some(*program_file_type),
@ensures
    final(vx_w)@ == (WV { out: final(vx_w)@.out, ..old(vx_w)@ }), //#C11 C12 C22
    convert_loaded(old(vx_w)@.fs, input_path@, *program_file_type, display_mode, encode_mode, ret), //#C22 C01 C02 C07 C13 C14
    content_shown(*program_file_type, content, preview) ==> reports(final(vx_w)@.out, ret) && shows(final(vx_w)@.out, ret.body.translation@), //#C07 C01
    bytes_shown(*program_file_type, content, preview) ==> shows(final(vx_w)@.out, dump(all_bytes(ret))), //#C07
@fn commands::convert::convert_command
@rlimit 60
@requires
    old(vx_w)@.pending == 0,
    old(vx_w)@.outdir == (if mass && output_path_string is Some { Some(path_of(output_path_string.unwrap()@)) } else { None }),
@ensures
    !mass ==> converted(old(vx_w)@, final(vx_w)@, path_of(input_path_string@), output_path_string, display_mode_string@, encode_mode@, content, preview), //#C07 C01 C22 C11 C13 C14 C17
    mass && output_path_string is Some ==> only_in(old(vx_w)@.fs, final(vx_w)@.fs, path_of(output_path_string.unwrap()@)), //#C19
    mass && output_path_string is Some ==> mass_done(old(vx_w)@.fs, final(vx_w)@.fs, final(vx_w)@.spoiled, path_of(output_path_string.unwrap()@), display_mode_string@, encode_mode@), //#C17 C14 C07 C13 C22
    mass && output_path_string is None ==> final(vx_w)@.fs == old(vx_w)@.fs, //#C11 C19
    final(vx_w)@.pending == 0, //#C22
@begin
    broadcast use {crate::convert::lemma_only_one, crate::convert::lemma_mass_saved, crate::convert::lemma_mass_failed};
    let ghost (f0, od) = (vx_w@.fs, vx_w@.outdir);
    proof { if mass && output_path_string is Some { lemma_only_none(f0, od.unwrap()); lemma_mass_none(f0, vx_w@.spoiled, od.unwrap(), display_mode_string@, encode_mode@); } }
@loop 0
    vx_w@.pending == 0, //#C22
    vx_w@.outdir == od, //#C19
    od is Some ==> only_in(f0, vx_w@.fs, od.unwrap()), //#C19
    od is Some ==> mass_done(f0, vx_w@.fs, vx_w@.spoiled, od.unwrap(), display_mode_string@, encode_mode@), //#C17 C14 C07 C13 C22
    od is None ==> vx_w@.fs == f0, //#C11 C19
@fn commands::details::details_command
@ensures
    final(vx_w)@ == (WV { out: final(vx_w)@.out, err: final(vx_w)@.err, ..old(vx_w)@ }), //#C11 C12 C22
    kind_of(path_of(input_path_string@)) is Some && old(vx_w)@.fs.contains_key(file_at(path_of(input_path_string@))), //#C22
    loadable(old(vx_w)@.fs[file_at(path_of(input_path_string@))], kind_of(path_of(input_path_string@)).unwrap(), crate::calculator::DisplayMode::Accessible), //#C22
    details_shown(old(vx_w)@.fs, path_of(input_path_string@), final(vx_w)@.out), //#C07 C13
@fn commands::models::models_command
@ensures
    final(vx_w)@ == (WV { out: final(vx_w)@.out, ..old(vx_w)@ }), //#C11 C12 C22
@loop 0
    vx_w@ == (WV { out: vx_w@.out, ..old(vx_w)@ }), //#C11 C12 C22
