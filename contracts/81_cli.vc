@fn cli::Cli::new
@ensures
    ret.commands@.len() == 0 && ret.default_command is None, //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@fn cli::Cli::with_command
@ensures
    ret.commands@ == self.commands@.push(command) && ret.default_command == self.default_command, //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@fn cli::Cli::match_commands
@ensures
    final(vx_w)@ == old(vx_w)@, //#C22
    args().len() > 1, //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
    command_of(self.commands@, args()[1]) == Some(*ret), //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@requires
    self.default_command is None,
@begin
    broadcast use crate::cmdline::group_cli;
@fn cli::Cli::help
@decreases (if command_name is Some { 1int } else { 0int }), 1int
@ensures
    final(vx_w)@ == (WV { out: final(vx_w)@.out, ..old(vx_w)@ }), //#C11 C12 C22
@fn cli::Cli::version
@ensures
    final(vx_w)@ == (WV { out: final(vx_w)@.out, ..old(vx_w)@ }), //#C11 C12 C22
@fn cli::Command::new
@ensures
    ret.name@ == name@ && ret.options@.len() == 0 && ret.args@.len() == 0, //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@fn cli::Command::with_option
@ensures
    ret.options@ == self.options@.push(option) && ret == (Command { options: ret.options, ..self }), //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@fn cli::Command::with_arg
@ensures
    ret.args@ == self.args@.push(arg) && ret == (Command { args: ret.args, ..self }), //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@fn cli::Command::check_if_required_args_are_present
@requires
    args_wf(self.args@, *arg),
    texts_are(env_args@, args()),
@ensures
    final(vx_w)@ == old(vx_w)@, //#C22
    required_given(self.args@, *arg), //#C12
@begin
    broadcast use crate::cmdline::group_cli;
@loop 0
    vx_w@ == old(vx_w)@, //#C22
    forall|j: int| 0 <= j < vx_i0 ==> has_flag(self.args@, (#[trigger] arg.requires.unwrap()@[j])@), //#C12
@closure 0
    ensures same(vx_r, (s@ == "-"@ + seq![required_arg.short]))
@closure 1
    ensures same(vx_r, (s@ == "--"@ + required_arg.long@))
@fn cli::Command::find_arg
@ensures
    ret is Some <==> arg_of(self.args@, arg_name@) is Some, //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
    ret is Some ==> Some(*ret.unwrap()) == arg_of(self.args@, arg_name@), //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@begin
    broadcast use crate::cmdline::group_cli;
@fn cli::Command::has
@requires
    arg_of(self.args@, arg_name@) is Some ==> args_wf(self.args@, arg_of(self.args@, arg_name@).unwrap()),
@ensures
    final(vx_w)@ == old(vx_w)@, //#C22
    ret == has_flag(self.args@, arg_name@), //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
    ret ==> required_given(self.args@, arg_of(self.args@, arg_name@).unwrap()), //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@begin
    broadcast use crate::cmdline::group_cli;
@closure 2
    ensures same(vx_r, is_flag(arg.short, arg.long@, s@))
@fn cli::Command::get_option
@requires
    opt_of(self.options@, option_name@) is Some && self.options@.len() < 0x1000_0000,
@ensures
    value_is(ret, option_value(self.options@, option_name@)), //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@begin
    broadcast use crate::cmdline::group_cli;
@closure 1
    type Option<Value>
    requires vx_c0.0 < 0x1000_0000
    ensures vx_r is Some, value_is(vx_r.unwrap(), at_place(vx_c0.0 as int, vx_c0.1.required))
@fn cli::Command::get_arg
@ensures
    value_is(ret, arg_value(self.args@, arg_name@)), //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@begin
    broadcast use crate::cmdline::group_cli;
@closure 1
    type Option<String>
    ensures vx_r is Some <==> flag_value(*arg) is Some, vx_r is Some ==> Some(vx_r.unwrap()@) == flag_value(*arg)
@closure 2
    ensures same(vx_r, is_flag(arg.short, arg.long@, s@))
@closure 3
    type Option<&String>
    requires index < args@.len()
    ensures vx_r is Some <==> index + 1 < args@.len(), vx_r is Some ==> *vx_r.unwrap() == args@[index + 1]
@closure 4
    type Option<&String>
    ensures vx_r is Some <==> arg.default_value is Some, vx_r is Some ==> *vx_r.unwrap() == arg.default_value.unwrap()
@closure 5
    type String
    ensures vx_r@ == s@
@fn cli::CmdOption::new
@ensures
    ret.name@ == name@ && ret.required, //#C22
@fn cli::CmdOption::optional
@ensures
    ret == (CmdOption { required: false, ..self }), //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@fn cli::Arg::new
@ensures
    flag_arg(name@, long@, short, ret), //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@fn cli::Arg::with_value_name
@ensures
    ret == (Arg { value_name: ret.value_name, ..self }), //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@fn cli::Arg::with_default_value
@ensures
    ret == (Arg { default_value: ret.default_value, ..self }) && ret.default_value is Some && ret.default_value.unwrap()@ == default_value@, //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@fn cli::Arg::requires
@ensures
    ret == (Arg { requires: ret.requires, ..self }) && ret.requires is Some, //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
    self.requires is None ==> ret.requires.unwrap()@.len() == 1 && ret.requires.unwrap()@[0]@ == requires@, //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@fn cli::Arg::required
@ensures
    ret == (Arg { required: true, ..self }), //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@fn cli::Value::throw_if_none
@ensures
    final(vx_w)@ == old(vx_w)@, //#C22
    *self is Present && ret@ == self->Present_0@, //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@fn cli::Value::to_option
@ensures
    ret is Some <==> *self is Present, //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
    ret is Some ==> ret.unwrap()@ == self->Present_0@, //#C08 C09 C10 C11 C12 C14 C17 C19 C21 C22
@fn cli::cli_help
@decreases (if command_name is Some { 1int } else { 0int }), 0int
@ensures
    final(vx_w)@ == (WV { out: final(vx_w)@.out, ..old(vx_w)@ }), //#C11 C12 C22
@begin
    proof { assert forall|s: Seq<char>, p: Seq<char>| (#[trigger] str_split(s, p)).len() > 0 by {} }
@loop 0
    vx_w@ == (WV { out: vx_w@.out, ..old(vx_w)@ }), //#C11 C12 C22
@closure 0
    requires command_name@.len() > 0
    ensures same(vx_r, (command.name@ == command_name@[0]@))
@fn cli::command_help
@ensures
    final(vx_w)@ == (WV { out: final(vx_w)@.out, ..old(vx_w)@ }), //#C11 C12 C22
@loop 0
    vx_w@ == (WV { out: vx_w@.out, ..old(vx_w)@ }), //#C11 C12 C22
@loop 1
    vx_w@ == (WV { out: vx_w@.out, ..old(vx_w)@ }), //#C11 C12 C22
@fn main
@rlimit 60
@requires
    old(vx_w)@.pending == 0 && old(vx_w)@.outdir == named_dir() && old(vx_w)@.spoiled == Set::<FileId>::empty(),
@ensures
    command_is("rename"@) ==> value('n', "name"@) is Some && edits(old(vx_w)@, final(vx_w)@, a_rename(value('n', "name"@).unwrap())), //#C08 C22
    command_is("comment"@) ==> value('c', "comment"@) is Some && edits(old(vx_w)@, final(vx_w)@, a_comment(value('c', "comment"@).unwrap())), //#C09 C22
    command_is("lock"@) ==> edits(old(vx_w)@, final(vx_w)@, a_lock()), //#C10 C22
    command_is("unlock"@) ==> edits(old(vx_w)@, final(vx_w)@, an_unlock()), //#C10 C22
    command_is("archive"@) ==> edits(old(vx_w)@, final(vx_w)@, an_archive()), //#C10 C22
    command_is("unarchive"@) ==> edits(old(vx_w)@, final(vx_w)@, an_unarchive()), //#C10 C22
    command_is("convert"@) && !given('m', "mass"@) ==> args().len() > 2 && converted(old(vx_w)@, final(vx_w)@, path_of(args()[2]), text_opt(value('o', "output"@)),
        value_or('d', "display-mode"@, "accessible"@), value_or('e', "encode-mode"@, "smart"@), given('c', "content"@), given('p', "preview"@)), //#C07 C01 C22 C11 C13 C14 C17
    command_is("convert"@) && given('m', "mass"@) && value('o', "output"@) is Some ==> only_in(old(vx_w)@.fs, final(vx_w)@.fs, path_of(value('o', "output"@).unwrap())), //#C19
    command_is("convert"@) && given('m', "mass"@) && value('o', "output"@) is Some ==> mass_done(old(vx_w)@.fs, final(vx_w)@.fs, final(vx_w)@.spoiled, path_of(value('o', "output"@).unwrap()),
        value_or('d', "display-mode"@, "accessible"@), value_or('e', "encode-mode"@, "smart"@)), //#C17 C14 C07 C13 C22
    command_is("convert"@) && given('m', "mass"@) && value('o', "output"@) is None ==> final(vx_w)@.fs == old(vx_w)@.fs, //#C11 C19
    command_is("search"@) ==> args().len() > 2 && wanted(args()[2], value_or('t', "type"@, "accessible"@)) is Some
        && explains(old(vx_w)@.out, final(vx_w)@.out, wanted(args()[2], value_or('t', "type"@, "accessible"@)).unwrap()), //#C21
    command_is("details"@) ==> args().len() > 2 && old(vx_w)@.fs.contains_key(file_at(path_of(args()[2]))), //#C22
    command_is("details"@) ==> details_shown(old(vx_w)@.fs, path_of(args()[2]), final(vx_w)@.out), //#C07 C13
    command_is("details"@) || command_is("search"@) || command_is("models"@) || command_is("help"@) || command_is("version"@) ==> final(vx_w)@.fs == old(vx_w)@.fs, //#C11 C12
    final(vx_w)@.pending == 0, //#C22
@begin
    broadcast use {crate::cmdline::lemma_arg_push, crate::cmdline::lemma_opt_push, crate::cmdline::lemma_command_push};
    proof { reveal_strlit("help"); reveal_strlit("command"); reveal_strlit("version"); reveal_strlit("convert"); reveal_strlit("search"); reveal_strlit("rename"); reveal_strlit("comment"); reveal_strlit("lock"); reveal_strlit("unlock"); reveal_strlit("archive"); reveal_strlit("unarchive"); reveal_strlit("details"); reveal_strlit("models"); reveal_strlit("input"); reveal_strlit("output"); reveal_strlit("display-mode"); reveal_strlit("encode-mode"); reveal_strlit("content"); reveal_strlit("preview"); reveal_strlit("mass"); reveal_strlit("accessible"); reveal_strlit("smart"); reveal_strlit("token"); reveal_strlit("type"); reveal_strlit("name"); reveal_strlit("new-file"); reveal_strlit("delete-old"); }
