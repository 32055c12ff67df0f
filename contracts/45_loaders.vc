@fn calculator::program::Program::load_from_txt
@ensures
    final(vx_w)@ == old(vx_w)@, //#C11 C12 C22
    ret is Ok ==> old(vx_w)@.fs.contains_key(file_at(path@)) && kind_of(path@) == Some(ProgramFileType::TXT), //#C05 C22
    ret is Ok ==> text_loaded(file_text_of(old(vx_w)@.fs[file_at(path@)]), *encode_mode, ret->Ok_0), //#C02 C03 C05 C15 C17
    ret is Ok ==> prog_wf(ret->Ok_0), //#C06 C18
    ret is Err && old(vx_w)@.fs.contains_key(file_at(path@)) && kind_of(path@) == Some(ProgramFileType::TXT) ==> ret->Err_0 is FileRead || !txt_ok(file_text_of(old(vx_w)@.fs[file_at(path@)]), *encode_mode), //#C02 C05
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@begin
    proof {
        let f = file_text_of(vx_w@.fs[file_at(path@)]);
        assert forall|p: Program| text_loaded(f, *encode_mode, p) implies #[trigger] prog_wf(p) by { lemma_text_wf(f, *encode_mode, p); }
    }
@fn calculator::program::Program::load_from_json
@ensures
    final(vx_w)@ == old(vx_w)@, //#C11 C12 C22
    ret is Ok ==> old(vx_w)@.fs.contains_key(file_at(path@)) && kind_of(path@) == Some(ProgramFileType::JSON), //#C14 C22
    ret is Ok ==> json_parse::<Program>(file_text_of(old(vx_w)@.fs[file_at(path@)])) == Some(ret->Ok_0), //#C14
    ret is Ok ==> prog_wf(ret->Ok_0), //#C06 C18
    ret is Ok ==> small(ret->Ok_0), //#C18
    ret is Ok ==> forall|p: Program| old(vx_w)@.fs[file_at(path@)] == encode_utf8(#[trigger] p.jv()) ==> ret->Ok_0 == p, //#C14
    ret is Err && old(vx_w)@.fs.contains_key(file_at(path@)) && kind_of(path@) == Some(ProgramFileType::JSON) ==> ret->Err_0 is FailedToReadFile || !json_ok(file_text_of(old(vx_w)@.fs[file_at(path@)])), //#C14
    ret is Err ==> !(ret->Err_0 is Quit), //#C22
@begin
    broadcast use crate::txt::lemma_file_text;
    broadcast use crate::txt::ax_json;
    broadcast use crate::convert::ax_json_size;
