@fn commands::edit::load_program
@ensures
    final(vx_w)@ == (WV { out: final(vx_w)@.out, err: final(vx_w)@.err, ..old(vx_w)@ }), //#C11 C12 C22
    edit_loaded(old(vx_w)@.fs, input_path@, ret), //#C22 C01 C07
    prog_wf(ret), //#C06 C18
@fn commands::edit::may_be_same_file
@ensures
    final(vx_w)@ == old(vx_w)@, //#C12
    !ret ==> file_at(first@) != file_at(second@), //#C12
    ret ==> file_at(first@) == file_at(second@) || unresolvable(first@) || unresolvable(second@), //#C12 C22
@fn commands::edit::save_edits
@requires
    prog_wf(program),
    old(vx_w)@.outdir is None,
@ensures
    edit_saved(old(vx_w)@.fs, final(vx_w)@.fs, input_path@, new_file_path, delete_old, program), //#C12 C11 C06 C22
    edit_asked(old(vx_w)@, final(vx_w)@, target_of(input_path@, new_file_path)), //#C11
    final(vx_w)@.pending == old(vx_w)@.pending + 1, //#C22
@fn commands::edit::rename::rename_command
@requires
    old(vx_w)@.outdir is None && old(vx_w)@.pending == 0,
@ensures
    edited(old(vx_w)@, final(vx_w)@, path_of(input_path_string@), new_file_path, delete_old, a_rename(name@)), //#C08 C06 C11 C12 C22
@end
    proof {
        assert(edit_asked(old(vx_w)@, vx_w@, target_of(path_of(input_path_string@), new_file_path)));
        assert(vx_w@.pending == old(vx_w)@.pending && same_files(old(vx_w)@.fs, old(vx_w)@.fs) && same_files(vx_w@.fs, vx_w@.fs));
    }
@fn commands::edit::comment::comment_command
@requires
    old(vx_w)@.outdir is None && old(vx_w)@.pending == 0,
@ensures
    edited(old(vx_w)@, final(vx_w)@, path_of(input_path_string@), new_file_path, delete_old, a_comment(comment@)), //#C09 C06 C11 C12 C22
@end
    proof {
        assert(edit_asked(old(vx_w)@, vx_w@, target_of(path_of(input_path_string@), new_file_path)));
        assert(vx_w@.pending == old(vx_w)@.pending && same_files(old(vx_w)@.fs, old(vx_w)@.fs) && same_files(vx_w@.fs, vx_w@.fs));
    }
@fn commands::edit::lock::lock_command
@requires
    old(vx_w)@.outdir is None && old(vx_w)@.pending == 0,
@ensures
    edited(old(vx_w)@, final(vx_w)@, path_of(input_path_string@), new_file_path, delete_old, a_lock()), //#C10 C06 C11 C12 C22
@end
    proof {
        assert(edit_asked(old(vx_w)@, vx_w@, target_of(path_of(input_path_string@), new_file_path)));
        assert(vx_w@.pending == old(vx_w)@.pending && same_files(old(vx_w)@.fs, old(vx_w)@.fs) && same_files(vx_w@.fs, vx_w@.fs));
    }
@fn commands::edit::unlock::unlock_command
@requires
    old(vx_w)@.outdir is None && old(vx_w)@.pending == 0,
@ensures
    edited(old(vx_w)@, final(vx_w)@, path_of(input_path_string@), new_file_path, delete_old, an_unlock()), //#C10 C06 C11 C12 C22
@end
    proof {
        assert(edit_asked(old(vx_w)@, vx_w@, target_of(path_of(input_path_string@), new_file_path)));
        assert(vx_w@.pending == old(vx_w)@.pending && same_files(old(vx_w)@.fs, old(vx_w)@.fs) && same_files(vx_w@.fs, vx_w@.fs));
    }
@fn commands::edit::archive::archive_command
@requires
    old(vx_w)@.outdir is None && old(vx_w)@.pending == 0,
@ensures
    edited(old(vx_w)@, final(vx_w)@, path_of(input_path_string@), new_file_path, delete_old, an_archive()), //#C10 C06 C11 C12 C22
@end
    proof {
        assert(edit_asked(old(vx_w)@, vx_w@, target_of(path_of(input_path_string@), new_file_path)));
        assert(vx_w@.pending == old(vx_w)@.pending && same_files(old(vx_w)@.fs, old(vx_w)@.fs) && same_files(vx_w@.fs, vx_w@.fs));
    }
@fn commands::edit::unarchive::unarchive_command
@requires
    old(vx_w)@.outdir is None && old(vx_w)@.pending == 0,
@ensures
    edited(old(vx_w)@, final(vx_w)@, path_of(input_path_string@), new_file_path, delete_old, an_unarchive()), //#C10 C06 C11 C12 C22
@end
    proof {
        assert(edit_asked(old(vx_w)@, vx_w@, target_of(path_of(input_path_string@), new_file_path)));
        assert(vx_w@.pending == old(vx_w)@.pending && same_files(old(vx_w)@.fs, old(vx_w)@.fs) && same_files(vx_w@.fs, vx_w@.fs));
    }
