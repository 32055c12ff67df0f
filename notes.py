C = ' Trusted: the std/file-system contracts of contracts/00_vx.rs, vx\'s listed edits, Verus and Z3. A function that a change takes out of the verifier\'s reach is bounded for that run (harness only) and the evidence says so.'
SHEET = ' The facts assumed about the shipped token sheet (ax_sheet, ax_table) are audited on every run.'
JSON = ' Derived serde code is assumed to read back what it wrote (ax_json), available only while vx finds all serde attributes symmetric.'
NOTES = {
 'C01': 'decode, create_from_8xp, load_tokens, get_value and the loaders up to convert/main: the text is the concatenation of the tokens the body splits into, or an error.' + SHEET,
 'C02': 'encode and its helpers: the body is the concatenation of the codes of a tokenisation of each line; lemma: decoding gives the lines back.' + SHEET,
 'C03': 'get_longest/shortest_matching_token, EncodeState and encode follow the state machine next_state. One known finding (D14): after a closing quote smart mode stays in shortest mode, pinned by the repository\'s own fixtures.' + SHEET,
 'C05': 'create_from_txt and everything it builds: every byte of the layout (from_text), rejection of every malformed header.',
 'C06': 'prog_wf is established by the three loaders and kept by all edits; save_to writes saved_bytes; theorem: its length and checksum are consistent.',
 'C07': 'create_from_8xp: every field at its offset (loaded); save_to; details and preview show those values; theorem: an unedited well-formed file is written back identically.',
 'C08': 'Metadata::rename exact in result, error condition and frame; rename_command and main hand the name given over.',
 'C09': 'Header::comment exact in result, error condition and frame; comment_command and main hand the comment given over.',
 'C10': 'lock, unlock, archive, unarchive change exactly one byte and its field; theorems: idempotent, commute, last wins; the commands and main.',
 'C11': 'writing or removing an existing file needs (precondition of the file-system contract) a yes just given for it; every function carries the frame over the map of files.',
 'C12': 'removing the input needs a finished save to another file; save_edits and the commands give the final map of files exactly; option parsing up to main.',
 'C13': 'create_from_8xp for the short layout, to_short_bytes, save_to; theorem: short files survive.',
 'C14': 'load_from_json, save_to, the hand-written serde code of Model; theorem: the reloaded program is equal.' + JSON,
 'C15': 'Model and ModelDetails conversions against the tables of the specification, lemmas over all models.',
 'C16': 'load_tokens builds exactly table(model, version); OsVersion::cmp is os_cmp, shown reflexive, antisymmetric, transitive and total.' + SHEET,
 'C17': 'save_to writes txt_file; create_from_txt reads it; theorem: reading an exported text back (texts without a carriage return).' + SHEET,
 'C18': 'no panic, overflow, bad index, bad slice or unbounded loop in any function reachable from loading, saving, editing and previewing. Stack, memory and files over 1 GiB are outside.',
 'C19': 'every write in mass mode must be to a direct child of the directory named; convert_command and main: only such files differ at the end. Symbolic links inside that directory are outside.',
 'C20': 'the body of the prints! macro as a function of the message: no panic, exact output; lemma: text without brackets is unchanged.',
 'C21': 'search_command prints every entry recorded for the key found, or exits non-zero; get_longest_matching_token; fix_byte_format; main.' + SHEET,
 'C22': 'status zero before the end only after a declined prompt or for help; a non-zero exit only after something was printed; a success message only after a finished save; commands end only with what was asked. Standard input that is not UTF-8 is outside.',
}
NOTE.update({i: 'Proved for all inputs: ' + n + C for i, n in NOTES.items()})
