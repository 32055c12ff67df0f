P = 'src/calculator/program.rs'; DEC = 'src/calculator/file/decode.rs'; ENC = 'src/calculator/file/encode.rs'
X8 = 'src/calculator/file/from_8xp.rs'; TX = 'src/calculator/file/from_txt.rs'; TOK = 'src/calculator/tokens/mod.rs'
MOD = 'src/calculator/models.rs'; CV = 'src/commands/convert.rs'; ED = 'src/commands/edit/mod.rs'; SE = 'src/commands/search.rs'; ST = 'src/styles.rs'
bug('c01-halftoken', 'C01', DEC, [('    if current_bytes.is_empty() {\n', '    if current_bytes.len() < 2 {\n')], '''
w('a.8xp', p8(b'\\x41\\xbb'))
p = cli('convert', 'a.8xp', '-o', 'a.txt')
sys.exit(1 if p.returncode == 0 or has('a.txt') else 0)''', 'a body whose last byte is the first half of a two-byte token', 'the dangling byte is dropped and the load succeeds')
bug('c02-blanktail', 'C02', ENC, [('    encoded_program.pop(); // Remove last new line\n', '''    // Remove last new line
    while encoded_program.last() == Some(&0x3F) {
        encoded_program.pop();
    }
''')], '''
w('a.txt', txt('A\\nB\\n\\n\\n'))
p = cli('convert', 'a.txt', '-o', 'a.8xp')
sys.exit(0 if p.returncode == 0 and body(r('a.8xp')) == b'\\x41\\x3f\\x42\\x3f' else 1)''', 'a text that ends with two empty lines', 'the empty last line is lost')
bug('c03-theta', 'C03', ENC, [('} else if !value.chars().all(|c| c.is_ascii_alphabetic()) {', '} else if !value.chars().all(|c| c.is_alphabetic()) {')], '''
w('a.txt', txt('"\u03b8sin(2', mode='pretty'))
p = cli('convert', 'a.txt', '-o', 'a.8xp')
sys.exit(0 if p.returncode == 0 and body(r('a.8xp')) == b'\\x2a\\x5b\\xc2\\x32' else 1)''', 'smart mode, theta directly after the opening quote', 'theta does not end the shortest-match stretch')
bug('c05-locked', 'C05', TX, [('    metadata_bytes.push(destination.to_byte());', """    metadata_bytes.push(match file_type {
        FileType::LockedProgram => Destination::RAM.to_byte(),
        _ => destination.to_byte(),
    });""")], '''
w('a.txt', txt('A', ty='Locked Program', dest='Archive'))
p = cli('convert', 'a.txt', '-o', 'a.8xp')
sys.exit(0 if p.returncode == 0 and r('a.8xp')[55 + 14] == 0x80 else 1)''', 'a text for a locked program in the archive', 'the destination byte says RAM')
bug('c07-comment42', 'C07', X8, [('    let comment = header_bytes[11..53]', '    let comment = header_bytes[11..52]')], '''
c = b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOP'
w('a.8xp', p8(b'\\x41', comment=c))
p = cli('convert', 'a.8xp', '-o', 'a.txt')
sys.exit(0 if p.returncode == 0 and r('a.txt').split(b'\\n')[1] == c else 1)''', 'a file comment that fills all 42 bytes', 'the last byte of the comment is not reported')
bug('c08-shortname', 'C08', P, [('        self.bytes.splice(5..13, name_bytes.iter().cloned());', '        let used = self.name.len().max(name.len());\n        self.bytes.splice(5..5 + used, name_bytes.iter().take(used).cloned());')], '''
w('a.8xp', p8(b'\\x41', name=b'AB\\0\\0\\0CD'))
p = cli('rename', 'a.8xp', '-n', 'XY', '-f', 'b.8xp')
sys.exit(0 if p.returncode == 0 and r('b.8xp') == p8(b'\\x41', name=b'XY') else 1)''', 'an old name field with bytes after a zero', 'leftover bytes of the old name stay behind the new one')
bug('c09-chars', 'C09', P, [('        if comment.len() > 42 {', '        if comment.chars().count() > 42 {'), ('        while comment_bytes.len() != 42 {', '        while comment_bytes.len() < 42 {')], '''
w('a.8xp', p8(b'\\x41'))
p = cli('comment', 'a.8xp', '-c', '\\u00e9' * 30, '-f', 'b.8xp')
sys.exit(1 if p.returncode == 0 or has('b.8xp') else 0)''', 'a comment of at most 42 characters but more than 42 bytes', 'the header grows and the file is corrupt')
bug('c10-group', 'C10', P, [('''        self.bytes[4] = FileType::LockedProgram.to_byte();
        self.file_type = FileType::LockedProgram;
''', '''        if matches!(self.file_type, FileType::Program) {
            self.bytes[4] = FileType::LockedProgram.to_byte();
            self.file_type = FileType::LockedProgram;
        }
''')], '''
w('a.8xp', p8(b'\\x41', ty=0x17))
p = cli('lock', 'a.8xp', '-f', 'b.8xp')
sys.exit(0 if p.returncode == 0 and r('b.8xp') == p8(b'\\x41', ty=6) else 1)''', 'a file whose type byte is neither 05 nor 06', 'lock reports success but leaves the type byte')
bug('c11-yes', 'C11', P, [('            if input == "y" || input == "Y" {', '            if input.to_lowercase().starts_with(\'y\') {')], '''
w('a.8xp', p8(b'\\x41')); w('b.txt', b'keep')
cli('convert', 'a.8xp', '-o', 'b.txt', inp=b'yikes no\\n')
sys.exit(0 if r('b.txt') == b'keep' else 1)''', 'an answer that starts with y but is not y', 'the existing file is replaced without a yes')
bug('c12-early', 'C12', ED, [('''        let result = program.save_to(&new_file_path);

        match result {
            Ok(_) => {}
            Err(err) => err.print().exit(),
        }

''', '''        let exists = new_file_path.exists();
        let result = program.save_to(&new_file_path);

        match result {
            Ok(_) => {}
            Err(err) => {
                if !(delete_old && exists) {
                    err.print().exit()
                }
            }
        }

''')], '''
w('a.8xp', p8(b'\\x41')); w('b.8xp', b'other')
cli('lock', 'a.8xp', '-f', 'b.8xp', '-d', inp=b'n\\n')
sys.exit(0 if has('a.8xp') else 1)''', 'delete-old, an existing target, and the user declining to overwrite it', 'the input is deleted although nothing was saved')
bug('c13-name', 'C13', X8, [('''            let name = metadata_bytes[5..13]
                .iter()
                .filter(|byte| **byte != 0x00)
                .map(|byte| *byte as char)
                .collect::<String>();
            new_metadata''', '''            let name = metadata_bytes[5..12]
                .iter()
                .filter(|byte| **byte != 0x00)
                .map(|byte| *byte as char)
                .collect::<String>();
            new_metadata''')], '''
w('a.83p', p3(b'\\x41', name=b'ABCDEFGH'))
p = cli('convert', 'a.83p', '-o', 'a.txt')
sys.exit(0 if p.returncode == 0 and r('a.txt').split(b'\\n')[0] == b'ABCDEFGH' else 1)''', 'an 83p file with an eight letter name', 'the last letter of the name is not reported')
bug('c14-version', 'C14', P, [('    pub name: String,\n    pub version: u8,\n', '    pub name: String,\n    #[serde(skip)]\n    pub version: u8,\n')], '''
import json
w('a.8xp', p8(b'\\x41', version=0x1b))
p = cli('convert', 'a.8xp', '-o', 'a.json')
p2 = cli('convert', 'a.json', '-o', 'b.json')
j = json.loads(r('a.json')); k = json.loads(r('b.json'))
sys.exit(0 if p.returncode == 0 and p2.returncode == 0 and j['metadata'].get('version') == 0x1b and j == k else 1)''', 'a program with a non-zero version byte', 'the version is not kept in json')
bug('c15-plusse', 'C15', MOD, [('            "TI-84+PSE" => Model::TI84PlusPSE,', '            "TI-84+PSE" => Model::TI84PlusSE,')], '''
w('a.txt', txt('A', model='TI-84+PSE'))
p = cli('convert', 'a.txt', '-o', 'b.txt')
sys.exit(0 if p.returncode == 0 and r('b.txt').split(b'\\n')[5] == b'TI-84+PSE' else 1)''', 'the one model name', 'a model name is turned into another model')
bug('c17-trim', 'C17', P, [('                    &self.body.translation\n                );', '                    self.body.translation.trim_end()\n                );')], '''
w('a.8xp', p8(b'\\x41\\x29\\x3f\\x3f'))
p = cli('convert', 'a.8xp', '-o', 'a.txt')
sys.exit(0 if p.returncode == 0 and b''.join(r('a.txt').split(b'\\n', 6)[6:]) == b'A \\n\\n' else 1)''', 'a program text ending in blanks or new lines', 'the end of the text is cut off in the export')
bug('c18-badpair', 'C18', DEC, [('''            _ => {
                return Err(TiToolsError::InvalidByteLength(format!(
                    "{:02X?}",
                    current_bytes
                )))
            }
''', '''            _ => unreachable!("tokens have at most two bytes: {:02X?}", current_bytes),
''')], '''
w('a.8xp', p8(b'\\x41\\xbb\\xff\\x41'))
p = cli('convert', 'a.8xp', '-o', 'a.txt')
sys.exit(0 if p.returncode == 1 and b'panicked' not in p.stderr else 1)''', 'a two-byte prefix followed by a byte that makes no token, and a third byte', 'the loader panics instead of returning an error')
bug('c20-colon', 'C20', ST, [('                if parts.len() == 2 {', '                if directive.is_empty() || parts[0].len() < 6 {')], '''
w('a.8xp', p8(b'\\x41'))
p = cli('comment', 'a.8xp', '-c', 'x [bg] y', '-f', 'b.8xp')
sys.exit(0 if p.returncode == 0 and b'panicked' not in p.stderr else 1)''', 'a comment with [color], [bg] or [style] in it', 'the status message panics')
bug('c21-first', 'C21', SE, [('    for syntax_variation in token_definition {', '    for syntax_variation in token_definition.iter().take(4) {')], '''
import json
d = json.load(open('/repo/src/calculator/tokens/token_definitions.json'))
k, v = max(d.items(), key=lambda kv: len(kv[1]))
p = cli('search', k, '-t', 'byte')
sys.exit(0 if p.stdout.decode().count('syntax: ') >= len(v) else 1)''', 'a token with more than four recorded syntaxes', 'the later syntaxes are not shown')
bug('c22-status', 'C22', ED, [('''                Err(err) => TiToolsError::FailedToDeleteFile(err.to_string())
                    .print()
                    .exit(),
''', '''                Err(err) => {
                    TiToolsError::FailedToDeleteFile(err.to_string()).print();
                }
''')], '''
import os
os.makedirs(os.path.join(T, 'ro'), exist_ok=True)
w('ro/a.8xp', p8(b'\\x41'))
if os.getuid() == 0:
    import pwd
    os.chmod(T, 0o777)
    os.chmod(os.path.join(T, 'ro'), 0o555)
    import shutil
    shutil.copy(B, os.path.join(T, 'tt')); os.chmod(os.path.join(T, 'tt'), 0o755)
    p = subprocess.run([os.path.join(T, 'tt'), 'lock', 'ro/a.8xp', '-f', 'b.8xp', '-d'], cwd=T, user=65534, group=65534, extra_groups=[], capture_output=True)
else:
    os.chmod(os.path.join(T, 'ro'), 0o555)
    p = cli('lock', 'ro/a.8xp', '-f', 'b.8xp', '-d')
sys.exit(0 if p.returncode != 0 else 1)''', 'a directory the old file cannot be deleted from', 'the failed deletion ends with status zero')
bug('c16-nested', 'C16', TOK, [('''                            token.until.is_none() || token.until.as_ref().unwrap() >= target
                        })
                        .collect();
                    for token''', '''                            token.until.is_none() || token.until.as_ref().unwrap() > target
                        })
                        .collect();
                    for token''')], '''#!/bin/bash
set -u
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cat > "$T/Cargo.toml" <<'X'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
ti-tools = { path = "/repo" }
[workspace]
X
cp /repo/Cargo.lock "$T/Cargo.lock" 2>/dev/null
cat > "$T/src/main.rs" <<'X'
use ti_tools::calculator::models::Model;
use ti_tools::calculator::tokens::{load_tokens, OsVersion};
fn main() {
    // $EF$1A was withdrawn with this version, so it still exists on it
    let v: Vec<&str> = include_str!("v.txt").trim().split(' ').collect();
    let m = load_tokens(&OsVersion::new(Model::from_string(v[1]), v[2].to_string())).unwrap();
    std::process::exit(if m.get_value(&format!("{} en", v[0])).is_some() { 0 } else { 1 });
}
X
python3 - "$T/src/v.txt" <<'X'
import json, sys
d = json.load(open('/repo/src/calculator/tokens/standard_tokens/8X.json'))
for k, v in d.items():
    if isinstance(v, dict):
        for s, l in v.items():
            if len(l) == 1 and l[0].get('until') and l[0]['until'] != l[0]['since']:
                u = l[0]['until']
                open(sys.argv[1], 'w').write('%s%s %s %s' % (k, s, u['model'], u['os-version'])); sys.exit()
X
cd "$T" && CARGO_TARGET_DIR="$T/t" cargo run -q --offline
''', 'a two-byte token asked for at exactly the version it was withdrawn with', 'the token is missing from the table')

MN = 'src/main.rs'; CL = 'src/cli.rs'; DT = 'src/commands/details.rs'
bug('c06-sametail', 'C06', P, [('                output_bytes.extend(self.body.bytes.to_vec());\n', """                let mut body = self.body.bytes.clone();
                if body.last() == Some(&0x3F) {
                    body.pop(); // a program does not end with a new line
                }
                output_bytes.extend(body);
""")], '''
w('a.8xp', p8(b'\\x41\\x3f'))
p = cli('lock', 'a.8xp', '-f', 'b.8xp')
d = r('b.8xp')
n = struct.unpack('<H', d[53:55])[0]
sys.exit(0 if p.returncode == 0 and len(d) == 55 + n + 2 and sum(d[55:-2]) & 0xffff == struct.unpack('<H', d[-2:])[0] else 1)''', 'a body that ends with a newline token', 'the file is one byte shorter than its length fields and checksum say')
bug('c08-same', 'C08', P, [('        let name = name.to_uppercase();\n', """        let name = name.to_uppercase();
        if name == self.name {
            return Ok(());
        }
""")], '''
w('a.8xp', p8(b'\\x41', name=b'A\\0B'))
p = cli('rename', 'a.8xp', '-n', 'AB', '-f', 'b.8xp')
sys.exit(0 if p.returncode == 0 and r('b.8xp') == p8(b'\\x41', name=b'AB') else 1)''', 'a name field with a zero between the letters, renamed to the name it shows', 'the stored name stays as it was')
bug('c11-empty', 'C11', P, [('        if path.exists() {\n            println!("A file', '        if std::fs::metadata(path).map(|m| m.len() > 0).unwrap_or(false) {\n            println!("A file')], '''
w('a.8xp', p8(b'\\x41')); w('b.txt', b'')
cli('convert', 'a.8xp', '-o', 'b.txt', inp=b'n\\n')
sys.exit(0 if r('b.txt') == b'' else 1)''', 'an existing output file that is empty', 'it is replaced without asking')
bug('c19-backslash', 'C19', CV, [('''                        Path::new(&output_path_string.as_ref().unwrap())
                            .join(&name)
                            .with_extension("txt")
''', '''                        Path::new(&output_path_string.as_ref().unwrap())
                            .join(name.replace('\\\\', "/"))
                            .with_extension("txt")
''')], '''
w('in/a.8xp', p8(b'\\x41', name=b'..\\\\up'))
os.makedirs(os.path.join(T, 'd/out'))
cli('convert', os.path.join(T, 'in'), '-o', 'd/out', '-m', inp=b'y\\n')
sys.exit(1 if has('d/up.txt') else 0)''', 'a program named with a backslash, mass converted', 'the text is written outside the output directory')
bug('c21-spaces', 'C21', SE, [('tokens.get_longest_matching_token(&token, &DisplayMode::Accessible)', 'tokens.get_longest_matching_token(token.trim(), &DisplayMode::Accessible)')], '''
a, b = cli('search', ' ', '-t', 'accessible'), cli('search', '0x29', '-t', 'byte')
sys.exit(0 if b.returncode == 0 and a.returncode == 0 and a.stdout == b.stdout else 1)''', 'a query that begins with a space, which is a token itself', 'another token is explained')
bug('c10-wiring', 'C10', MN, [('unarchive_command(input_path_string, new_file_path, delete_old);', 'unlock_command(input_path_string, new_file_path, delete_old);')], '''
w('a.8xp', p8(b'\\x41', dest=0x80, ty=6))
p = cli('unarchive', 'a.8xp', '-f', 'b.8xp')
sys.exit(0 if p.returncode == 0 and r('b.8xp') == p8(b'\\x41', dest=0, ty=6) else 1)''', 'the unarchive command on a locked or archived program', 'the program is unlocked and stays archived')
bug('c07-details', 'C07', DT, [('    println!("{}", program.header.comment);\n', '    println!("{}", program.header.comment.trim());\n')], '''
w('a.8xp', p8(b'\\x41', comment=b'  hi'))
p = cli('details', 'a.8xp')
sys.exit(0 if p.returncode == 0 and p.stdout.split(b'\\n')[1] == b'  hi' else 1)''', 'a comment that begins or ends with spaces', 'details reports another comment than the file holds')
bug('c12-flag', 'C12', CL, [('s == format!("-{}", arg.short) || *s == format!("--{}", arg.long));', 's == format!("-{}", arg.short) || s.starts_with(&format!("--{}", arg.long)));')], '''
w('a.8xp', p8(b'\\x41'))
cli('lock', 'a.8xp', '-f', 'b.8xp', '--delete-older-than=7')
sys.exit(0 if has('a.8xp') else 1)''', 'an unknown long option that begins like delete-old', 'the input file is deleted without the delete-old option')
