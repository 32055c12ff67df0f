//! Prints messages with the tool's own macro: reads (length, bytes) records, ends each answer with a marker.
#[macro_use]
#[path = "/repo/src/styles.rs"]
#[allow(dead_code)]
mod styles;
use std::io::Read;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut v = vec![];
    std::io::stdin().read_to_end(&mut v).unwrap();
    let mut i = 0;
    while i + 4 <= v.len() {
        let n = u32::from_le_bytes([v[i], v[i + 1], v[i + 2], v[i + 3]]) as usize;
        let s = String::from_utf8(v[i + 4..i + 4 + n].to_vec()).unwrap();
        i += 4 + n;
        let r = std::panic::catch_unwind(|| {
            prints!("{}", s);
        });
        println!("\u{1}\u{2}{}\u{3}", if r.is_ok() { "ok" } else { "panic" });
    }
}
