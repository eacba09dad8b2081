//! Copies out of the real tree what is private there, text for text: the line break tables (a private module) and
//! core-lib's LineBreakCursor (a private type). What is not found is left out; the generator that needs it then says so.
use std::{env, fs, path::Path};
const TABLES: &str = "/repo/rust/unicode/src/tables.rs";
const WRAP: &str = "/repo/rust/core-lib/src/linewrap.rs";
/// the item that starts with `head`, up to its closing brace
fn item(src: &str, head: &str) -> Option<String> {
    let at = src.match_indices(head).map(|(i, _)| i).find(|&i| i == 0 || src[..i].ends_with('\n'))?;
    let mut depth = 0;
    for (i, c) in src[at..].char_indices() {
        match c {
            '{' => depth += 1,
            '}' => {
                depth -= 1;
                if depth == 0 {
                    return Some(src[at..at + i + 1].to_string());
                }
            }
            _ => {}
        }
    }
    None
}
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    for f in [TABLES, WRAP, "build.rs"] {
        println!("cargo:rerun-if-changed={}", f);
    }
    println!("cargo:rustc-check-cfg=cfg(have_tables)");
    println!("cargo:rustc-check-cfg=cfg(have_lbcursor)");
    let t = fs::read_to_string(TABLES).unwrap_or_default();
    let names = ["LINEBREAK_1_2: [u8; 2048]", "LINEBREAK_3_ROOT: [u8; 1024]", "LINEBREAK_3_CHILD: [u8; 11712]", "LINEBREAK_4_ROOT: [u8; 272]", "LINEBREAK_4_MID: [u8; 960]", "LINEBREAK_4_LEAVES: [u8; 9408]", "LINEBREAK_STATE_MACHINE: [u8; 3827]", "N_LINEBREAK_CATEGORIES: usize"];
    if names.iter().all(|n| t.contains(&format!("pub const {}", n))) {
        println!("cargo:rustc-cfg=have_tables");
        fs::write(Path::new(&out).join("tables.rs"), t.replace("//!", "//")).unwrap();
    }
    println!("cargo:rustc-check-cfg=cfg(have_emoji)");
    if ["EMOJI_TABLE: [char; 1250]", "EMOJI_MODIFIER_BASE_TABLE: [char; 106]"].iter().all(|n| t.contains(&format!("pub const {}", n))) {
        println!("cargo:rustc-cfg=have_emoji");
        fs::write(Path::new(&out).join("tables17.rs"), t.replace("//!", "//")).unwrap();
    }
    let w = fs::read_to_string(WRAP).unwrap_or_default();
    if let (Some(a), Some(b)) = (item(&w, "struct LineBreakCursor<'a>"), item(&w, "impl<'a> LineBreakCursor<'a>")) {
        let ok = a.contains("inner: Cursor<'a, RopeInfo>") && b.contains("fn new(text: &'a Rope, pos: usize)") && b.contains("fn next(&mut self) -> (usize, bool)");
        if ok {
            println!("cargo:rustc-cfg=have_lbcursor");
            fs::write(Path::new(&out).join("lbcursor.rs"), format!("{}\n{}\n", a, b)).unwrap();
        }
    }
}
