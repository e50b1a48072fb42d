//! Lists the modules of /repo's console binary, so that `console_main.rs` can include them.
use std::path::Path;

fn main() {
    const SRC: &str = "/repo/console/src";
    println!("cargo:rerun-if-changed={SRC}/main.rs");
    println!("cargo:rerun-if-changed=build.rs");
    let main = std::fs::read_to_string(format!("{SRC}/main.rs")).unwrap_or_default();
    let mut out = String::new();
    for l in main.lines() {
        let l = l.trim().trim_start_matches("pub(crate) ").trim_start_matches("pub ");
        if let Some(m) = l.strip_prefix("mod ").and_then(|m| m.strip_suffix(';')) {
            let flat = format!("{SRC}/{m}.rs");
            let path = if Path::new(&flat).exists() { flat } else { format!("{SRC}/{m}/mod.rs") };
            out += &format!("#[path = \"{path}\"]\nmod {m};\n");
        }
    }
    std::fs::write(format!("{}/console.rs", std::env::var("OUT_DIR").unwrap()), out).unwrap();
}
