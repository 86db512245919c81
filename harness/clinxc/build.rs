// The tool's source; inner attributes cannot be included.
fn main() {
    let src = "/repo/nexsys/src/main.rs";
    println!("cargo:rerun-if-changed={src}");
    let text = std::fs::read_to_string(src).unwrap();
    let text: Vec<String> = text
        .lines()
        .map(|l| match l.trim_start() {
            t if t.starts_with("//!") || t.starts_with("#![") => String::new(),
            _ => l.to_string(),
        })
        .collect();
    std::fs::write(format!("{}/tool.rs", std::env::var("OUT_DIR").unwrap()), text.join("\n")).unwrap();
}
