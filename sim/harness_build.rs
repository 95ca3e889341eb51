fn main() {
    let core = concat!(env!("CARGO_MANIFEST_DIR"), "/simcore");
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/sim.o");
    let st = std::process::Command::new("gcc").args(["-O1", "-g", "-fPIC", "-Wall", "-c", "-o", &obj, &format!("{core}/sim.c")]).status().expect("gcc");
    assert!(st.success());
    println!("cargo:rerun-if-changed={core}/sim.c");
    println!("cargo:rerun-if-changed={core}/sim.h");
    println!("cargo:rustc-link-arg-bins={obj}");
    // air's main.rs with its arguments passed in; when it no longer looks like that, an equivalent one
    let main = "/repo/crates/air/src/main.rs";
    println!("cargo:rerun-if-changed={main}");
    let text = std::fs::read_to_string(main).unwrap_or_default();
    let text = if text.matches("Args::parse()").count() == 1 && !text.contains("//!") { text.replace("Args::parse()", "Args::parse_from(crate::program_args())") } else { MAIN.to_string() };
    std::fs::write(format!("{out}/air_main.rs"), text).unwrap();
}
const MAIN: &str = r#"
use clap::Parser;
use std::process::ExitCode;
fn main() -> ExitCode {
    match air::run(air::args::Args::parse_from(crate::program_args())) {
        Ok(status) => status.into(),
        Err(err) => {
            eprintln!("air failed");
            for cause in err.chain() { eprintln!("  Cause: {cause}"); }
            air::status::ExitStatus::Error.into()
        }
    }
}
"#;
