use std::process::Command;
fn main() {
    // libLLVM shipped with the toolchain that also compiles the code under test.
    let rustc = std::env::var("RUSTC").unwrap_or_else(|_| "rustc".into());
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().expect("rustc");
    let root = String::from_utf8(out.stdout).unwrap();
    let lib = format!("{}/lib", root.trim());
    let mut so = None;
    for e in std::fs::read_dir(&lib).unwrap() {
        let n = e.unwrap().file_name().into_string().unwrap();
        if n.starts_with("libLLVM.so.") { so = Some(n); }
    }
    let so = so.expect("libLLVM.so.* not found in the sysroot");
    println!("cargo:rustc-link-arg={}/{}", lib, so);
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib);
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
