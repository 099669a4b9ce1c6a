// Links the engine against the LLVM shared library that ships inside the Rust
// toolchain (so bitcode versions always agree).
use std::{fs, path::PathBuf, process::Command};
fn main() {
    let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().unwrap();
    let sysroot = PathBuf::from(String::from_utf8(out.stdout).unwrap().trim());
    let lib = sysroot.join("lib");
    let mut llvm = None;
    for e in fs::read_dir(&lib).unwrap() {
        let p = e.unwrap().path();
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        if n.starts_with("libLLVM.so") {
            llvm = Some(p);
        }
    }
    let llvm = llvm.expect("no libLLVM.so in toolchain");
    println!("cargo:rustc-link-arg={}", llvm.display());
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib.display());
    println!("cargo:rerun-if-changed=build.rs");
}
