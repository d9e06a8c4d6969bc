// Links the toolchain's own libLLVM (the one that wrote the bitcode) and the system's libz3.
use std::process::Command;
fn main() {
    let rustc = std::env::var("RUSTC").unwrap_or_else(|_| "rustc".into());
    let out = Command::new(&rustc).args(["--print", "sysroot"]).output().expect("rustc --print sysroot");
    let sysroot = String::from_utf8(out.stdout).unwrap().trim().to_string();
    let lib = format!("{}/lib", sysroot);
    let so = std::fs::read_dir(&lib).unwrap().filter_map(|e| e.ok()).map(|e| e.file_name().into_string().unwrap())
        .find(|n| n.starts_with("libLLVM.so.")).expect("libLLVM of the toolchain");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib);
    println!("cargo:rustc-link-arg={}/{}", lib, so);
    println!("cargo:rustc-link-arg=-lz3");
    println!("cargo:rerun-if-changed=build.rs");
}
