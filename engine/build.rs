fn main() {
    let new = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::env::var("SYMIR_OLD_Z3").is_err() && std::path::Path::new(new).join("libz3.so").exists() {
        println!("cargo:rustc-link-search=native={}", new);
        println!("cargo:rustc-link-arg=-Wl,-rpath,{}", new);
    } else {
        println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    }
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=SYMIR_OLD_Z3");
}
