fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    // natively, whether the processor has AES instructions is the harness's choice
    if std::env::var_os("CARGO_FEATURE_SYM").is_none() {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap=rust_crypto_util_supports_aesni");
    }
}
