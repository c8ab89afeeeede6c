fn main() {
    println!("cargo:rustc-env=__TOMBI_VERSION=0.0.0-dev");
    println!(
        "cargo:rustc-env=__TOMBI_TARGET_TRIPLE={}",
        std::env::var("TARGET").unwrap()
    );
    println!("cargo:rerun-if-changed=build.rs");
}
