fn main() {
    let o = std::env::var("OUT_DIR").unwrap();
    let ok = std::process::Command::new("gcc")
        .args(["-O2", "-Wall", "-c", "shim/detsched.c", "-o"])
        .arg(format!("{o}/detsched.o"))
        .status()
        .expect("gcc")
        .success();
    assert!(ok, "gcc failed");
    println!("cargo:rustc-link-arg={o}/detsched.o");
    println!("cargo:rerun-if-changed=shim/detsched.c");
    println!("cargo:rerun-if-changed=build.rs");
}
