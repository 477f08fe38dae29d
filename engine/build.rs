fn main() {
    // Prefer the newer z3 of the tooling venv; fall back to the system library.
    let v = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::path::Path::new(v).join("libz3.so").exists() {
        println!("cargo:rustc-link-search=native={v}");
        println!("cargo:rustc-link-arg=-Wl,-rpath,{v}");
    }
    println!("cargo:rustc-link-lib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
