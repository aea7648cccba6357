fn main() {
    // Z3 5.x ships with the preinstalled Python tooling; the distribution's 4.8 is the fallback.
    let newer = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::path::Path::new(newer).join("libz3.so").exists() {
        println!("cargo:rustc-link-search=native={newer}");
        println!("cargo:rustc-link-arg=-Wl,-rpath,{newer}");
    }
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
