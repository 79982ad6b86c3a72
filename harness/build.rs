// The code under test is compiled from the source tree the driver names
// (/repo/src/store, or the same tree with segment_metadata.rs regenerated from
// its .proto, as the repository's own build does).
fn main() {
    let dir = std::env::var("MEERKAT_STORE_DIR").unwrap_or_else(|_| "/repo/src/store".into());
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("store_mod.rs");
    std::fs::write(out, format!("#[path = {:?}]\npub mod store;\n", format!("{}/mod.rs", dir))).unwrap();
    println!("cargo:rerun-if-env-changed=MEERKAT_STORE_DIR");
    println!("cargo:rerun-if-changed=build.rs");
}
