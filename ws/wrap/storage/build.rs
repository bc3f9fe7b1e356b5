// Compiles every proto of the crate, as the crate's own build script does.
fn main() {
    let root = std::path::Path::new(&std::env::var("CARGO_MANIFEST_DIR").unwrap()).join("../../../build/src").join(std::env::var("CARGO_PKG_NAME").unwrap());
    std::env::set_current_dir(&root).unwrap();
    let pb = root.join("src/pb");
    println!("cargo:rerun-if-changed={}", pb.display());
    let mut f: Vec<_> = std::fs::read_dir(&pb).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "proto").unwrap_or(false)).collect();
    f.sort();
    prost_build::compile_protos(&f, &["src"]).unwrap();
}
