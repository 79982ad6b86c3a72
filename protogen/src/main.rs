//! protogen SRC OUT: regenerates OUT/segment_metadata.rs from SRC/segment_metadata.proto
//! with the options of the repository's build.rs.
fn main() -> Result<(), String> {
    let a: Vec<String> = std::env::args().collect();
    tonic_build::configure()
        .build_server(true)
        .build_client(true)
        .out_dir(&a[2])
        .compile(&[format!("{}/segment_metadata.proto", a[1])], &[a[1].clone()])
        .map_err(|err| format!("protobuf compilation failed: {}", err))
}
