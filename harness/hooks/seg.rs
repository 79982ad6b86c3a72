// Shared by the segment harnesses: columns written to a segment over the modelled files.
const FID: u64 = 31;
use tokio::mk;

pub fn info(id: u128) -> SegmentInfo {
    SegmentInfo { segment_id: Uuid::from_u128(id), database_name: "db".to_string(), table_name: "t".to_string(), shard_id: 7, num_rows: 3 }
}
pub fn column(name: &str, nullable: bool) -> ColumnInfo {
    ColumnInfo { name: name.to_string(), column_type: ColumnType::String, encoding: Encoding::Raw, index_type: IndexType::NoIndex, nullable }
}
pub const DATA: &[u8] = b"MEERKAT_DATA1";
pub const INDEX: &[u8] = b"MEERKAT_IDX1";
/// the file opened under a name ending in `ext`
pub fn file(ext: &[u8]) -> Option<usize> {
    let w = mk::world();
    let mut r = None;
    for (i, f) in w.files.iter().enumerate() {
        if f.path.len() >= ext.len() && &f.path[f.path.len() - ext.len()..] == ext {
            r = Some(i);
        }
    }
    r
}
