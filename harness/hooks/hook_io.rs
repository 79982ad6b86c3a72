// Included in a child module of store::io (cfg meerkat_verif).
use super::*;
use crate::nd;
#[cfg(feature = "c18")]
mod c18 {
    use super::*;
    include!("c18.rs");
}
#[cfg(feature = "c19")]
mod c19 {
    use super::*;
    include!("c19.rs");
}
#[cfg(any(feature = "c25", feature = "c28"))]
pub mod rd {
    use super::*;
    use super::unix_disk_block_reader::Reader;
    /// the bytes of each range, in order, one read at a time or as a batch
    pub fn read(path: &[u8], ranges: &[(u64, u64)], batch: bool) -> Option<Vec<Vec<u8>>> {
        let p: std::path::PathBuf = std::ffi::OsString::from(unsafe { String::from_utf8_unchecked(path.to_vec()) }).into();
        let r = nd::block_on(Reader::new(p)).ok()?;
        let mut out = Vec::new();
        if !batch {
            for (start, end) in ranges {
                out.push(nd::block_on(r.read_block(BlockRange { start: *start, end: *end })).ok()?);
            }
            return Some(out);
        }
        let ops = ranges.iter().enumerate().map(|(i, (start, end))| ReadOp { block_range: BlockRange { start: *start, end: *end }, op_info: OpInfo::DataBlock { first_row_id: i as u32 } });
        let mut s = r.read_blocks(ops.collect());
        for i in 0..ranges.len() {
            match nd::block_on(futures::StreamExt::next(&mut s)) {
                Some(Ok(b)) if b.op_info == (OpInfo::DataBlock { first_row_id: i as u32 }) => out.push(b.buf),
                _ => return None,
            }
        }
        Some(out)
    }
}
